// C11: quadratic and straight segments: evaluation, measures, closest points.
#include "geom.hpp"
#include "mc.hpp"

#include <um2/geometry/line_segment.hpp>
#include <um2/geometry/quadratic_segment.hpp>

namespace
{
using mc::u64;
using ref::LD;

template <int D>
struct V {
  LD c[D] = {};
};
template <int D>
V<D>
operator+(V<D> a, V<D> const & b)
{
  for (int i = 0; i < D; ++i) {
    a.c[i] += b.c[i];
  }
  return a;
}
template <int D>
V<D>
operator*(LD s, V<D> a)
{
  for (int i = 0; i < D; ++i) {
    a.c[i] *= s;
  }
  return a;
}
template <int D>
V<D>
operator-(V<D> const & a, V<D> const & b)
{
  return a + LD(-1) * b;
}
template <int D>
LD
dot(V<D> const & a, V<D> const & b)
{
  LD s = 0;
  for (int i = 0; i < D; ++i) {
    s += a.c[i] * b.c[i];
  }
  return s;
}
template <int D>
LD
norm(V<D> const & a)
{
  return std::sqrt(dot(a, a));
}

template <int D>
struct Curve {
  V<D> a, b, m;
  V<D>
  c1() const
  {
    return LD(4) * m - b - LD(3) * a;
  }
  V<D>
  c2() const
  {
    return LD(2) * (a + b) - LD(4) * m;
  }
  V<D>
  at(LD t) const
  {
    return a + t * (c1() + t * c2());
  }
  V<D>
  d(LD t) const
  {
    return c1() + (2 * t) * c2();
  }
};

template <int D>
LD
lengthRec(Curve<D> const & e, LD lo, LD hi, LD whole, int depth)
{
  auto const g = [&](LD l, LD h) {
    static LD const x[5] = {-0.906179845938663992797626878299393L, -0.538469310105683091036314420700209L, 0,
                            0.538469310105683091036314420700209L, 0.906179845938663992797626878299393L};
    static LD const w[5] = {0.236926885056189087514264040719917L, 0.478628670499366468041291514835638L,
                            0.568888888888888888888888888888889L, 0.478628670499366468041291514835638L,
                            0.236926885056189087514264040719917L};
    LD s = 0;
    for (int i = 0; i < 5; ++i) {
      s += w[i] * norm(e.d((l + h) / 2 + (h - l) / 2 * x[i]));
    }
    return s * (h - l) / 2;
  };
  LD const mid = (lo + hi) / 2;
  LD const l = g(lo, mid);
  LD const r = g(mid, hi);
  if (depth > 20 || std::abs(l + r - whole) < 1e-15L * (1 + l + r)) {
    return l + r;
  }
  return lengthRec(e, lo, mid, l, depth + 1) + lengthRec(e, mid, hi, r, depth + 1);
}

template <int D>
LD
closest(Curve<D> const & e, V<D> const & p)
{
  auto const f = [&](LD t) {
    auto const q = e.at(t) - p;
    return dot(q, q);
  };
  int const n = 16;
  LD v[n + 1];
  LD best = 1e30L;
  for (int i = 0; i <= n; ++i) {
    v[i] = f(LD(i) / n);
    best = std::min(best, v[i]);
  }
  for (int i = 0; i <= n; ++i) {
    if ((i > 0 && v[i] > v[i - 1]) || (i < n && v[i] > v[i + 1])) {
      continue;
    }
    LD lo = std::max(LD(0), LD(i - 1) / n);
    LD hi = std::min(LD(1), LD(i + 1) / n);
    for (int k = 0; k < 42; ++k) {
      LD const a = lo + (hi - lo) * 0.381966011250105151795L;
      LD const b = lo + (hi - lo) * 0.618033988749894848205L;
      (f(a) < f(b) ? hi : lo) = f(a) < f(b) ? b : a;
    }
    best = std::min(best, f((lo + hi) / 2));
  }
  return std::sqrt(best);
}

template <int D, class T>
um2::Point<D, T>
pt(V<D> const & p)
{
  um2::Point<D, T> r;
  for (int i = 0; i < D; ++i) {
    r[i] = static_cast<T>(p.c[i]);
  }
  return r;
}
template <int D, class T>
V<D>
back(um2::Point<D, T> const & p)
{
  V<D> r;
  for (int i = 0; i < D; ++i) {
    r.c[i] = p[i];
  }
  return r;
}

LD const kalong[] = {0, 0.1L, -0.125L, 0.2L, -0.24L, 0.25L, -0.3L, 0.45L, -0.7L};
// across[0] is straight; then just below and above the straightness threshold, then visible bulges
LD const kacross[] = {0, 0.3L, -0.3L, 2, -2, 100, 1e4L, -1e4L, 0.01L, -0.01L, 0.125L, -0.125L, 0.5L, -1, 2};
int const nbulge = 15;

template <int D, class T>
void
segmentCase(u64 idx, int side)
{
  LD const eps = sizeof(T) == 4 ? 1e-4L : 1e-7L;
  LD const tol = sizeof(T) == 4 ? 2e-3L : 1e-8L;
  mc::Dec q(idx);
  Curve<D> e;
  static LD const scales[] = {1, 20};
  LD const scale = scales[q.geti(2)];
  for (int k = 0; k < D; ++k) {
    e.a.c[k] = scale * (k < 2 ? q.geti(side) : 0);
    e.b.c[k] = scale * (k < 2 ? q.geti(side) : q.geti(2));
  }
  if (D > 2) {
    e.a.c[2] = scale * q.geti(2);
  }
  LD const al = kalong[q.geti(9)];
  int const kc = q.geti(nbulge);
  V<D> const d = e.b - e.a;
  LD const len = norm(d);
  if (len == 0) {
    return;
  }
  // unit vector across the chord
  V<D> n;
  if (D == 2 || std::abs(d.c[0]) + std::abs(d.c[1]) > 0) {
    n.c[0] = -d.c[1];
    n.c[1] = d.c[0];
  } else {
    n.c[0] = 1;
  }
  n = (1 / norm(n)) * n;
  // small bulges are absolute multiples of the threshold, visible ones relative to the chord
  LD const across = kc == 0 ? 0 : (kc < 8 ? kacross[kc] * eps : kacross[kc] * len);
  bool const nearly = std::abs(across) < 1.5L * eps;
  if (nearly && std::abs(al) >= 0.249L) {
    return; // not a valid straight segment
  }
  e.m = LD(0.5) * (e.a + e.b) + al * d + across * n;
  um2::QuadraticSegment<D, T> const s(pt<D, T>(e.a), pt<D, T>(e.b), pt<D, T>(e.m));
  e.m = back<D, T>(s[2]);
  // the tangent must not (nearly) vanish: a cusp is not a valid segment
  {
    LD least = 1e30L;
    for (int i = 0; i <= 200; ++i) {
      least = std::min(least, norm(e.d(LD(i) / 200)));
    }
    if (least < 1e-2L * len) {
      return;
    }
  }
  std::string const w = mc::fmt("%dD scale %Lg (%Lg,%Lg)-(%Lg,%Lg) mid along %Lg across %Lg", D, scale, e.a.c[0], e.a.c[1], e.b.c[0], e.b.c[1],
                                al, across);
  char const * const c = w.c_str();
  LD const size = len * (1 + std::abs(al) + std::abs(across / len)) + 3 * scale;
  // vertices, evaluation, tangent, coefficients
  auto const poly = s.getPolyCoeffs();
  for (int i = 0; i <= 8; ++i) {
    LD const t = LD(i) / 8;
    auto const p = back<D, T>(s(static_cast<T>(t)));
    auto const j = back<D, T>(s.jacobian(static_cast<T>(t)));
    auto const pp = poly[0] + static_cast<T>(t) * poly[1] + static_cast<T>(t * t) * poly[2];
    MC_CHECK(norm(p - e.at(t)) < tol * size, "evaluate", "%s at %Lg", c, t);
    MC_CHECK(norm(j - e.d(t)) < tol * size * 4, "tangent", "%s at %Lg", c, t);
    MC_CHECK(norm(back<D, T>(pp) - e.at(t)) < tol * size, "coefficients", "%s at %Lg", c, t);
  }
  MC_CHECK(norm(back<D, T>(s(T(0))) - e.a) == 0 && norm(back<D, T>(s(T(1))) - e.b) == 0, "end-points", "%s", c);
  // straightness (leave a factor of two around the threshold)
  bool const st = um2::isStraight(s);
  if (std::abs(across) <= eps / 2 && std::abs(al) < 0.249L) {
    MC_CHECK(st, "straight", "%s", c);
  }
  if (std::abs(across) >= 1.9L * eps) {
    MC_CHECK(!st, "curved", "%s", c);
  }
  // length
  LD const lref = lengthRec(e, 0, 1, 1e30L, 0);
  LD const lgot = s.length();
  MC_CHECK(std::abs(lgot - lref) <= tol * size, "length", "%s: %.12Lg expected %.12Lg", c, lgot, lref);
  // bounding box
  auto const box = s.boundingBox();
  for (int k = 0; k < D; ++k) {
    LD lo = std::min(e.a.c[k], e.b.c[k]);
    LD hi = std::max(e.a.c[k], e.b.c[k]);
    LD const c2 = e.c2().c[k];
    if (c2 != 0) {
      LD const t = -e.c1().c[k] / (2 * c2);
      if (t > 0 && t < 1) {
        lo = std::min(lo, e.at(t).c[k]);
        hi = std::max(hi, e.at(t).c[k]);
      }
    }
    MC_CHECK(std::abs(box.minima(k) - lo) < tol * size && std::abs(box.maxima(k) - hi) < tol * size, "bounding-box", "%s axis %d", c, k);
  }
  // enclosed area and centroid
  if constexpr (D == 2) {
    ref::Edge const f = {{e.a.c[0], e.a.c[1]}, {e.b.c[0], e.b.c[1]}, {e.m.c[0], e.m.c[1]}};
    LD area = 0;
    ref::P first;
    // relative to the first point to limit cancellation
    ref::Edge const g = {{0, 0}, f.b - f.a, f.m - f.a};
    ref::moments(g, area, first);
    ref::moments(ref::Edge::line(g.b, g.a), area, first);
    LD const got = um2::enclosedArea(s);
    MC_CHECK(std::abs(got - area) <= tol * size * size, "enclosed-area", "%s: %.12Lg expected %.12Lg", c, got, area);
    if (std::abs(across) > 0.005L * len) {
      auto const cen = um2::enclosedCentroid(s);
      LD const ex = f.a.x + first.x / area;
      LD const ey = f.a.y + first.y / area;
      MC_CHECK(std::abs(cen[0] - ex) < tol * size * 10 && std::abs(cen[1] - ey) < tol * size * 10, "enclosed-centroid",
               "%s: (%.9g,%.9g) expected (%.9Lg,%.9Lg)", c, double(cen[0]), double(cen[1]), ex, ey);
    }
    auto const rot = s.getRotation();
    auto const r = rot * (s[1] - s[0]);
    MC_CHECK(std::abs(r[0] - len) < tol * size && std::abs(r[1]) < tol * size, "rotation", "%s", c);
  }
  um2::LineSegment<D, T> const line(s[0], s[1]);
  MC_CHECK(std::abs(line.length() - len) < tol * size, "line-length", "%s", c);
  auto const lbox = line.boundingBox();
  for (int k = 0; k < D; ++k) {
    MC_CHECK(lbox.minima(k) == static_cast<T>(std::min(e.a.c[k], e.b.c[k])) && lbox.maxima(k) == static_cast<T>(std::max(e.a.c[k], e.b.c[k])),
             "line-box", "%s", c);
  }
  // closest points
  int const np = side + 2;
  for (u64 i = 0; i < mc::ipow(u64(np), 2) * (D == 3 ? 2 : 1); ++i) {
    mc::Dec r(i);
    V<D> p;
    p.c[0] = scale * (r.geti(np) - 1 + 0.25L);
    p.c[1] = scale * (r.geti(np) - 1 + 0.125L);
    if (D == 3) {
      p.c[D - 1] = scale * r.geti(2) * 0.75L;
    }
    LD const best = closest(e, p);
    LD const t = s.pointClosestTo(pt<D, T>(p));
    MC_CHECK(t >= 0 && t <= 1, "closest-range", "%s point (%Lg,%Lg): %Lg", c, p.c[0], p.c[1], t);
    LD const got = norm(e.at(t) - p);
    LD const dist = s.distanceTo(pt<D, T>(p));
    LD const sq = s.squaredDistanceTo(pt<D, T>(p));
    // a parameter within the straightness threshold of the best one is good enough
    LD const slack = tol * size + 3 * eps;
    MC_CHECK(got <= best + slack, "closest", "%s point (%Lg,%Lg): parameter %.12Lg at %.12Lg, best %.12Lg", c, p.c[0], p.c[1], t, got, best);
    MC_CHECK(std::abs(dist - best) <= slack, "distance", "%s point (%Lg,%Lg): %.12Lg expected %.12Lg", c, p.c[0], p.c[1], dist, best);
    MC_CHECK(std::abs(std::sqrt(sq) - dist) <= tol * size, "squared-distance", "%s", c);
    // the chord itself
    Curve<D> const chord = {e.a, e.b, LD(0.5) * (e.a + e.b)};
    LD const lbest = closest(chord, p);
    LD const lt = line.pointClosestTo(pt<D, T>(p));
    MC_CHECK(lt >= 0 && lt <= 1 && norm(chord.at(lt) - p) <= lbest + tol * size && std::abs(line.distanceTo(pt<D, T>(p)) - lbest) <= tol * size,
             "line-closest", "%s point (%Lg,%Lg)", c, p.c[0], p.c[1]);
    mc::transition(4);
  }
  mc::transition(20);
  mc::state(mc::hashStr(w));
  mc::trace();
  if (idx > 50) {
    mc::sample(w);
  }
}

void
setup()
{
  int const s = static_cast<int>(mc::pick(3, 4));
  mc::space("plane", 2 * mc::ipow(u64(s), 4) * 9 * nbulge, [=](u64 i) { segmentCase<2, double>(i, s); });
  mc::space("space", 2 * mc::ipow(u64(s - 1), 4) * 4 * 9 * nbulge, [=](u64 i) { segmentCase<3, double>(i, s - 1); });
  mc::space("plane-float", 2 * mc::ipow(3, 4) * 9 * nbulge, [=](u64 i) { segmentCase<2, float>(i, 3); });
}

} // namespace

MC_MAIN(setup)
