// C10: ray intersections with segments, curved segments, polygons and boxes.
#include "geom.hpp"
#include "mc.hpp"

#include <array>

#include <um2/geometry/quadratic_quadrilateral.hpp>
#include <um2/geometry/quadratic_triangle.hpp>

namespace
{
using mc::u64;
using ref::Edge;
using ref::LD;
using ref::P;
using ref::crossings;

template <class T>
um2::Point2<T>
pt(P p)
{
  um2::Point2<T> r;
  r[0] = static_cast<T>(p.x);
  r[1] = static_cast<T>(p.y);
  return r;
}

// Directions: multiples of pi/8 plus a few generic ones and both signs of nearly axis-parallel ones
std::vector<P>
directions(int n)
{
  std::vector<P> r;
  LD const pi = std::acos(LD(-1));
  for (int i = 0; i < n; ++i) {
    LD const a = 2 * pi * i / n;
    P d = {std::cos(a), std::sin(a)};
    if (std::abs(d.x) < 1e-15L) {
      d.x = 0;
    }
    if (std::abs(d.y) < 1e-15L) {
      d.y = 0;
    }
    r.push_back(d);
  }
  for (LD a : {0.1L, 1.0L, 2.2L, 3.3L, 4.4L, 5.9L, 1e-4L, pi / 2 - 1e-4L}) {
    r.push_back({std::cos(a), std::sin(a)});
  }
  return r;
}

std::string
list(std::vector<LD> const & v)
{
  std::string s = "{";
  for (LD x : v) {
    s += mc::fmt(" %.10Lg", x);
  }
  return s + " }";
}

template <class Shape, class T>
void
compare(Shape const & shape, std::vector<Edge> const & es, bool straight, int cap, P o0, P d0, std::string const & w)
{
  um2::Ray2<T> const ray(pt<T>(o0), pt<T>(d0));
  P const o = {LD(static_cast<T>(o0.x)), LD(static_cast<T>(o0.y))};
  P const d = {LD(static_cast<T>(d0.x)), LD(static_cast<T>(d0.y))};
  LD const margin = sizeof(T) == 4 ? 1e-3L : 1e-6L;
  LD const tol = sizeof(T) == 4 ? 1e-3L : 1e-8L;
  std::vector<LD> want;
  for (auto const & e : es) {
    if (!crossings(e, straight, o, d, margin, want)) {
      return;
    }
  }
  T buf[20];
  for (T & x : buf) {
    x = T(-777);
  }
  Int const n = shape.intersect(ray, buf);
  std::vector<LD> got;
  for (Int i = 0; i < n && i < 20; ++i) {
    got.push_back(buf[i]);
  }
  bool tail = true;
  for (int i = cap; i < 20; ++i) {
    tail = tail && buf[i] == T(-777);
  }
  MC_CHECK(n >= 0 && n <= cap && tail, "ray-buffer", "%s ray (%Lg,%Lg)+(%.8Lg,%.8Lg): %d", w.c_str(), o.x, o.y, d.x, d.y, int(n));
  if (es.size() == 1) {
    bool sorted = std::is_sorted(got.begin(), got.end());
    MC_CHECK(sorted, "ray-sorted", "%s ray (%Lg,%Lg)+(%.8Lg,%.8Lg): %s", w.c_str(), o.x, o.y, d.x, d.y, list(got).c_str());
  }
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  bool same = got.size() == want.size();
  for (size_t i = 0; same && i < got.size(); ++i) {
    same = std::abs(got[i] - want[i]) <= tol * (1 + std::abs(want[i]));
  }
  MC_CHECK(same, "ray-crossings", "%s ray (%Lg,%Lg)+(%.8Lg,%.8Lg): %s expected %s", w.c_str(), o.x, o.y, d.x, d.y, list(got).c_str(),
           list(want).c_str());
  mc::transition();
  mc::state(mc::hash(mc::hashStr(w), u64(want.size())));
}

template <class F>
void
allRays(int side, LD step, std::vector<P> const & dirs, F const & f)
{
  for (int iy = -1; iy <= side; ++iy) {
    for (int ix = -1; ix <= side; ++ix) {
      P const o = {step * ix + 0.1875L, step * iy + 0.40625L};
      for (auto const & d : dirs) {
        f(o, d);
      }
    }
  }
}

template <class T>
void
lineCase(u64 idx, int side, int nd)
{
  mc::Dec q(idx);
  P const a = {LD(q.geti(side)), LD(q.geti(side))};
  P const b = {LD(q.geti(side)), LD(q.geti(side))};
  if (norm(b - a) == 0) {
    return;
  }
  std::string const w = mc::fmt("line (%Lg,%Lg)(%Lg,%Lg)", a.x, a.y, b.x, b.y);
  um2::LineSegment2<T> const l(pt<T>(a), pt<T>(b));
  auto const dirs = directions(nd);
  allRays(side, 1, dirs, [&](P o, P d) { compare<um2::LineSegment2<T>, T>(l, {Edge::line(a, b)}, true, 1, o, d, w); });
  // from lattice points too: exact touching is skipped by the margin
  allRays(side, 1, dirs, [&](P o, P d) {
    compare<um2::LineSegment2<T>, T>(l, {Edge::line(a, b)}, true, 1, {o.x - 0.1875L, o.y - 0.40625L}, d, w);
  });
  mc::trace();
}

// Rays along the axes on whole coordinates are computed exactly: the ends belong to the segment
template <class T>
void
endCase(u64 idx, int side)
{
  mc::Dec q(idx);
  int const c[4] = {q.geti(side), q.geti(side), q.geti(side), q.geti(side)};
  int const dx = c[2] - c[0];
  int const dy = c[3] - c[1];
  if (dx == 0 && dy == 0) {
    return;
  }
  auto const at2 = [](int x, int y) { return um2::Point2<T>(static_cast<T>(x), static_cast<T>(y)); };
  um2::LineSegment2<T> const l(at2(c[0], c[1]), at2(c[2], c[3]));
  for (int axis = 0; axis < 2; ++axis) {
    if ((axis == 0 ? dy : dx) == 0) {
      continue; // parallel
    }
    for (int sign = -1; sign <= 1; sign += 2) {
      for (int y = -1; y <= side; ++y) {
        for (int x = -1; x <= side; ++x) {
          int const at = axis == 0 ? y : x;
          int const lo = std::min(c[1 - axis], c[3 - axis]);
          int const hi = std::max(c[1 - axis], c[3 - axis]);
          // twice the denominator keeps everything whole: distance = num / den
          int const den = axis == 0 ? dy : dx;
          int const num = sign * (c[axis] * den + (at - c[1 - axis]) * (axis == 0 ? dx : dy) - (axis == 0 ? x : y) * den) * (den < 0 ? -1 : 1);
          bool const hit = lo <= at && at <= hi && num >= 0;
          um2::Ray2<T> const ray(at2(x, y), at2(axis == 0 ? sign : 0, axis == 1 ? sign : 0));
          T buf[2] = {T(-77), T(-77)};
          Int const n = l.intersect(ray, buf);
          char const * const f = "segment (%d,%d)(%d,%d), ray from (%d,%d) along %c%c: %d crossings, distance %g, expected %d at %g";
          double const want = double(num) / std::abs(den);
          bool const end = at == lo || at == hi;
          // away from the ends the rounding of the position along the segment does not matter
          MC_CHECK(n == (hit ? 1 : 0), end ? "segment-end" : "segment-axis", f, c[0], c[1], c[2], c[3], x, y, sign < 0 ? '-' : '+', axis == 0 ? 'x' : 'y',
                   int(n), double(buf[0]), int(hit), want);
          if (hit && n == 1) {
            MC_CHECK(std::abs(double(buf[0]) - want) < 1e-5, "segment-distance", f, c[0], c[1], c[2], c[3], x, y, sign < 0 ? '-' : '+',
                     axis == 0 ? 'x' : 'y', int(n), double(buf[0]), int(hit), want);
          }
          mc::transition();
        }
      }
    }
  }
  mc::state(mc::hash(idx, u64(side)));
  mc::trace();
}

LD const kalong[] = {0, 0.1L, -0.125L, 0.25L, -0.3L};
LD const kacross[] = {0, 1e-3L, -1e-3L, 0.125L, -0.125L, 0.5L, -1};

template <class T>
P
midOf(P a, P b, LD al, LD ac)
{
  P const d = b - a;
  P const m = LD(0.5) * (a + b) + al * d + ac * P{-d.y, d.x};
  return {LD(static_cast<T>(m.x)), LD(static_cast<T>(m.y))};
}

template <class T>
void
curveCase(u64 idx, int side, int nd)
{
  mc::Dec q(idx);
  P const a = {LD(q.geti(side)), LD(q.geti(side))};
  P const b = {LD(q.geti(side)), LD(q.geti(side))};
  int const ka = q.geti(5);
  int const kc = q.geti(7);
  if (norm(b - a) == 0 || (kc == 0 && std::abs(kalong[ka]) >= 0.25L)) {
    return;
  }
  P const m = midOf<T>(a, b, kalong[ka], kacross[kc]);
  std::string const w = mc::fmt("curve (%Lg,%Lg)(%Lg,%Lg)(%.9Lg,%.9Lg)", a.x, a.y, b.x, b.y, m.x, m.y);
  um2::QuadraticSegment2<T> const g(pt<T>(a), pt<T>(b), pt<T>(m));
  auto const dirs = directions(nd);
  allRays(side, 1, dirs, [&](P o, P d) { compare<um2::QuadraticSegment2<T>, T>(g, {Edge{a, b, m}}, false, 2, o, d, w); });
  mc::trace();
  if (idx > 100) {
    mc::sample(w);
  }
}

// Polygons: N corners on a lattice in any order that makes a non-degenerate polygon
template <int N, class T>
void
polyCase(u64 idx, int side, int nd)
{
  mc::Dec q(idx);
  P v[N];
  for (auto & p : v) {
    int const k = q.geti(side * side);
    p = {LD(k % side), LD(k / side)};
  }
  for (int i = 0; i < N; ++i) {
    if (cross(v[(i + 1) % N] - v[i], v[(i + 2) % N] - v[i]) <= 0) {
      return;
    }
  }
  um2::Polytope<2, 1, N, 2, T> p;
  std::vector<Edge> es;
  std::string w = "polygon ";
  for (int i = 0; i < N; ++i) {
    p[i] = pt<T>(v[i]);
    es.push_back(Edge::line(v[i], v[(i + 1) % N]));
    w += mc::fmt("(%Lg,%Lg)", v[i].x, v[i].y);
  }
  auto const dirs = directions(nd);
  allRays(side, 1, dirs, [&](P o, P d) { compare<um2::Polytope<2, 1, N, 2, T>, T>(p, es, true, N, o, d, w); });
  mc::trace();
}

template <int N, class T>
void
curvedPolyCase(u64 idx, int side, int nd, int kinds)
{
  constexpr int c = N / 2;
  static LD const al[] = {0, 0, 0.05L, 0};
  static LD const ac[] = {0, 0.125L, -0.1L, -0.001L};
  mc::Dec q(idx);
  P v[N];
  for (int i = 0; i < c; ++i) {
    int const k = q.geti(side * side);
    v[i] = {LD(k % side), LD(k / side)};
  }
  for (int i = 0; i < c; ++i) {
    if (cross(v[(i + 1) % c] - v[i], v[(i + 2) % c] - v[i]) <= 0) {
      return;
    }
  }
  std::vector<Edge> es;
  um2::Polytope<2, 2, N, 2, T> p;
  for (int i = 0; i < c; ++i) {
    int const k = q.geti(kinds);
    v[c + i] = midOf<T>(v[i], v[(i + 1) % c], al[k], ac[k]);
    es.push_back({v[i], v[(i + 1) % c], v[c + i]});
  }
  std::string w = "polygon ";
  for (int i = 0; i < N; ++i) {
    p[i] = pt<T>(v[i]);
    w += mc::fmt("(%.9Lg,%.9Lg)", v[i].x, v[i].y);
  }
  auto const dirs = directions(nd);
  allRays(side, 1, dirs, [&](P o, P d) { compare<um2::Polytope<2, 2, N, 2, T>, T>(p, es, false, N, o, d, w); });
  mc::trace();
}

// Boxes by clipping in extended precision
template <int D, class T>
void
boxCase(u64 idx, int n)
{
  mc::Dec q(idx);
  LD lo[D];
  LD hi[D];
  um2::Point<D, T> l;
  um2::Point<D, T> h;
  for (int k = 0; k < D; ++k) {
    int const a = q.geti(n);
    int const b = q.geti(n);
    if (a >= b) {
      return;
    }
    lo[k] = a;
    hi[k] = b;
    l[k] = static_cast<T>(a);
    h[k] = static_cast<T>(b);
  }
  um2::AxisAlignedBox<D, T> const box(l, h);
  std::vector<std::array<LD, D>> dirs;
  int const m = D == 2 ? 5 : 3; // components from {-m/2..m/2} excluding zero, plus axis-parallel ones
  for (u64 i = 0; i < mc::ipow(u64(m), D); ++i) {
    mc::Dec r(i);
    std::array<LD, D> d;
    LD s = 0;
    for (int k = 0; k < D; ++k) {
      d[size_t(k)] = r.geti(m) - m / 2;
      if (D == 3) {
        d[size_t(k)] *= 1 + LD(k) / 3;
      }
      s += d[size_t(k)] * d[size_t(k)];
    }
    if (s == 0) {
      continue;
    }
    for (int k = 0; k < D; ++k) {
      d[size_t(k)] = static_cast<T>(d[size_t(k)] / std::sqrt(s));
    }
    dirs.push_back(d);
  }
  LD const eps = sizeof(T) == 4 ? 1e-4L : 1e-9L;
  // Origins between the planes of the box faces, then on them
  u64 const origins = mc::ipow(u64(n + 2), D);
  for (u64 i = 0; i < 2 * origins; ++i) {
    mc::Dec r(i);
    um2::Point<D, T> o;
    LD ol[D];
    static LD const off[] = {0.1875L, 0.40625L, 0.3125L};
    for (int k = 0; k < D; ++k) {
      ol[k] = r.geti(n + 2) - 1 + (i < origins ? off[k] : 0);
      o[k] = static_cast<T>(ol[k]);
    }
    for (auto const & d : dirs) {
      um2::Point<D, T> dd;
      LD t0 = 0;
      LD t1 = 1e30L;
      bool miss = false;
      bool degenerate = false;
      for (int k = 0; k < D; ++k) {
        LD const c = d[size_t(k)];
        dd[k] = static_cast<T>(c);
        if (c == 0) {
          miss = miss || ol[k] < lo[k] || ol[k] > hi[k];
          continue;
        }
        LD a = (lo[k] - ol[k]) / c;
        LD b = (hi[k] - ol[k]) / c;
        if (a > b) {
          std::swap(a, b);
        }
        t0 = std::max(t0, a);
        t1 = std::min(t1, b);
      }
      degenerate = std::abs(t1 - t0) < eps;
      if (degenerate && !miss) {
        continue; // touches an edge or corner
      }
      miss = miss || t1 < t0;
      um2::Ray<D, T> const ray(o, dd);
      um2::Vec<D, T> inv;
      for (int k = 0; k < D; ++k) {
        inv[k] = T(1) / dd[k];
      }
      auto const g = box.intersect(ray);
      auto const g2 = box.intersect(ray, inv);
      std::string const w = mc::fmt("box case %llu origin %llu dir (%Lg,%Lg)", (unsigned long long)idx, (unsigned long long)i, d[0], d[1]);
      LD const tol = sizeof(T) == 4 ? 1e-4L : 1e-10L;
      if (miss) {
        MC_CHECK(g[0] == T(-1) && g2[0] == T(-1), "box-miss", "%s: %g %g", w.c_str(), double(g[0]), double(g[1]));
      } else {
        MC_CHECK(std::abs(g[0] - t0) < tol * (1 + t0) && std::abs(g[1] - t1) < tol * (1 + t1), "box-hit", "%s: %g %g expected %Lg %Lg",
                 w.c_str(), double(g[0]), double(g[1]), t0, t1);
        MC_CHECK(std::abs(g2[0] - t0) < tol * (1 + t0) && std::abs(g2[1] - t1) < tol * (1 + t1), "box-hit-inverse",
                 "%s: %g %g expected %Lg %Lg", w.c_str(), double(g2[0]), double(g2[1]), t0, t1);
      }
      mc::transition(2);
    }
  }
  mc::state(idx);
  mc::trace();
}

// Pairs of curved segments that cross transversally or stay clear of each other
template <class T>
void
pairCase(u64 idx)
{
  mc::Dec q(idx);
  P v[4];
  for (auto & p : v) {
    p = {LD(q.geti(3)), LD(q.geti(3))};
  }
  int const k0 = q.geti(5);
  int const k1 = q.geti(5);
  static LD const ac[] = {0, 0.125L, -0.125L, 0.3L, -0.3L};
  if (norm(v[1] - v[0]) == 0 || norm(v[3] - v[2]) == 0) {
    return;
  }
  Edge const e = {v[0], v[1], midOf<T>(v[0], v[1], 0.03L, ac[k0])};
  Edge const f = {v[2], v[3], midOf<T>(v[2], v[3], 0, ac[k1])};
  // reference by fine polyline crossing
  int const m = 60;
  std::vector<P> hits;
  LD mind = 1e30L;
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < m; ++j) {
      P const a0 = e.at(LD(i) / m);
      P const a1 = e.at(LD(i + 1) / m);
      P const b0 = f.at(LD(j) / m);
      P const b1 = f.at(LD(j + 1) / m);
      mind = std::min(mind, norm(a0 - b0));
      LD const c1 = cross(a1 - a0, b0 - a0);
      LD const c2 = cross(a1 - a0, b1 - a0);
      LD const c3 = cross(b1 - b0, a0 - b0);
      LD const c4 = cross(b1 - b0, a1 - b0);
      if (c1 * c2 < 0 && c3 * c4 < 0) {
        LD const sn = std::abs(cross(a1 - a0, b1 - b0)) / norm(a1 - a0) / norm(b1 - b0);
        if (sn < 0.2L || i < 3 || j < 3 || i > m - 4 || j > m - 4) {
          return;
        }
        hits.push_back(a0);
      }
    }
  }
  for (P x : {e.a, e.b}) {
    if (ref::distance(f, x) < 0.1L) {
      return;
    }
  }
  for (P x : {f.a, f.b}) {
    if (ref::distance(e, x) < 0.1L) {
      return;
    }
  }
  if (hits.empty() && mind < 0.1L) {
    return;
  }
  um2::QuadraticSegment2<T> const g(pt<T>(e.a), pt<T>(e.b), pt<T>(e.m));
  um2::QuadraticSegment2<T> const h(pt<T>(f.a), pt<T>(f.b), pt<T>(f.m));
  um2::Point2<T> buf[64];
  Int const n = g.intersect(h, buf);
  std::string const w = mc::fmt("(%Lg,%Lg)(%Lg,%Lg)(%Lg,%Lg) x (%Lg,%Lg)(%Lg,%Lg)(%Lg,%Lg)", e.a.x, e.a.y, e.b.x, e.b.y, e.m.x, e.m.y, f.a.x,
                                f.a.y, f.b.x, f.b.y, f.m.x, f.m.y);
  MC_CHECK(n == Int(hits.size()), "pair-count", "%s: %d expected %d", w.c_str(), int(n), int(hits.size()));
  for (Int i = 0; i < n && i < 64; ++i) {
    P const x = {LD(buf[i][0]), LD(buf[i][1])};
    LD const off = std::max(ref::distance(e, x), ref::distance(f, x));
    MC_CHECK(off < 1e-4L, "pair-point", "%s: (%Lg,%Lg) is %Lg away", w.c_str(), x.x, x.y, off);
  }
  MC_CHECK(g.intersects(h) == !hits.empty(), "pair-intersects", "%s", w.c_str());
  mc::state(mc::hash(mc::hashStr(w), u64(hits.size())));
  mc::transition(2 + u64(n));
  mc::trace();
}

void
setup()
{
  int const s = static_cast<int>(mc::pick(3, 4));
  int const nd = static_cast<int>(mc::pick(16, 32));
  mc::space("lines", mc::ipow(u64(s + 1), 4), [=](u64 i) { lineCase<double>(i, s + 1, nd); });
  mc::space("lines-float", mc::ipow(3, 4), [=](u64 i) { lineCase<float>(i, 3, 8); });
  mc::space("line-ends", mc::ipow(6, 4), [=](u64 i) { endCase<double>(i, 6); });
  mc::space("line-ends-float", mc::ipow(6, 4), [=](u64 i) { endCase<float>(i, 6); });
  mc::space("curves", mc::ipow(u64(s), 4) * 35, [=](u64 i) { curveCase<double>(i, s, nd); });
  mc::space("curves-float", mc::ipow(3, 4) * 35, [=](u64 i) { curveCase<float>(i, 3, 8); });
  mc::space("triangles", mc::ipow(u64((s + 1) * (s + 1)), 3), [=](u64 i) { polyCase<3, double>(i, s + 1, nd); });
  mc::space("quads", mc::ipow(u64(s * s), 4), [=](u64 i) { polyCase<4, double>(i, s, nd); });
  int const k = static_cast<int>(mc::pick(3, 4));
  mc::space("quadratic-triangles", mc::ipow(9, 3) * mc::ipow(u64(k), 3), [=](u64 i) { curvedPolyCase<6, double>(i, 3, nd, k); });
  mc::space("quadratic-quads", mc::ipow(9, 4) * mc::ipow(u64(k), 4), [=](u64 i) { curvedPolyCase<8, double>(i, 3, 8, k); });
  mc::space("boxes-2d", mc::ipow(u64(s + 1), 4), [=](u64 i) { boxCase<2, double>(i, s + 1); });
  mc::space("boxes-3d", mc::ipow(u64(s), 6), [=](u64 i) { boxCase<3, double>(i, s); });
  mc::space("boxes-2d-float", mc::ipow(u64(s), 4), [=](u64 i) { boxCase<2, float>(i, s); });
  mc::space("pairs", mc::ipow(9, 4) * 25, [=](u64 i) { pairCase<double>(i); });
}

} // namespace

MC_MAIN(setup)
