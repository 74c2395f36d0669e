// C08: measures of triangles, quadrilaterals and their quadratic forms over lattice polygons.
#include "geom.hpp"
#include "mc.hpp"

#include <um2/geometry/quadratic_quadrilateral.hpp>
#include <um2/geometry/quadratic_triangle.hpp>

namespace
{
using mc::u64;
using ref::Edge;
using ref::LD;
using ref::P;

template <class T>
constexpr LD tol = 1e-11L;
template <>
constexpr LD tol<float> = 1e-4L;

template <int N>
constexpr bool quadratic = N >= 6;
template <int N>
constexpr int corners = quadratic<N> ? N / 2 : N;

template <int N, class T>
using Poly = um2::Polytope<2, quadratic<N> ? 2 : 1, N, 2, T>;

template <int N>
std::string
show(P const * v)
{
  std::string s;
  for (int i = 0; i < N; ++i) {
    s += mc::fmt("(%Lg,%Lg)", v[i].x, v[i].y);
  }
  return s;
}

template <int N>
std::vector<Edge>
edgesOf(P const * v)
{
  constexpr int c = corners<N>;
  std::vector<Edge> es;
  for (int i = 0; i < c; ++i) {
    if constexpr (quadratic<N>) {
      es.push_back({v[i], v[(i + 1) % c], v[c + i]});
    } else {
      es.push_back(Edge::line(v[i], v[(i + 1) % c]));
    }
  }
  return es;
}

template <int N, class T>
Poly<N, T>
make(P const * v)
{
  Poly<N, T> p;
  for (int i = 0; i < N; ++i) {
    p[i][0] = static_cast<T>(v[i].x);
    p[i][1] = static_cast<T>(v[i].y);
  }
  return p;
}

// Shape functions, written from their nodal definition
template <int N>
P
interp(P const * v, LD r, LD s)
{
  if constexpr (N == 3) {
    return (1 - r - s) * v[0] + r * v[1] + s * v[2];
  } else if constexpr (N == 4) {
    P const lo = (1 - r) * v[0] + r * v[1];
    P const hi = (1 - r) * v[3] + r * v[2];
    return (1 - s) * lo + s * hi;
  } else if constexpr (N == 6) {
    LD const l[3] = {1 - r - s, r, s};
    P p;
    for (int i = 0; i < 3; ++i) {
      p = p + (l[i] * (2 * l[i] - 1)) * v[i] + (4 * l[i] * l[(i + 1) % 3]) * v[3 + i];
    }
    return p;
  } else {
    // blend of opposite curved edges minus the bilinear part
    Edge const e0 = {v[0], v[1], v[4]};
    Edge const e1 = {v[1], v[2], v[5]};
    Edge const e2 = {v[3], v[2], v[6]};
    Edge const e3 = {v[0], v[3], v[7]};
    P const a = (1 - s) * e0.at(r) + s * e2.at(r);
    P const b = (1 - r) * e3.at(s) + r * e1.at(s);
    P const c = (1 - s) * ((1 - r) * v[0] + r * v[1]) + s * ((1 - r) * v[3] + r * v[2]);
    return a + b - c;
  }
}

template <int N, class T>
void
measures(P const * v, bool strict_shape)
{
  constexpr int c = corners<N>;
  auto const es = edgesOf<N>(v);
  LD area = 0;
  P first;
  LD per = 0;
  P lo = v[0];
  P hi = v[0];
  LD big = 1;
  for (auto const & e : es) {
    ref::moments(e, area, first);
    per += ref::length(e);
    ref::extend(e, lo, hi);
    big = std::max({big, std::abs(e.a.x), std::abs(e.a.y), norm(e.b - e.a)});
  }
  std::string const w = show<N>(v);
  char const * const s = w.c_str();
  LD const t = tol<T> * big;
  auto const p = make<N, T>(v);
  // access
  um2::Vec<N, Int> ids;
  um2::Point2<T> pool[N + 3];
  for (int i = 0; i < N; ++i) {
    ids[i] = (i * 5 + 2) % (N + 3) == i ? i : i;
    MC_CHECK(p.vertices()[i] == p[i], "vertex-access", "%s vertex %d", s, i);
  }
  for (int i = 0; i < N; ++i) { // reversed storage
    ids[i] = N + 2 - i;
    pool[N + 2 - i] = p[i];
  }
  Poly<N, T> const byid(ids, pool);
  for (int i = 0; i < N; ++i) {
    MC_CHECK(byid[i] == p[i], "construct-by-index", "%s vertex %d", s, i);
  }
  for (int i = 0; i < c; ++i) {
    auto const e = p.getEdge(i);
    MC_CHECK(e[0] == p[i] && e[1] == p[(i + 1) % c], "edge-ends", "%s edge %d", s, i);
    if constexpr (quadratic<N>) {
      MC_CHECK(e[2] == p[c + i], "edge-middle", "%s edge %d", s, i);
      MC_CHECK(p.linearPolygon()[i] == p[i], "linear-polygon", "%s vertex %d", s, i);
    }
  }
  mc::transition(static_cast<u64>(2 * c));
  // interpolation and its derivative
  LD const grid[] = {0, 0.25L, 0.5L, 1};
  for (LD r : grid) {
    for (LD q : grid) {
      if (c == 3 && r + q > 1) {
        continue;
      }
      auto const x = p(static_cast<T>(r), static_cast<T>(q));
      P const e = interp<N>(v, r, q);
      MC_CHECK(std::abs(x[0] - e.x) <= t && std::abs(x[1] - e.y) <= t, "interpolation", "%s at (%Lg,%Lg): (%g,%g) expected (%Lg,%Lg)", s, r,
               q, double(x[0]), double(x[1]), e.x, e.y);
      auto const j = p.jacobian(static_cast<T>(r), static_cast<T>(q));
      LD const h = 0.25L;
      P const dr = LD(0.5) / h * (interp<N>(v, r + h, q) - interp<N>(v, r - h, q));
      P const ds = LD(0.5) / h * (interp<N>(v, r, q + h) - interp<N>(v, r, q - h));
      MC_CHECK(std::abs(j(0, 0) - dr.x) <= 10 * t && std::abs(j(1, 0) - dr.y) <= 10 * t && std::abs(j(0, 1) - ds.x) <= 10 * t &&
                   std::abs(j(1, 1) - ds.y) <= 10 * t,
               "interpolation-derivative", "%s at (%Lg,%Lg)", s, r, q);
    }
  }
  // edges of the interpolation are the edges of the polygon
  for (int k = 0; k <= 4; ++k) {
    LD const u = LD(k) / 4;
    P const e0 = es[0].at(u);
    auto const x0 = p(static_cast<T>(u), static_cast<T>(0));
    P const e1 = es[1].at(u);
    auto const x1 = c == 3 ? p(static_cast<T>(1 - u), static_cast<T>(u)) : p(static_cast<T>(1), static_cast<T>(u));
    P const el = es[size_t(c - 1)].at(u);
    auto const xl = p(static_cast<T>(0), static_cast<T>(1 - u));
    MC_CHECK(std::abs(x0[0] - e0.x) <= t && std::abs(x0[1] - e0.y) <= t && std::abs(x1[0] - e1.x) <= t && std::abs(x1[1] - e1.y) <= t &&
                 std::abs(xl[0] - el.x) <= t && std::abs(xl[1] - el.y) <= t,
             "interpolated-edge", "%s at %Lg", s, u);
  }
  mc::transition(37);
  // extent
  auto const bb = p.boundingBox();
  MC_CHECK(std::abs(bb.minima(0) - lo.x) <= t && std::abs(bb.minima(1) - lo.y) <= t && std::abs(bb.maxima(0) - hi.x) <= t &&
               std::abs(bb.maxima(1) - hi.y) <= t,
           "bounding-box", "%s: [%g,%g]x[%g,%g] expected [%Lg,%Lg]x[%Lg,%Lg]", s, double(bb.minima(0)), double(bb.maxima(0)),
           double(bb.minima(1)), double(bb.maxima(1)), lo.x, hi.x, lo.y, hi.y);
  auto const per2 = p.perimeter();
  MC_CHECK(std::abs(per2 - per) <= 100 * t, "perimeter", "%s: %.12g expected %.12Lg", s, double(per2), per);
  mc::transition(2);
  mc::state(mc::hashStr(w));
  mc::trace();
  if (!strict_shape || area <= 1e-3L) {
    return;
  }
  LD const a2 = p.area();
  MC_CHECK(std::abs(a2 - area) <= 10 * t * big, "area", "%s: %.12Lg expected %.12Lg", s, a2, area);
  P const cen = (1 / area) * first;
  auto const c2 = p.centroid();
  LD const tc = 10 * t * big * big / area;
  MC_CHECK(std::abs(c2[0] - cen.x) <= tc && std::abs(c2[1] - cen.y) <= tc, "centroid", "%s: (%.12g,%.12g) expected (%.12Lg,%.12Lg)", s,
           double(c2[0]), double(c2[1]), cen.x, cen.y);
  LD const mcl = 3.14159265358979323846264338327950288L * area / per;
  LD const m2 = p.meanChordLength();
  MC_CHECK(std::abs(m2 - mcl) <= 100 * t * big, "mean-chord-length", "%s: %.12Lg expected %.12Lg", s, m2, mcl);
  mc::transition(3);
}

// Reversing the orientation keeps the region and every edge
template <int N, class T>
void
reversal(P const * v)
{
  constexpr int c = corners<N>;
  // a clockwise numbering of the given counter-clockwise polygon
  for (int rot = 0; rot < c; ++rot) {
    P cw[N];
    for (int i = 0; i < c; ++i) {
      cw[i] = v[(rot + c - i) % c];
      if constexpr (quadratic<N>) {
        // edge from corner (rot - i) to (rot - i - 1): the original edge number rot - i - 1
        cw[c + i] = v[c + (rot + 2 * c - i - 1) % c];
      }
    }
    auto p = make<N, T>(cw);
    auto const before = p;
    std::string const w = show<N>(cw);
    p.flip();
    MC_CHECK(p.isCCW(), "flip-orientation", "%s is not counter-clockwise after reversal", w.c_str());
    for (int i = 0; i < c; ++i) {
      auto const e = p.getEdge(i);
      int found = 0;
      for (int j = 0; j < c; ++j) {
        auto const o = before.getEdge(j);
        bool same = e[0] == o[1] && e[1] == o[0];
        if constexpr (quadratic<N>) {
          same = same && e[2] == o[2];
        }
        found += same ? 1 : 0;
      }
      MC_CHECK(found == 1, "flip-edges", "%s: edge %d of the reversed polygon is not an edge of the original", w.c_str(), i);
    }
    auto q = p;
    q.flip();
    for (int i = 0; i < N; ++i) {
      MC_CHECK(q[i] == before[i], "flip-twice", "%s vertex %d", w.c_str(), i);
    }
    mc::transition(2);
  }
}

// clear convexity, allowing collinear corners
bool
convex(P const * v, int n)
{
  for (int i = 0; i < n; ++i) {
    if (cross(v[(i + 1) % n] - v[i], v[(i + 2) % n] - v[(i + 1) % n]) < 0) {
      return false;
    }
    if (norm(v[(i + 1) % n] - v[i]) == 0) {
      return false;
    }
  }
  LD a = 0;
  for (int i = 0; i < n; ++i) {
    a += cross(v[i], v[(i + 1) % n]);
  }
  if (a <= 0) {
    return false;
  }
  // winding once: total turning of one revolution
  LD turn = 0;
  for (int i = 0; i < n; ++i) {
    P const d0 = v[(i + 1) % n] - v[i];
    P const d1 = v[(i + 2) % n] - v[(i + 1) % n];
    turn += std::atan2(cross(d0, d1), dot(d0, d1));
  }
  return std::abs(turn - 6.283185307179586L) < 0.1L;
}

struct Frame {
  LD s;
  P o;
};
Frame const frames[] = {{1, {0, 0}}, {1, {-2, -3}}, {0.37L, {11.25L, -7.5L}}, {8, {-64, 100}}};

template <int N, class T>
void
linearCase(u64 idx, int side)
{
  mc::Dec q(idx);
  P v[N];
  for (int i = 0; i < N; ++i) {
    int const k = q.geti(side * side);
    v[i] = {LD(k % side), LD(k / side)};
  }
  if (!convex(v, N)) {
    return;
  }
  for (auto const & f : frames) {
    P u[N];
    for (int i = 0; i < N; ++i) {
      u[i] = f.s * v[i] + f.o;
    }
    measures<N, T>(u, true);
  }
  reversal<N, T>(v);
  if (idx > 100) {
    mc::sample(show<N>(v));
  }
}

// mid-node displacement k of an edge, as fractions of the edge along and across it
P
mid(P a, P b, int k)
{
  static LD const along[] = {0, 0, 0, 0.1L, -0.125L, 0};
  static LD const across[] = {0, 0.125L, -0.125L, 0.0625L, -0.0625L, 0.001L};
  P const d = b - a;
  P const n = {-d.y, d.x};
  return LD(0.5) * (a + b) + along[k] * d + across[k] * n;
}

template <int N, class T>
void
curvedCase(u64 idx, int side, int kinds)
{
  constexpr int c = N / 2;
  mc::Dec q(idx);
  P v[N];
  for (int i = 0; i < c; ++i) {
    int const k = q.geti(side * side);
    v[i] = {LD(k % side), LD(k / side)};
  }
  int kind[c];
  for (int i = 0; i < c; ++i) {
    kind[i] = q.geti(kinds);
  }
  if (!convex(v, c)) {
    return;
  }
  for (int i = 0; i < c; ++i) {
    v[c + i] = mid(v[i], v[(i + 1) % c], kind[i]);
  }
  auto const & f = frames[idx % 4];
  P u[N];
  for (int i = 0; i < N; ++i) {
    u[i] = f.s * v[i] + f.o;
  }
  measures<N, T>(u, true);
  reversal<N, T>(u);
  if (idx > 100) {
    mc::sample(show<N>(u));
  }
}

// Triangles in space: unsigned area, centroid, perimeter, box
void
spaceTriangle(u64 idx)
{
  mc::Dec q(idx);
  int x[3][3];
  for (auto & p : x) {
    for (int & c : p) {
      c = q.geti(3);
    }
  }
  um2::Triangle3<double> t;
  for (int i = 0; i < 3; ++i) {
    for (int k = 0; k < 3; ++k) {
      t[i][k] = x[i][k];
    }
  }
  int u[3];
  int w[3];
  for (int k = 0; k < 3; ++k) {
    u[k] = x[1][k] - x[0][k];
    w[k] = x[2][k] - x[0][k];
  }
  int const n[3] = {u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]};
  int const n2 = n[0] * n[0] + n[1] * n[1] + n[2] * n[2];
  if (n2 == 0) {
    return;
  }
  MC_CHECK(std::abs(t.area() - std::sqrt(double(n2)) / 2) < 1e-13, "area-3d", "case %llu", (unsigned long long)idx);
  double per = 0;
  for (int i = 0; i < 3; ++i) {
    double d = 0;
    for (int k = 0; k < 3; ++k) {
      double const e = x[i][k] - x[(i + 1) % 3][k];
      d += e * e;
    }
    per += std::sqrt(d);
    auto const e = t.getEdge(i);
    MC_CHECK(e[0] == t[i] && e[1] == t[(i + 1) % 3], "edge-3d", "case %llu edge %d", (unsigned long long)idx, i);
  }
  MC_CHECK(std::abs(t.perimeter() - per) < 1e-12, "perimeter-3d", "case %llu", (unsigned long long)idx);
  auto const bb = t.boundingBox();
  auto const c = t.centroid();
  auto const m = t(0.25, 0.5);
  for (int k = 0; k < 3; ++k) {
    double const lo = std::min({x[0][k], x[1][k], x[2][k]});
    double const hi = std::max({x[0][k], x[1][k], x[2][k]});
    MC_CHECK(bb.minima(k) == lo && bb.maxima(k) == hi, "bounding-box-3d", "case %llu", (unsigned long long)idx);
    MC_CHECK(std::abs(c[k] - (x[0][k] + x[1][k] + x[2][k]) / 3.0) < 1e-13, "centroid-3d", "case %llu", (unsigned long long)idx);
    MC_CHECK(std::abs(m[k] - (0.25 * x[0][k] + 0.25 * x[1][k] + 0.5 * x[2][k])) < 1e-13, "interpolation-3d", "case %llu",
             (unsigned long long)idx);
  }
  mc::transition(8);
  mc::state(idx);
  mc::trace();
}

void
setup()
{
  int const ts = static_cast<int>(mc::pick(5, 7));
  int const qs = static_cast<int>(mc::pick(4, 5));
  mc::space("triangles-double", mc::ipow(u64(ts * ts), 3), [ts](u64 i) { linearCase<3, double>(i, ts); });
  mc::space("triangles-float", mc::ipow(25, 3), [](u64 i) { linearCase<3, float>(i, 5); });
  mc::space("quads-double", mc::ipow(u64(qs * qs), 4), [qs](u64 i) { linearCase<4, double>(i, qs); });
  mc::space("quads-float", mc::ipow(9, 4), [](u64 i) { linearCase<4, float>(i, 3); });
  int const k6 = static_cast<int>(mc::pick(5, 6));
  int const s6 = static_cast<int>(mc::pick(3, 4));
  mc::space("quadratic-triangles-double", mc::ipow(u64(s6 * s6), 3) * mc::ipow(u64(k6), 3),
            [=](u64 i) { curvedCase<6, double>(i, s6, k6); });
  mc::space("quadratic-triangles-float", mc::ipow(9, 3) * 27, [](u64 i) { curvedCase<6, float>(i, 3, 3); });
  int const k8 = static_cast<int>(mc::pick(4, 6));
  mc::space("quadratic-quads-double", mc::ipow(9, 4) * mc::ipow(u64(k8), 4), [=](u64 i) { curvedCase<8, double>(i, 3, k8); });
  mc::space("quadratic-quads-float", mc::ipow(9, 4) * 16, [](u64 i) { curvedCase<8, float>(i, 3, 2); });
  mc::space("triangles-3d", mc::ipow(3, 9), spaceTriangle);
}

} // namespace

MC_MAIN(setup)
