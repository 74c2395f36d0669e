// C09: containment, left-of-edge, orientation and convexity predicates; box set operations.
#include "geom.hpp"
#include "mc.hpp"

#include <um2/geometry/quadratic_quadrilateral.hpp>
#include <um2/geometry/quadratic_triangle.hpp>

namespace
{
using mc::u64;
using ref::Edge;
using ref::LD;
using ref::P;

template <class T>
um2::Point2<T>
pt(P p)
{
  um2::Point2<T> r;
  r[0] = static_cast<T>(p.x);
  r[1] = static_cast<T>(p.y);
  return r;
}

int
turn(P a, P b, P c)
{
  LD const k = cross(b - a, c - a);
  return k > 0 ? 1 : (k < 0 ? -1 : 0);
}

// Linear polygons with integer corners, query points on the lattice of half or third steps: exact
template <int N, class T>
void
linearCase(u64 idx, int side, int sub)
{
  mc::Dec q(idx);
  P v[N];
  for (int i = 0; i < N; ++i) {
    int const k = q.geti(side * side);
    v[i] = {LD(k % side), LD(k / side)};
  }
  std::string w;
  for (auto const & p : v) {
    w += mc::fmt("(%Lg,%Lg)", p.x, p.y);
  }
  char const * const s = w.c_str();
  LD area = 0;
  for (int i = 0; i < N; ++i) {
    area += cross(v[i], v[(i + 1) % N]);
  }
  int neg = 0;
  int zero = 0;
  for (int i = 0; i < N; ++i) {
    int const t = turn(v[i], v[(i + 1) % N], v[(i + 2) % N]);
    neg += t < 0 ? 1 : 0;
    zero += t == 0 ? 1 : 0;
  }
  um2::Polytope<2, 1, N, 2, T> p;
  for (int i = 0; i < N; ++i) {
    p[i] = pt<T>(v[i]);
  }
  if constexpr (N == 3) {
    if (area == 0) {
      return;
    }
    MC_CHECK(p.isCCW() == (area > 0), "ccw", "%s: %d", s, int(p.isCCW()));
    if (area < 0) {
      return;
    }
  } else {
    // simple quadrilaterals without collinear corners: the sign of the area is the orientation
    auto const crossing = [&](int a, int b, int c, int d) {
      return turn(v[a], v[b], v[c]) * turn(v[a], v[b], v[d]) <= 0 && turn(v[c], v[d], v[a]) * turn(v[c], v[d], v[b]) <= 0;
    };
    if (zero != 0 || crossing(0, 1, 2, 3) || crossing(1, 2, 3, 0)) {
      return;
    }
    if (area > 0) {
      MC_CHECK(p.isConvex() == (neg == 0), "convex", "%s: %d", s, int(p.isConvex()));
      MC_CHECK(p.isApproxConvex() == (neg == 0), "approx-convex", "%s: %d", s, int(p.isApproxConvex()));
    }
    if (area < 0) { // concave ones included
      MC_CHECK(!p.isCCW(), "ccw-clockwise", "%s", s);
    }
    if (neg == 0 || neg == N) { // convex in either orientation
      MC_CHECK(p.isCCW() == (area > 0), "ccw", "%s: %d", s, int(p.isCCW()));
    }
    mc::transition(3);
    if (neg != 0) {
      mc::state(mc::hashStr(w));
      return;
    }
  }
  // query points
  int const n = sub * (side + 1);
  for (int iy = -sub; iy <= n; ++iy) {
    for (int ix = -sub; ix <= n; ++ix) {
      // exact integers in units of 1/sub
      bool in = true;
      bool on = false;
      for (int i = 0; i < N; ++i) {
        P const a = LD(sub) * v[i];
        P const b = LD(sub) * v[(i + 1) % N];
        P const x = {LD(ix), LD(iy)};
        int const t = turn(a, b, x);
        // left-of-edge query of the edge's line
        if (t != 0) {
          P const y = {LD(ix) / sub, LD(iy) / sub};
          MC_CHECK(p.getEdge(i).isLeft(pt<T>(y)) == (t > 0), "edge-left", "%s edge %d point (%Lg,%Lg)", s, i, y.x, y.y);
          mc::transition();
        }
        in = in && t > 0;
        if (t == 0) {
          on = true;
        }
      }
      if (on && !in) {
        // on the line of an edge: outside if strictly right of another edge
        bool out = false;
        for (int i = 0; i < N; ++i) {
          out = out || turn(LD(sub) * v[i], LD(sub) * v[(i + 1) % N], {LD(ix), LD(iy)}) < 0;
        }
        if (!out) {
          continue; // on the boundary
        }
      }
      P const y = {LD(ix) / sub, LD(iy) / sub};
      bool const got = p.contains(pt<T>(y));
      MC_CHECK(got == in, "contains", "%s point (%Lg,%Lg): %d expected %d", s, y.x, y.y, int(got), int(in));
      mc::transition();
    }
  }
  mc::state(mc::hashStr(w));
  mc::trace();
  if (idx > 100) {
    mc::sample(w);
  }
}

P
mid(P a, P b, int k)
{
  static LD const along[] = {0, 0, 0, 0.1L, -0.125L, 0, 0};
  static LD const across[] = {0, 0.125L, -0.125L, 0.0625L, -0.0625L, 0.001L, -0.25L};
  P const d = b - a;
  P const n = {-d.y, d.x};
  return LD(0.5) * (a + b) + along[k] * d + across[k] * n;
}

bool
convexCCW(P const * v, int n)
{
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      if (j == i || j == (i + 1) % n) {
        continue;
      }
      if (turn(v[i], v[(i + 1) % n], v[j]) <= 0) {
        return false;
      }
    }
  }
  return true;
}

// The curved edges must form a simple polygon whose interior angles are below 180 degrees
bool
validCurved(std::vector<Edge> const & es)
{
  size_t const n = es.size();
  for (size_t i = 0; i < n; ++i) {
    auto const & e = es[i];
    auto const & f = es[(i + 1) % n];
    P const d0 = e.d(1);
    P const d1 = f.d(0);
    if (cross(d0, d1) <= 0.05L * norm(d0) * norm(d1)) {
      return false;
    }
  }
  // no two edges meet except at shared corners (sampled curves against each other)
  int const m = 24;
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = i + 1; j < n; ++j) {
      for (int a = 0; a < m; ++a) {
        P const p0 = es[i].at(LD(a) / m);
        P const p1 = es[i].at(LD(a + 1) / m);
        for (int b = 0; b < m; ++b) {
          bool const adj1 = j == i + 1 && a == m - 1 && b == 0;
          bool const adj2 = i == 0 && j == n - 1 && a == 0 && b == m - 1;
          if (adj1 || adj2) {
            continue;
          }
          P const q0 = es[j].at(LD(b) / m);
          P const q1 = es[j].at(LD(b + 1) / m);
          if (turn(p0, p1, q0) * turn(p0, p1, q1) <= 0 && turn(q0, q1, p0) * turn(q0, q1, p1) <= 0) {
            return false;
          }
        }
      }
    }
  }
  return true;
}

template <int N, class T>
void
curvedCase(u64 idx, int side, int kinds, int sub)
{
  constexpr int c = N / 2;
  mc::Dec q(idx);
  P v[N];
  for (int i = 0; i < c; ++i) {
    int const k = q.geti(side * side);
    v[i] = {LD(k % side), LD(k / side)};
  }
  int kind[c];
  for (int i = 0; i < c; ++i) {
    kind[i] = q.geti(kinds);
  }
  if (!convexCCW(v, c)) {
    return;
  }
  std::vector<Edge> es;
  for (int i = 0; i < c; ++i) {
    v[c + i] = mid(v[i], v[(i + 1) % c], kind[i]);
    // what the library will actually see
    v[c + i] = {LD(static_cast<T>(v[c + i].x)), LD(static_cast<T>(v[c + i].y))};
    es.push_back({v[i], v[(i + 1) % c], v[c + i]});
  }
  if (!validCurved(es)) {
    return;
  }
  std::string w;
  um2::Polytope<2, 2, N, 2, T> p;
  for (int i = 0; i < N; ++i) {
    p[i] = pt<T>(v[i]);
    w += mc::fmt("(%Lg,%Lg)", v[i].x, v[i].y);
  }
  char const * const s = w.c_str();
  MC_CHECK(p.isCCW(), "ccw-quadratic", "%s", s);
  LD const margin = sizeof(T) == 4 ? 1e-3L : 1e-6L;
  for (int iy = -sub; iy <= sub * side; ++iy) {
    for (int ix = -sub; ix <= sub * side; ++ix) {
      P const x = {LD(static_cast<T>((LD(ix) + 0.03125L) / sub)), LD(static_cast<T>((LD(iy) + 0.046875L) / sub))};
      bool const in = ref::inside(es, x);
      bool const got = p.contains(pt<T>(x));
      if (got != in && ref::distance(es, x) < margin) {
        continue; // on the boundary: either answer
      }
      MC_CHECK(got == in, "contains-quadratic", "%s point (%.9Lg,%.9Lg): %d expected %d", s, x.x, x.y, int(got), int(in));
      mc::transition();
    }
  }
  mc::state(mc::hashStr(w));
  mc::trace();
  if (idx > 100) {
    mc::sample(w);
  }
}

// Left of a curved edge: left of the chord, except that the cap between chord and curve counts for
// the other side
template <class T>
void
segmentLeft(u64 idx, int sub)
{
  mc::Dec q(idx);
  P const a = {LD(q.geti(3)), LD(q.geti(3))};
  P const b = {LD(q.geti(3)), LD(q.geti(3))};
  int const ka = q.geti(7);
  int const kc = q.geti(9);
  static LD const along[] = {0, 0.1L, -0.125L, 0.25L, -0.25L, 0.4L, -0.6L};
  static LD const across[] = {0, 0.001L, -0.001L, 0.0625L, -0.0625L, 0.25L, -0.25L, 1, -1};
  if (norm(b - a) == 0 || (kc == 0 && ka > 2)) {
    return;
  }
  P const d = b - a;
  P const n = {-d.y, d.x};
  P m = LD(0.5) * (a + b) + along[ka] * d + across[kc] * n;
  m = {LD(static_cast<T>(m.x)), LD(static_cast<T>(m.y))};
  Edge const e = {a, b, m};
  Edge const chord = Edge::line(b, a);
  um2::QuadraticSegment2<T> const g(pt<T>(a), pt<T>(b), pt<T>(m));
  std::string const w = mc::fmt("(%Lg,%Lg)(%Lg,%Lg)(%.9Lg,%.9Lg)", a.x, a.y, b.x, b.y, m.x, m.y);
  LD const margin = sizeof(T) == 4 ? 1e-3L : 1e-6L;
  if (std::abs(across[kc]) > 0) {
    MC_CHECK(g.curvesLeft() == (turn(a, m, b) > 0), "curves-left", "%s: %d", w.c_str(), int(g.curvesLeft()));
  }
  for (int iy = -sub; iy <= sub * 3; ++iy) {
    for (int ix = -sub; ix <= sub * 3; ++ix) {
      P const x = {LD(static_cast<T>((LD(ix) + 0.03125L) / sub)), LD(static_cast<T>((LD(iy) + 0.046875L) / sub))};
      bool const left_of_chord = turn(a, b, x) > 0;
      bool const in_cap = kc != 0 && ref::inside({e, chord}, x);
      bool const expect = left_of_chord != in_cap;
      bool const got = g.isLeft(pt<T>(x));
      if (got != expect && (ref::distance(e, x) < margin || std::abs(cross(d, x - a)) / norm(d) < margin)) {
        continue;
      }
      MC_CHECK(got == expect, "curve-left", "%s point (%.9Lg,%.9Lg): %d expected %d", w.c_str(), x.x, x.y, int(got), int(expect));
      mc::transition();
    }
  }
  mc::state(mc::hashStr(w));
  mc::trace();
}

// Boxes as sets of lattice points
template <int D>
void
boxCase(u64 idx, int n)
{
  mc::Dec q(idx);
  int lo[2][D];
  int hi[2][D];
  for (int b = 0; b < 2; ++b) {
    for (int k = 0; k < D; ++k) {
      lo[b][k] = q.geti(n);
      hi[b][k] = q.geti(n);
      if (lo[b][k] > hi[b][k]) {
        return;
      }
    }
  }
  using Box = um2::AxisAlignedBox<D, double>;
  Box box[2];
  for (int b = 0; b < 2; ++b) {
    um2::Point<D, double> l;
    um2::Point<D, double> h;
    for (int k = 0; k < D; ++k) {
      l[k] = lo[b][k];
      h[k] = hi[b][k];
    }
    box[b] = Box(l, h);
    for (int k = 0; k < D; ++k) {
      MC_CHECK(box[b].minima(k) == lo[b][k] && box[b].maxima(k) == hi[b][k] && box[b].minima()[k] == lo[b][k] &&
                   box[b].maxima()[k] == hi[b][k],
               "box-limits", "case %llu", (unsigned long long)idx);
      MC_CHECK(box[b].extents(k) == hi[b][k] - lo[b][k] && box[b].extents()[k] == hi[b][k] - lo[b][k], "box-extents", "case %llu",
               (unsigned long long)idx);
      MC_CHECK(box[b].centroid()[k] == (hi[b][k] + lo[b][k]) / 2.0, "box-centroid", "case %llu", (unsigned long long)idx);
    }
  }
  Box const u = box[0] + box[1];
  Box v = box[0];
  v += box[1];
  Box const e0 = Box::empty() + box[0];
  bool meet = true;
  for (int k = 0; k < D; ++k) {
    int const l = std::min(lo[0][k], lo[1][k]);
    int const h = std::max(hi[0][k], hi[1][k]);
    MC_CHECK(u.minima(k) == l && u.maxima(k) == h && v.minima(k) == l && v.maxima(k) == h, "box-union", "case %llu axis %d",
             (unsigned long long)idx, k);
    MC_CHECK(e0.minima(k) == lo[0][k] && e0.maxima(k) == hi[0][k], "box-empty", "case %llu axis %d", (unsigned long long)idx, k);
    meet = meet && std::max(lo[0][k], lo[1][k]) <= std::min(hi[0][k], hi[1][k]);
  }
  MC_CHECK(box[0].intersects(box[1]) == meet && box[1].intersects(box[0]) == meet, "box-intersects", "case %llu", (unsigned long long)idx);
  bool same = true;
  for (int k = 0; k < D; ++k) {
    same = same && lo[0][k] == lo[1][k] && hi[0][k] == hi[1][k];
  }
  MC_CHECK(box[0].isApprox(box[1]) == same, "box-equal", "case %llu", (unsigned long long)idx);
  // points on half steps
  u64 const np = mc::ipow(u64(2 * n + 1), D);
  um2::Vector<um2::Point<D, double>> const corners = {box[0].minima(), box[1].maxima(), box[1].minima()};
  auto const bb = um2::boundingBox(corners.data(), static_cast<Int>(corners.size()));
  for (int k = 0; k < D; ++k) {
    MC_CHECK(bb.minima(k) == std::min(lo[0][k], lo[1][k]) && bb.maxima(k) == std::max(lo[0][k], hi[1][k]), "box-of-points", "case %llu",
             (unsigned long long)idx);
  }
  for (u64 i = 0; i < np; ++i) {
    mc::Dec r(i);
    um2::Point<D, double> x;
    bool in0 = true;
    for (int k = 0; k < D; ++k) {
      x[k] = (r.geti(2 * n + 1) - 1) / 2.0;
      in0 = in0 && x[k] >= lo[0][k] && x[k] <= hi[0][k];
    }
    MC_CHECK(box[0].contains(x) == in0, "box-contains", "case %llu point %llu", (unsigned long long)idx, (unsigned long long)i);
    Box const g = box[0] + x;
    for (int k = 0; k < D; ++k) {
      MC_CHECK(g.minima(k) == std::min<double>(lo[0][k], x[k]) && g.maxima(k) == std::max<double>(hi[0][k], x[k]), "box-add-point",
               "case %llu point %llu", (unsigned long long)idx, (unsigned long long)i);
    }
  }
  // scaling about the centre
  for (double f : {0.0, 0.5, 1.0, 3.0}) {
    Box t = box[0];
    t.scale(f);
    for (int k = 0; k < D; ++k) {
      double const c = (lo[0][k] + hi[0][k]) / 2.0;
      double const h = (hi[0][k] - lo[0][k]) / 2.0 * f;
      MC_CHECK(std::abs(t.minima(k) - (c - h)) < 1e-12 && std::abs(t.maxima(k) - (c + h)) < 1e-12, "box-scale", "case %llu by %g",
               (unsigned long long)idx, f);
    }
  }
  mc::transition(np + 8);
  mc::state(idx);
  mc::trace();
}

void
setup()
{
  int const t = static_cast<int>(mc::pick(4, 5));
  mc::space("triangles-double", mc::ipow(u64(t * t), 3), [t](u64 i) { linearCase<3, double>(i, t, 2); });
  mc::space("triangles-float", mc::ipow(9, 3), [](u64 i) { linearCase<3, float>(i, 3, 4); });
  mc::space("quads-double", mc::ipow(u64(t * t), 4), [t](u64 i) { linearCase<4, double>(i, t, 2); });
  mc::space("quads-float", mc::ipow(9, 4), [](u64 i) { linearCase<4, float>(i, 3, 4); });
  int const k6 = static_cast<int>(mc::pick(5, 7));
  mc::space("quadratic-triangles", mc::ipow(9, 3) * mc::ipow(u64(k6), 3), [=](u64 i) { curvedCase<6, double>(i, 3, k6, 8); });
  int const k8 = static_cast<int>(mc::pick(4, 6));
  mc::space("quadratic-quads", mc::ipow(9, 4) * mc::ipow(u64(k8), 4), [=](u64 i) { curvedCase<8, double>(i, 3, k8, 4); });
  mc::space("quadratic-triangles-float", mc::ipow(9, 3) * 27, [](u64 i) { curvedCase<6, float>(i, 3, 3, 4); });
  mc::space("segments-double", 81 * 7 * 9, [](u64 i) { segmentLeft<double>(i, 12); });
  mc::space("segments-float", 81 * 7 * 9, [](u64 i) { segmentLeft<float>(i, 4); });
  mc::space("boxes-1d", mc::ipow(6, 4), [](u64 i) { boxCase<1>(i, 6); });
  mc::space("boxes-2d", mc::ipow(4, 8), [](u64 i) { boxCase<2>(i, 4); });
  mc::space("boxes-3d", mc::ipow(3, 12), [](u64 i) { boxCase<3>(i, 3); });
}

} // namespace

MC_MAIN(setup)
