// C43: curved cells that cross themselves: recognition and repair.
#include "geom.hpp"
#include "mc.hpp"

#include <um2/common/logger.hpp>
#include <um2/geometry/quadratic_quadrilateral.hpp>
#include <um2/geometry/quadratic_triangle.hpp>
#include <um2/mesh/face_vertex_mesh.hpp>

#include <algorithm>
#include <array>

namespace
{
using mc::u64;
using ref::Edge;
using ref::LD;
using ref::P;

template <class T>
um2::Point2<T>
pt(P p)
{
  um2::Point2<T> r;
  r[0] = static_cast<T>(p.x);
  r[1] = static_cast<T>(p.y);
  return r;
}

template <class T>
P
back(um2::Point2<T> const & p)
{
  return {LD(p[0]), LD(p[1])};
}

// Do two edges meet anywhere but at a common end?  1: they cross, clearly; 0: they stay clear of each other; -1: neither.
// All margins are relative to the size of the cell.
// shared: bit 0 the end of e is the start of f, bit 1 the end of f is the start of e
int
meeting(Edge const & e, Edge const & f, int shared, LD size)
{
  int const m = 64;
  LD const clear = 0.04L * size;
  LD const away = 0.15L; // parameter distance from the common end
  std::array<P, 65> a;
  std::array<P, 65> b;
  for (int i = 0; i <= m; ++i) {
    a[size_t(i)] = e.at(LD(i) / m);
    b[size_t(i)] = f.at(LD(i) / m);
  }
  // the edges have to leave a common end in clearly different directions
  if ((shared & 1) != 0) {
    P const d = e.d(1);
    P const g = f.d(0);
    LD const s = cross(d, g) / (norm(d) * norm(g) + 1e-30L);
    if (std::abs(s) < 0.08L && dot(d, g) < 0) {
      return -1;
    }
    if (norm(d) < 0.2L * size || norm(g) < 0.2L * size) {
      return -1;
    }
  }
  if ((shared & 2) != 0) {
    P const d = f.d(1);
    P const g = e.d(0);
    LD const s = cross(d, g) / (norm(d) * norm(g) + 1e-30L);
    if (std::abs(s) < 0.08L && dot(d, g) < 0) {
      return -1;
    }
    if (norm(d) < 0.2L * size || norm(g) < 0.2L * size) {
      return -1;
    }
  }
  int found = 0;
  bool doubt = false;
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < m; ++j) {
      LD const t = (i + 0.5L) / m;
      LD const s = (j + 0.5L) / m;
      bool const near1 = (shared & 1) != 0 && 1 - t < away && s < away;
      bool const near2 = (shared & 2) != 0 && 1 - s < away && t < away;
      P const a0 = a[size_t(i)];
      P const a1 = a[size_t(i + 1)];
      P const b0 = b[size_t(j)];
      P const b1 = b[size_t(j + 1)];
      if (near1 || near2) {
        continue;
      }
      LD const c1 = cross(a1 - a0, b0 - a0);
      LD const c2 = cross(a1 - a0, b1 - a0);
      LD const c3 = cross(b1 - b0, a0 - b0);
      LD const c4 = cross(b1 - b0, a1 - b0);
      if (c1 * c2 <= 0 && c3 * c4 <= 0) {
        LD const sn = std::abs(cross(a1 - a0, b1 - b0)) / (norm(a1 - a0) * norm(b1 - b0) + 1e-30L);
        if (sn < 0.06L || t < 0.06L || s < 0.06L || t > 0.94L || s > 0.94L) {
          doubt = true;
        } else {
          ++found;
        }
      }
    }
  }
  if (found > 0) {
    return 1;
  }
  if (doubt) {
    return -1;
  }
  // distance between the parts away from the common end
  for (int i = 0; i <= m; ++i) {
    for (int j = 0; j <= m; ++j) {
      LD const t = LD(i) / m;
      LD const s = LD(j) / m;
      bool const near1 = (shared & 1) != 0 && 1 - t < away && s < away;
      bool const near2 = (shared & 2) != 0 && 1 - s < away && t < away;
      if (!near1 && !near2 && norm(a[size_t(i)] - b[size_t(j)]) < clear) {
        return -1;
      }
    }
  }
  return 0;
}

template <int N>
std::array<Edge, N>
edgesOf(std::array<P, 2 * N> const & v)
{
  std::array<Edge, N> e;
  for (size_t i = 0; i < N; ++i) {
    e[i] = {v[i], v[(i + 1) % N], v[N + i]};
  }
  return e;
}

// 1 the cell crosses itself, 0 it does not, -1 too close to tell
template <int N>
int
crosses(std::array<P, 2 * N> const & v, LD size)
{
  auto const e = edgesOf<N>(v);
  int r = 0;
  for (int i = 0; i < N; ++i) {
    for (int j = i + 1; j < N; ++j) {
      int const shared = (j == i + 1 ? 1 : 0) | (i == 0 && j == N - 1 ? 2 : 0);
      int const m = meeting(e[size_t(i)], e[size_t(j)], shared, size);
      if (m < 0) {
        return -1;
      }
      r = std::max(r, m);
    }
  }
  return r;
}

template <int N>
std::string
name(std::array<P, 2 * N> const & v)
{
  std::string s;
  for (auto const & p : v) {
    s += mc::fmt("(%.4Lg,%.4Lg)", p.x, p.y);
  }
  return s;
}

LD const TRI[4][6] = {{0, 0, 1, 0, 0, 1}, {0, 0, 1, 0.1L, 0.6L, 0.9L}, {0, 0, 1, 0, 0.9L, 0.6L}, {0, 0, 1.2L, -0.2L, 0.3L, 0.5L}};
LD const QUAD[4][8] = {{0, 0, 1, 0, 1, 1, 0, 1}, {0, 0, 1, 0.1L, 0.8L, 0.9L, 0.1L, 0.6L}, {0, 0, 1, 0, 1, 0.4L, 0, 0.4L}, {0, 0, 1, 0, 0, 1, 1, 1}};
LD const ACROSS[7] = {0, 0.2L, -0.2L, 0.45L, -0.45L, 0.7L, -0.7L};

template <int N>
bool
make(u64 idx, std::array<P, 2 * N> & v, LD & size)
{
  mc::Dec d(idx);
  int const shape = d.geti(4);
  int const turn = d.geti(N);
  size = d.geti(2) == 0 ? 1 : 0.1L;
  for (size_t i = 0; i < N; ++i) {
    LD const * const c = N == 3 ? TRI[shape] : QUAD[shape];
    size_t const k = (i + size_t(turn)) % N;
    v[i] = {size * c[2 * k], size * c[2 * k + 1]};
  }
  for (size_t i = 0; i < N; ++i) {
    P const a = v[i];
    P const b = v[(i + 1) % N];
    LD const h = ACROSS[d.geti(N == 3 ? 7 : 5)];
    P const t = b - a;
    v[N + i] = LD(0.5) * (a + b) + h * P{-t.y, t.x};
  }
  // as the library sees it
  for (auto & p : v) {
    p = back(pt<double>(p));
  }
  return true;
}

template <int N, class T>
auto
cell(std::array<P, 2 * N> const & v)
{
  if constexpr (N == 3) {
    um2::QuadraticTriangle2<T> c;
    for (Int i = 0; i < 2 * N; ++i) {
      c[i] = pt<T>(v[size_t(i)]);
    }
    return c;
  } else {
    um2::QuadraticQuadrilateral2<T> c;
    for (Int i = 0; i < 2 * N; ++i) {
      c[i] = pt<T>(v[size_t(i)]);
    }
    return c;
  }
}

template <int N, class T>
void
detect(u64 idx)
{
  std::array<P, 2 * N> v;
  LD size = 1;
  make<N>(idx, v, size);
  int const want = crosses<N>(v, size);
  if (want < 0) {
    return;
  }
  std::string const w = name<N>(v);
  auto const c = cell<N, T>(v);
  bool const got = c.hasSelfIntersection();
  MC_CHECK(got == (want == 1), want == 1 ? "missed" : "false-alarm", "%s", w.c_str());
  mc::state(mc::hash(u64(want), mc::hashStr(w)));
  mc::transition();
  mc::trace();
}

// Thin cells: sectors of rings, and bent strips, from a half to a thousandth of their length
template <class T, int NT>
void
thin(u64 idx)
{
  static LD const THICK[8] = {0.5L, 0.2L, 0.1L, 0.05L, 0.02L, 0.01L, 0.005L, 0.002L};
  mc::Dec d(idx);
  LD const scale = d.geti(2) == 0 ? 1 : 0.3L;
  LD const th = scale * THICK[d.geti(NT)];
  int const turn = d.geti(4);
  int const sectors = d.geti(8);
  int const start = d.geti(12);
  LD const pi = std::acos(LD(-1));
  LD const r0 = scale;
  LD const r1 = scale + th;
  LD const da = 2 * pi / LD(4 + 2 * sectors);
  LD const a0 = 2 * pi * start / 12 + 0.01L;
  auto at = [](LD r, LD a) { return P{r * std::cos(a), r * std::sin(a)}; };
  std::array<P, 4> const c = {at(r0, a0), at(r1, a0), at(r1, a0 + da), at(r0, a0 + da)};
  std::array<P, 4> const m = {at((r0 + r1) / 2, a0), at(r1, a0 + da / 2), at((r0 + r1) / 2, a0 + da), at(r0, a0 + da / 2)};
  std::array<P, 8> v;
  for (size_t i = 0; i < 4; ++i) {
    v[i] = back(pt<T>(c[(i + size_t(turn)) % 4]));
    v[4 + i] = back(pt<T>(m[(i + size_t(turn)) % 4]));
  }
  int const want = crosses<4>(v, th);
  MC_REQUIRE(want < 1, "machinery", "%s", name<4>(v).c_str());
  if (want < 0) {
    return;
  }
  std::string const w = name<4>(v);
  MC_CHECK(!(cell<4, T>(v).hasSelfIntersection()), "false-alarm", "thickness %Lg: %s", th, w.c_str());
  mc::state(mc::hash(mc::hashStr(w), idx));
  mc::transition();
  mc::trace();
}

// One repair: nothing but one mid-edge point moves, and the edges it was for do not cross any more
template <int N>
void
repair(u64 idx)
{
  std::array<P, 2 * N> v;
  LD size = 1;
  make<N>(idx, v, size);
  if (crosses<N>(v, size) != 1) {
    return;
  }
  std::string const w = name<N>(v);
  auto const before = cell<N, double>(v);
  auto c = before;
  if (!c.hasSelfIntersection()) {
    return; // told by the other spaces
  }
  um2::Point2<double> buffer[4 * N];
  Int vid = -1;
  bool const fixed = um2::fixSelfIntersection(c, buffer, vid);
  for (Int i = 0; i < 2 * N; ++i) {
    bool const same = c[i][0] == before[i][0] && c[i][1] == before[i][1];
    MC_CHECK(same || (fixed && i == vid && i >= N), "moved", "%s: point %d moved, said to be %d", w.c_str(), int(i), fixed ? int(vid) : -1);
  }
  if (fixed) {
    MC_REQUIRE(vid >= N && vid < 2 * N, "which", "%s: %d", w.c_str(), int(vid));
    LD const off = norm(back(c[vid]) - back(before[vid]) - back(buffer[0]));
    MC_CHECK(off < 1e-12L, "displacement", "%s: %Lg", w.c_str(), off);
    std::array<P, 2 * N> u = v;
    u[size_t(vid)] = back(c[vid]);
    auto const e = edgesOf<N>(v);
    auto const f = edgesOf<N>(u);
    int const k = int(vid) - N;
    bool cured = false;
    for (int o = 0; o < N; ++o) {
      if (o == k) {
        continue;
      }
      int const i = std::min(o, k);
      int const j = std::max(o, k);
      int const shared = (j == i + 1 ? 1 : 0) | (i == 0 && j == N - 1 ? 2 : 0);
      cured = cured || (meeting(e[size_t(i)], e[size_t(j)], shared, size) == 1 && meeting(f[size_t(i)], f[size_t(j)], shared, size) != 1);
    }
    MC_CHECK(cured, "not-cured", "%s: moved point %d", w.c_str(), int(vid));
  }
  mc::state(mc::hash(u64(fixed), mc::hashStr(w)));
  mc::transition();
  mc::trace();
}

// Meshes of two cells: validation
template <int N>
void
mesh(u64 idx)
{
  using Fvm = um2::FaceVertexMesh<2, 2 * N>;
  constexpr int ne = N == 3 ? 5 : 7;
  constexpr int nc = N == 3 ? 4 : 6;
  static LD const CORNER3[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
  static LD const CORNER4[6][2] = {{0, 0}, {1, 0}, {2, 0}, {2, 1}, {1, 1}, {0, 1}};
  // flat cells: a shared edge may move without leaving the box around the mesh
  static LD const FLAT3[4][2] = {{0, 0}, {0.5L, -0.4L}, {1, 0}, {0.5L, 0.4L}};
  static LD const FLAT4[6][2] = {{0.6L, 0.4L}, {1, 0}, {1.4L, 0.4L}, {1.4L, 0.6L}, {1, 1}, {0.6L, 0.6L}};
  static int const EDGE3[5][2] = {{0, 2}, {0, 1}, {1, 2}, {2, 3}, {3, 0}};
  static int const EDGE4[7][2] = {{1, 4}, {0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 5}, {5, 0}};
  static LD const MENU3[2][5] = {{0, 0.25L, -0.25L, 0.45L, -0.45L}, {0, 0.3L, -0.3L, 0.4L, -0.4L}};
  static LD const MENU4[3] = {0, 0.35L, -0.35L};
  static int const FACE3[2][3] = {{0, 1, 2}, {0, 2, 3}};
  static int const FACE4[2][4] = {{0, 1, 4, 5}, {1, 2, 3, 4}};
  mc::Dec d(idx);
  std::vector<P> v;
  int const shape = d.geti(3);
  LD const skew = shape == 1 ? 0.2L : 0;
  for (int i = 0; i < nc; ++i) {
    LD const * const c = shape == 2 ? (N == 3 ? FLAT3[i] : FLAT4[i]) : (N == 3 ? CORNER3[i] : CORNER4[i]);
    v.push_back({c[0] + skew * c[1], c[1] - 0.5L * skew * c[0]});
  }
  for (int i = 0; i < ne; ++i) {
    int const * const e = N == 3 ? EDGE3[i] : EDGE4[i];
    P const a = v[size_t(e[0])];
    P const b = v[size_t(e[1])];
    P const t = b - a;
    LD const h = N == 3 ? MENU3[shape == 2 ? 1 : 0][d.geti(5)] : MENU4[d.geti(3)];
    v.push_back(LD(0.5) * (a + b) + h * P{-t.y, t.x});
  }
  for (auto & p : v) {
    p = back(pt<double>(p));
  }
  std::array<std::array<int, 2 * N>, 2> conn;
  for (size_t f = 0; f < 2; ++f) {
    for (size_t i = 0; i < N; ++i) {
      int const * const c = N == 3 ? FACE3[f] : FACE4[f];
      int const a = c[i];
      int const b = c[(i + 1) % N];
      conn[f][i] = a;
      for (int k = 0; k < ne; ++k) {
        int const * const e = N == 3 ? EDGE3[k] : EDGE4[k];
        if ((e[0] == a && e[1] == b) || (e[0] == b && e[1] == a)) {
          conn[f][N + i] = nc + k;
        }
      }
    }
  }
  auto look = [&](std::vector<P> const & x) {
    int r = 0;
    for (auto const & c : conn) {
      std::array<P, 2 * N> u;
      for (size_t i = 0; i < 2 * N; ++i) {
        u[i] = x[size_t(c[i])];
      }
      int const k = crosses<N>(u, shape == 2 ? 0.5L : 1);
      if (k < 0 && r != 1) {
        r = -1;
      } else if (k == 1) {
        r = 1;
      }
    }
    return r;
  };
  int const want = look(v);
  if (want < 0) {
    return;
  }
  std::string w = "mesh";
  for (auto const & p : v) {
    w += mc::fmt("(%.4Lg,%.4Lg)", p.x, p.y);
  }
  um2::Vector<um2::Point2<Float>> lv;
  for (auto const & p : v) {
    lv.push_back(pt<double>(p));
  }
  um2::Vector<typename Fvm::FaceConn> lf;
  for (auto const & c : conn) {
    typename Fvm::FaceConn fc;
    for (Int i = 0; i < 2 * N; ++i) {
      fc[i] = c[size_t(i)];
    }
    lf.push_back(fc);
  }
  u64 const mark = mc::outputSize();
  um2::logger::level = 2;
  Fvm fvm(lv, lf);
  fvm.validate();
  um2::logger::level = 1;
  std::string const out = mc::outputFrom(mark);
  bool const error = out.find("ERROR") != std::string::npos;
  std::vector<P> x;
  for (Int i = 0; i < fvm.numVertices(); ++i) {
    x.push_back(back(fvm.getVertex(i)));
  }
  MC_REQUIRE(x.size() == v.size(), "vertices", "%s: %zu", w.c_str(), x.size());
  for (size_t i = 0; i < v.size(); ++i) {
    bool const same = x[i].x == v[i].x && x[i].y == v[i].y;
    MC_CHECK(same || (int(i) >= nc && want == 1), int(i) < nc ? "corner" : "untouched", "%s: point %zu moved", w.c_str(), i);
  }
  if (want == 0) {
    MC_CHECK(out.empty(), "message", "%s: %s", w.c_str(), out.c_str());
  } else {
    MC_CHECK(!out.empty(), "no-message", "%s", w.c_str());
    if (!error) {
      MC_CHECK(look(x) != 1, "still-crossing", "%s: %s", w.c_str(), out.c_str());
      // extent of all edges
      auto extent = [&](std::vector<P> const & y) {
        std::array<LD, 4> b = {1e9L, 1e9L, -1e9L, -1e9L};
        for (auto const & c : conn) {
          for (size_t i = 0; i < N; ++i) {
            Edge const e = {y[size_t(c[i])], y[size_t(c[(i + 1) % N])], y[size_t(c[N + i])]};
            for (int k = 0; k <= 1000; ++k) {
              P const p = e.at(LD(k) / 1000);
              b = {std::min(b[0], p.x), std::min(b[1], p.y), std::max(b[2], p.x), std::max(b[3], p.y)};
            }
          }
        }
        return b;
      };
      auto const b0 = extent(v);
      auto const b1 = extent(x);
      for (size_t k = 0; k < 4; ++k) {
        MC_CHECK(std::abs(b0[k] - b1[k]) < 1e-5L, "extent", "%s: side %zu from %Lg to %Lg", w.c_str(), k, b0[k], b1[k]);
      }
    }
  }
  mc::state(mc::hash(u64(want * 2 + int(error)), mc::hashStr(w)));
  mc::transition();
  mc::trace();
}

void
setup()
{
  um2::logger::level = 1;
  um2::logger::exit_on_error = false;
  mc::space("triangles", 4 * 3 * 2 * mc::ipow(7, 3), detect<3, double>);
  mc::space("triangles-float", 4 * 3 * 2 * mc::ipow(7, 3), detect<3, float>);
  mc::space("quads", 4 * 4 * 2 * mc::ipow(5, 4), detect<4, double>);
  mc::space("quads-float", 4 * 4 * 2 * mc::ipow(5, 4), detect<4, float>);
  mc::space("thin", 2 * 8 * 4 * 8 * 12, thin<double, 8>);
  mc::space("thin-float", 2 * 5 * 4 * 8 * 12, thin<float, 5>);
  mc::space("repair-triangles", 4 * 3 * 2 * mc::ipow(7, 3), repair<3>);
  mc::space("repair-quads", 4 * 4 * 2 * mc::ipow(5, 4), repair<4>);
  mc::space("mesh-triangles", 3 * mc::ipow(5, 5), mesh<3>);
  mc::space("mesh-quads", 3 * mc::ipow(3, 7), mesh<4>);
}
} // namespace

MC_MAIN(setup)
