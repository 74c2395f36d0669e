// Small reactor models from a plain description, used by several harnesses.
#pragma once
#include "fvmlib.hpp"
#include "tiling.hpp"

#include <um2/common/logger.hpp>
#include <um2/mpact/model.hpp>

namespace mg
{
using gen::Mesh;
using mc::u64;
using ref::LD;
using ref::P;
using um2::MeshType;
using um2::mpact::Model;
using Ids = std::vector<std::vector<int>>;

inline MeshType const TYPES[4] = {MeshType::Tri, MeshType::Quad, MeshType::QuadraticTri, MeshType::QuadraticQuad};

// Extents of a cell are those of the reference mesh with nx x ny cells
struct Cell {
  int type = 1, nx = 1, ny = 1, diag = 0;
  std::vector<int> mats; // repeated over the faces
};
struct Asy {
  std::vector<int> lats;
  std::vector<double> z; // empty: the default
};
struct Spec {
  std::vector<Cell> cells;
  std::vector<Ids> rtms;
  std::vector<Ids> lats;
  std::vector<Asy> asys;
  Ids core;
  int mats = 3;
  std::string name;
};

inline um2::Vector<um2::Vector<Int>>
vec(Ids const & ids)
{
  um2::Vector<um2::Vector<Int>> r;
  for (auto const & row : ids) {
    um2::Vector<Int> v;
    for (int i : row) {
      v.push_back(i);
    }
    r.push_back(v);
  }
  return r;
}

inline std::string
str(Ids const & v)
{
  std::string s;
  for (auto const & r : v) {
    s += "{";
    for (int x : r) {
      s += mc::fmt("%d", x);
    }
    s += "}";
  }
  return s;
}

// Reference mesh of a cell, lower left corner at the origin
inline Mesh
meshOf(Cell const & c)
{
  return gen::make(c.type, c.nx, c.ny, c.diag, 1, 0);
}
inline LD
widthOf(Cell const & c)
{
  static LD const x4[] = {0, 1, 2.5L, 3.25L};
  return x4[c.nx];
}
inline LD
heightOf(Cell const & c)
{
  static LD const y4[] = {0, 1, 1.75L, 3};
  return y4[c.ny];
}
inline int
matOf(Cell const & c, size_t face)
{
  return c.mats[face % c.mats.size()];
}

template <int T>
typename gen::Lib<T>::Fvm
libMesh(Mesh const & m)
{
  long warned = 0;
  return gen::build<T>(m, m.f, false, 0, &warned);
}

// Number of requests that were not accepted
inline int
build(Spec const & s, Model & m, um2::Vector<um2::Material> const * own = nullptr)
{
  int bad = 0;
  auto all = um2::getC5G7Materials();
  for (Int i = 0; i < s.mats; ++i) {
    if (own != nullptr) {
      m.addMaterial((*own)[i]);
      continue;
    }
    // Fission in all groups, not in the last one, not in the first one
    auto & x = all[i].xsec();
    if (i % 3 != 0 && x.numGroups() > 1) {
      Int const g = i % 3 == 1 ? x.numGroups() - 1 : 0;
      x.f()[g] = 0;
      x.nuf()[g] = 0;
    }
    m.addMaterial(all[i]);
  }
  for (auto const & c : s.cells) {
    Mesh const g = meshOf(c);
    Int id = -1;
    switch (c.type) {
    case 0:
      id = m.addTriMesh(libMesh<0>(g));
      break;
    case 1:
      id = m.addQuadMesh(libMesh<1>(g));
      break;
    case 2:
      id = m.addTri6Mesh(libMesh<2>(g));
      break;
    default:
      id = m.addQuad8Mesh(libMesh<3>(g));
      break;
    }
    um2::Vector<MatID> mats;
    for (size_t i = 0; i < g.f.size(); ++i) {
      mats.push_back(static_cast<MatID>(matOf(c, i)));
    }
    um2::Vec2F e;
    e[0] = double(widthOf(c));
    e[1] = double(heightOf(c));
    bad += m.addCoarseCell(e, TYPES[c.type], id, mats) < 0 ? 1 : 0;
  }
  for (auto const & x : s.rtms) {
    bad += m.addRTM(vec(x)) < 0 ? 1 : 0;
  }
  for (auto const & x : s.lats) {
    bad += m.addLattice(vec(x)) < 0 ? 1 : 0;
  }
  for (auto const & x : s.asys) {
    um2::Vector<Int> l;
    for (int i : x.lats) {
      l.push_back(i);
    }
    um2::Vector<Float> z;
    for (double v : x.z) {
      z.push_back(v);
    }
    bad += (x.z.empty() ? m.addAssembly(l) : m.addAssembly(l, z)) < 0 ? 1 : 0;
  }
  bad += m.addCore(vec(s.core)) < 0 ? 1 : 0;
  return bad;
}

// One fine cell in its place
struct Placed {
  int asy, lat, rtm, cell;         // ids
  int nasy, nlat, nrtm, ncell;     // which occurrence of the position (unique per position)
  int face;
  P offset;
  LD z, dz;
};

struct Placement {
  std::vector<Placed> faces;
  int asys = 0, lats = 0, rtms = 0, cells = 0;
  LD w = 0, h = 0;
};

// Rows are listed from the top, heights from the bottom
inline Placement
place(Spec const & s)
{
  Placement r;
  auto const cellW = [&](int c) { return widthOf(s.cells[size_t(c)]); };
  auto const cellH = [&](int c) { return heightOf(s.cells[size_t(c)]); };
  auto const rtmW = [&](int t) {
    LD w = 0;
    for (int c : s.rtms[size_t(t)][0]) {
      w += cellW(c);
    }
    return w;
  };
  auto const rtmH = [&](int t) {
    LD h = 0;
    for (auto const & row : s.rtms[size_t(t)]) {
      h += cellH(row[0]);
    }
    return h;
  };
  auto const latW = [&](int l) { return LD(s.lats[size_t(l)][0].size()) * rtmW(0); };
  auto const latH = [&](int l) { return LD(s.lats[size_t(l)].size()) * rtmH(0); };
  LD ya = 0;
  for (size_t ia = s.core.size(); ia-- > 0;) {
    LD xa = 0;
    for (int a : s.core[ia]) {
      auto const & asy = s.asys[size_t(a)];
      std::vector<double> const z = asy.z.empty() ? std::vector<double>{-0.5, 0.5} : asy.z;
      for (size_t k = 0; k < asy.lats.size(); ++k) {
        int const l = asy.lats[k];
        auto const & lat = s.lats[size_t(l)];
        for (size_t il = lat.size(); il-- > 0;) {
          for (size_t jl = 0; jl < lat[il].size(); ++jl) {
            int const t = lat[il][jl];
            LD const xt = xa + LD(jl) * rtmW(0);
            LD const yt = ya + LD(lat.size() - 1 - il) * rtmH(0);
            auto const & rtm = s.rtms[size_t(t)];
            LD yc = yt;
            for (size_t ic = rtm.size(); ic-- > 0;) {
              LD xc = xt;
              for (int c : rtm[ic]) {
                size_t const n = meshOf(s.cells[size_t(c)]).f.size();
                for (size_t f = 0; f < n; ++f) {
                  r.faces.push_back({a, l, t, c, r.asys, r.lats, r.rtms, r.cells, int(f), {xc, yc}, (LD(z[k]) + z[k + 1]) / 2, LD(z[k + 1]) - z[k]});
                }
                ++r.cells;
                xc += cellW(c);
              }
              yc += cellH(rtm[ic][0]);
            }
            ++r.rtms;
          }
        }
        ++r.lats;
      }
      ++r.asys;
      xa += latW(asy.lats[0]);
    }
    r.w = std::max(r.w, xa);
    ya += latH(s.asys[size_t(s.core[ia][0])].lats[0]);
  }
  r.h = ya;
  return r;
}

inline std::string
key(std::vector<P> const & pts, LD z, int type)
{
  // all coordinates are dyadic and small, so they are exact
  return gen::canon(pts, type) + mc::fmt("@%.9Lg", z);
}

// Enumerated families of models -------------------------------------------------------------------

// Four cells of the same size and different materials or meshes, modules of one cell
inline Spec
base()
{
  Spec s;
  s.cells = {{1, 1, 1, 0, {0}}, {0, 1, 1, 1, {1, 2}}, {3, 1, 1, 0, {2}}, {2, 1, 1, 0, {1, 0}}};
  s.rtms = {{{0}}, {{1}}, {{2}}, {{3}}};
  s.lats = {{{0, 1}, {2, 3}}};
  s.asys = {{{0}, {}}};
  s.core = {{0}};
  return s;
}

// All maps of r x c entries over n ids
inline Ids
mapOf(u64 index, int r, int c, int n)
{
  mc::Dec d(index);
  Ids ids(static_cast<size_t>(r));
  for (auto & row : ids) {
    for (int j = 0; j < c; ++j) {
      row.push_back(d.geti(n));
    }
  }
  return ids;
}

inline std::set<int>
used(Ids const & ids)
{
  std::set<int> u;
  for (auto const & r : ids) {
    u.insert(r.begin(), r.end());
  }
  return u;
}

// Remove components that are not used, keeping the order of the others
inline void
prune(Spec & s)
{
  auto const renumber = [](std::set<int> const & u, std::vector<int> & to) {
    int n = 0;
    for (int i : u) {
      if (size_t(i) >= to.size()) {
        to.resize(size_t(i) + 1, -1);
      }
      to[size_t(i)] = n++;
    }
  };
  auto const apply = [](Ids & ids, std::vector<int> const & to) {
    for (auto & r : ids) {
      for (int & i : r) {
        i = to[size_t(i)];
      }
    }
  };
  std::vector<int> to;
  auto u = used(s.core);
  renumber(u, to);
  apply(s.core, to);
  std::vector<Asy> asys;
  std::set<int> ul;
  for (int i : u) {
    asys.push_back(s.asys[size_t(i)]);
    ul.insert(asys.back().lats.begin(), asys.back().lats.end());
  }
  s.asys = asys;
  to.clear();
  renumber(ul, to);
  for (auto & a : s.asys) {
    for (int & i : a.lats) {
      i = to[size_t(i)];
    }
  }
  std::vector<Ids> lats;
  std::set<int> ur;
  for (int i : ul) {
    lats.push_back(s.lats[size_t(i)]);
    auto const x = used(lats.back());
    ur.insert(x.begin(), x.end());
  }
  s.lats = lats;
  to.clear();
  renumber(ur, to);
  for (auto & l : s.lats) {
    apply(l, to);
  }
  std::vector<Ids> rtms;
  std::set<int> uc;
  for (int i : ur) {
    rtms.push_back(s.rtms[size_t(i)]);
    auto const x = used(rtms.back());
    uc.insert(x.begin(), x.end());
  }
  s.rtms = rtms;
  to.clear();
  renumber(uc, to);
  for (auto & t : s.rtms) {
    apply(t, to);
  }
  std::vector<Cell> cells;
  for (int i : uc) {
    cells.push_back(s.cells[size_t(i)]);
  }
  s.cells = cells;
}

struct Family {
  std::string name;
  u64 n;
  std::function<Spec(u64)> make;
};

inline std::vector<Family>
families()
{
  std::vector<Family> r;
  // lattice maps over four modules
  for (int ny = 1; ny <= 3; ++ny) {
    for (int nx = 1; nx <= 3; ++nx) {
      if (nx * ny > static_cast<int>(mc::pick(6, 9))) {
        continue;
      }
      int const ids = nx * ny > 4 ? 3 : 4;
      r.push_back({mc::fmt("lattice-%dx%d", nx, ny), mc::ipow(u64(ids), nx * ny), [=](u64 i) {
                     Spec s = base();
                     s.lats = {mapOf(i, ny, nx, ids)};
                     return s;
                   }});
    }
  }
  // module maps over cells of one size, two modules with the map and its reverse
  for (int ny = 1; ny <= 3; ++ny) {
    for (int nx = 1; nx <= 3; ++nx) {
      if (nx * ny > static_cast<int>(mc::pick(6, 9))) {
        continue;
      }
      int const ids = nx * ny > 4 ? 3 : 4;
      r.push_back({mc::fmt("module-%dx%d", nx, ny), mc::ipow(u64(ids), nx * ny), [=](u64 i) {
                     Spec s = base();
                     Ids const a = mapOf(i, ny, nx, ids);
                     Ids b = a;
                     std::reverse(b.begin(), b.end());
                     for (auto & row : b) {
                       std::reverse(row.begin(), row.end());
                     }
                     s.rtms = {a, b};
                     s.lats = {{{0, 1}}};
                     return s;
                   }});
    }
  }
  // cells of four sizes: all column orders and row orders of the sizes, every mesh type
  r.push_back({"uneven-module", 4 * 4 * 4 * 4, [](u64 i) {
                 mc::Dec d(i);
                 Spec s;
                 int const order = d.geti(4);
                 int const type = d.geti(4);
                 int const second = d.geti(4);
                 int const place = d.geti(4);
                 for (int k = 0; k < 4; ++k) {
                   s.cells.push_back({(type + k * second) % 4, 1 + k % 2, 1 + k / 2, k, {k % 3, (k + 1) % 3}});
                 }
                 // cell k: column width k%2, row height k/2
                 Ids const maps[4] = {{{2, 3}, {0, 1}}, {{3, 2}, {1, 0}}, {{0, 1}, {2, 3}}, {{1, 0}, {3, 2}}};
                 s.rtms = {maps[order], maps[(order + 1 + second) % 4]};
                 Ids const lat[4] = {{{0, 1}}, {{0}, {1}}, {{1, 0}, {0, 1}}, {{1}, {1}}};
                 s.lats = {lat[place]};
                 s.asys = {{{0}, {}}};
                 s.core = {{0}};
                 return s;
               }});
  // uneven modules with three columns or rows
  r.push_back({"uneven-three", 27 * 2, [](u64 i) {
                 mc::Dec d(i);
                 Spec s;
                 int const w[3] = {1 + d.geti(3), 1 + d.geti(3), 1 + d.geti(3)};
                 bool const rows = d.geti(2) == 1;
                 Ids ids;
                 for (int k = 0; k < 3; ++k) {
                   s.cells.push_back({k % 4, rows ? 1 : w[k], rows ? w[k] : 1, k, {k}});
                   if (rows) {
                     ids.push_back({k});
                   }
                 }
                 s.rtms = {rows ? ids : Ids{{0, 1, 2}}};
                 s.lats = {{{0}, {0}}};
                 s.asys = {{{0}, {}}};
                 s.core = {{0}};
                 return s;
               }});
  // stacks: every list of up to three of three lattices, four choices of heights
  r.push_back({"stacks", 39 * 4, [](u64 i) {
                 mc::Dec d(i);
                 int k = d.geti(39);
                 int const zs = d.geti(4);
                 Spec s = base();
                 s.lats = {{{0, 1}}, {{2, 3}}, {{1, 0}}};
                 std::vector<int> l;
                 if (k < 3) {
                   l = {k};
                 } else if (k < 12) {
                   l = {(k - 3) % 3, (k - 3) / 3};
                 } else {
                   l = {(k - 12) % 3, (k - 12) / 3 % 3, (k - 12) / 9};
                 }
                 std::vector<double> z = {0};
                 double const step[4][3] = {{1, 1, 1}, {0.5, 2, 0.25}, {3, 0.125, 1.5}, {0.25, 0.25, 4}};
                 for (size_t j = 0; j < l.size(); ++j) {
                   z.push_back(z.back() + step[zs][j]);
                 }
                 s.asys = {{l, z}};
                 return s;
               }});
  // heights that are not short decimal numbers
  r.push_back({"odd-heights", 8, [](u64 i) {
                 double const h[8] = {1.0 / 3, 0.1234567891, 2e-5, 123.456789012345, 1.0 / 7, 1e-4 / 3, 365.76 / 49, 3.14159265358979};
                 Spec s = base();
                 s.asys = {{{0, 0}, {0, h[i], h[i] + h[(i + 1) % 8]}}};
                 return s;
               }});
  // core maps over two assemblies of the same size that share lattices
  for (int ny = 1; ny <= 3; ++ny) {
    for (int nx = 1; nx <= 3; ++nx) {
      r.push_back({mc::fmt("core-%dx%d", nx, ny), mc::ipow(2, nx * ny), [=](u64 i) {
                     Spec s = base();
                     s.lats = {{{0, 1}}, {{2, 3}}, {{3, 1}}};
                     s.asys = {{{0, 1}, {0, 1, 3}}, {{1, 2, 0}, {0, 0.5, 2, 3}}};
                     s.core = mapOf(i, ny, nx, 2);
                     return s;
                   }});
    }
  }
  // cores with assemblies of different sizes
  r.push_back({"uneven-core", 16 * 2, [](u64 i) {
                 mc::Dec d(i);
                 int const m = d.geti(16);
                 int const three = d.geti(2);
                 Spec s = base();
                 // assemblies: 1x1, 2x1, 1x2, 2x2 modules
                 s.lats = {{{0}}, {{1, 2}}, {{3}, {1}}, {{0, 1}, {2, 3}}};
                 for (int k = 0; k < 4; ++k) {
                   s.asys.resize(4);
                   s.asys[size_t(k)] = three != 0 ? Asy{{k, k}, {0, 1, 1.5}} : Asy{{k}, {}};
                 }
                 // bit 0/1: order of columns/rows, bits 2,3: number of columns/rows repeated
                 int const a = (m & 1) != 0 ? 1 : 0;
                 int const b = (m & 2) != 0 ? 1 : 0;
                 std::vector<int> cols = {a, 1 - a};
                 std::vector<int> rows = {b, 1 - b};
                 if (m & 4) {
                   cols.push_back(a);
                 }
                 if (m & 8) {
                   rows.push_back(1 - b);
                 }
                 s.core.clear();
                 for (int rr : rows) {
                   s.core.push_back({});
                   for (int cc : cols) {
                     s.core.back().push_back(cc + 2 * rr);
                   }
                 }
                 return s;
               }});
  // ids at the different levels are permuted against each other
  r.push_back({"permuted-ids", 24 * 6 * 2 * 6, [](u64 i) {
                 mc::Dec d(i);
                 int const pc = d.geti(24);
                 int const pr = d.geti(6);
                 int const pl = d.geti(2);
                 int const pa = d.geti(6);
                 auto const perm = [](int n, int k) {
                   std::vector<int> p;
                   for (int j = 0; j < n; ++j) {
                     p.push_back(j);
                   }
                   for (int j = 0; j < k; ++j) {
                     std::next_permutation(p.begin(), p.end());
                   }
                   return p;
                 };
                 auto const c = perm(4, pc);
                 auto const t = perm(3, pr);
                 auto const l = perm(2, pl);
                 auto const a = perm(3, pa);
                 Spec s = base();
                 s.rtms = {{{c[0], c[1]}}, {{c[2], c[3]}}, {{c[1], c[1]}}};
                 s.lats = {{{t[0]}, {t[1]}}, {{t[2]}, {t[0]}}};
                 s.asys = {{{l[0], l[1]}, {0, 1, 2}}, {{l[1]}, {0, 2}}, {{l[1], l[1], l[0]}, {0, 0.5, 1.5, 2}}};
                 s.core = {{a[0], a[1]}, {a[2], a[0]}};
                 return s;
               }});
  // every mesh type with every assignment of three materials, several mesh sizes
  r.push_back({"materials", 4 * 9 * 27, [](u64 i) {
                 mc::Dec d(i);
                 int const type = d.geti(4);
                 int const nx = 1 + d.geti(3);
                 int const ny = 1 + d.geti(3);
                 std::vector<int> const mats = {d.geti(3), d.geti(3), d.geti(3)};
                 Spec s;
                 s.cells = {{type, nx, ny, 5, mats}};
                 s.rtms = {{{0}}};
                 s.lats = {{{0, 0}}};
                 s.asys = {{{0}, {0, 2.5}}};
                 s.core = {{0}};
                 return s;
               }});
  // a cell repeated many times
  r.push_back({"many-positions", mc::pick(13, 130), [](u64 i) {
                 int const n = i < 12 ? int(i) + 1 : (i == 12 ? 101 : int(i));
                 Spec s = base();
                 s.rtms = {{{1, 0}}};
                 s.lats = {Ids(size_t(n), {0})};
                 s.asys = {{{0}, {}}};
                 return s;
               }});
  // long maps with as many different cells as positions
  r.push_back({"many-cells", mc::pick(13, 130), [](u64 i) {
                 int const n = i < 12 ? int(i) + 1 : (i == 12 ? 101 : int(i));
                 Spec s;
                 Ids lat(1);
                 for (int k = 0; k < n; ++k) {
                   s.cells.push_back({1, 1, 1, 0, {k % 3}});
                   s.rtms.push_back({{n - 1 - k}});
                   lat[0].push_back(k);
                 }
                 s.lats = {lat};
                 s.asys = {{{0}, {}}};
                 s.core = {{0}};
                 return s;
               }});
  return r;
}
} // namespace mg
