// C19: building histories of a reactor model with valid and invalid requests.
#include "fvmlib.hpp"

#include <um2/common/logger.hpp>
#include <um2/mpact/model.hpp>

namespace
{
using mc::u64;
using um2::MeshType;
using um2::mpact::Model;
using Ids = std::vector<std::vector<int>>;

double const eps = 1e-7;

struct Cell {
  double w, h;
  MeshType type;
  int mesh;
  std::vector<int> mats;
};
struct Grid {
  Ids ids;
  std::vector<double> x, y;
};
struct Asy {
  std::vector<int> lats;
  std::vector<double> z;
};
// Reference model
struct Ref {
  int mats = 0;
  std::vector<int> meshes[4]; // faces of each mesh: tri, quad, tri6, quad8
  std::vector<Cell> cells;
  std::vector<Grid> rtms;
  std::vector<Grid> lats;
  std::vector<Asy> asys;
  bool core = false;
  Grid core_grid;
};
MeshType const TYPES[4] = {MeshType::Tri, MeshType::Quad, MeshType::QuadraticTri, MeshType::QuadraticQuad};

bool
rectangular(Ids const & ids)
{
  if (ids.empty() || ids[0].empty()) {
    return false;
  }
  for (auto const & r : ids) {
    if (r.size() != ids[0].size()) {
      return false;
    }
  }
  return true;
}

bool
exist(Ids const & ids, size_t n)
{
  for (auto const & r : ids) {
    for (int i : r) {
      if (i < 0 || size_t(i) >= n) {
        return false;
      }
    }
  }
  return true;
}

// Divisions of a map of boxes, rows listed from the top; false if they do not line up
bool
divisions(Grid & g, std::vector<std::pair<double, double>> const & size)
{
  size_t const ny = g.ids.size();
  size_t const nx = g.ids[0].size();
  g.x = {0};
  g.y = {0};
  for (size_t j = 0; j < nx; ++j) {
    g.x.push_back(g.x.back() + size[size_t(g.ids[ny - 1][j])].first);
  }
  for (size_t i = 0; i < ny; ++i) {
    g.y.push_back(g.y.back() + size[size_t(g.ids[ny - 1 - i][0])].second);
  }
  for (size_t i = 0; i < ny; ++i) {
    for (size_t j = 0; j < nx; ++j) {
      auto const & s = size[size_t(g.ids[i][j])];
      if (std::abs(s.first - size[size_t(g.ids[0][j])].first) > eps || std::abs(s.second - size[size_t(g.ids[i][0])].second) > eps) {
        return false;
      }
    }
  }
  return true;
}

um2::Vector<um2::Vector<Int>>
vec(Ids const & ids)
{
  um2::Vector<um2::Vector<Int>> r;
  for (auto const & row : ids) {
    um2::Vector<Int> v;
    for (int i : row) {
      v.push_back(i);
    }
    r.push_back(v);
  }
  return r;
}
template <class T, class U>
um2::Vector<T>
vec(std::vector<U> const & v)
{
  um2::Vector<T> r;
  for (auto const & x : v) {
    r.push_back(static_cast<T>(x));
  }
  return r;
}
um2::Vec2F
v2(double a, double b)
{
  um2::Vec2F r;
  r[0] = a;
  r[1] = b;
  return r;
}

// A request: applies to the model and the reference; returns the id returned by the library, the id the
// reference expects (-1: rejected)
struct Op {
  std::string name;
  std::function<int(Model &)> lib;
  std::function<int(Ref &)> ref; // -2: outside the preconditions, skip
};

std::vector<Op> OPS;

void
rectMesh(double w, double h, int nx, int ny)
{
  OPS.push_back({mc::fmt("rectangle(%g,%g,%d,%d)", w, h, nx, ny), [=](Model & m) { return int(m.addRectangularPinMesh(v2(w, h), nx, ny)); },
                 [=](Ref & r) {
                   if (!(w > 0) || !(h > 0) || nx <= 0 || ny <= 0) {
                     return -1;
                   }
                   r.meshes[1].push_back(nx * ny);
                   return int(r.meshes[1].size()) - 1;
                 }});
}

bool
goodPin(double pitch, std::vector<double> const & r, std::vector<int> const & rings, int na, int order, int & faces)
{
  if ((order != 1 && order != 2) || na < 8 || (na & (na - 1)) != 0 || r.size() != rings.size() || r.empty()) {
    return false;
  }
  double prev = 0;
  int total = 0;
  for (size_t i = 0; i < r.size(); ++i) {
    if (!(r[i] > prev) || rings[i] <= 0 || r[i] > 0.48 * pitch) { // no radius in the menu is between 0.45 and 0.5
      return false;
    }
    prev = r[i];
    total += rings[i];
  }
  faces = na * (total + 1);
  return true;
}

std::string
list(std::vector<double> const & v)
{
  std::string s;
  for (double x : v) {
    s += mc::fmt(" %g", x);
  }
  return s;
}
std::string
list(std::vector<int> const & v)
{
  std::string s;
  for (int x : v) {
    s += mc::fmt(" %d", x);
  }
  return s;
}
std::string
list(Ids const & v)
{
  std::string s;
  for (auto const & x : v) {
    s += "{" + list(x) + " }";
  }
  return s;
}

void
pinMesh(double pitch, std::vector<double> const & r, std::vector<int> const & rings, int na, int order)
{
  OPS.push_back({mc::fmt("pinmesh(%g,%s,%s,%d,%d)", pitch, list(r).c_str(), list(rings).c_str(), na, order),
                 [=](Model & m) { return int(m.addCylindricalPinMesh(pitch, vec<Float>(r), vec<Int>(rings), na, order)); },
                 [=](Ref & ref) {
                   int faces = 0;
                   if (!goodPin(pitch, r, rings, na, order, faces)) {
                     return -1;
                   }
                   auto & v = ref.meshes[order == 1 ? 1 : 3];
                   v.push_back(faces);
                   return int(v.size()) - 1;
                 }});
}

um2::Vector<um2::Material>
materials()
{
  return um2::getC5G7Materials();
}

void
pinCell(double pitch, std::vector<double> const & r, std::vector<int> const & mats, std::vector<int> const & rings, int na, int order)
{
  OPS.push_back({mc::fmt("pincell(%g,%s,%s,%s,%d,%d)", pitch, list(r).c_str(), list(mats).c_str(), list(rings).c_str(), na, order),
                 [=](Model & m) {
                   auto const all = materials();
                   um2::Vector<um2::Material> v;
                   for (int i : mats) {
                     v.push_back(all[i]);
                   }
                   return int(m.addCylindricalPinCell(pitch, vec<Float>(r), v, vec<Int>(rings), na, order));
                 },
                 [=](Ref & ref) {
                   int faces = 0;
                   if (!goodPin(pitch, r, rings, na, order, faces) || mats.size() != r.size() + 1) {
                     return -1;
                   }
                   for (int i : mats) {
                     if (i >= ref.mats) {
                       return -1;
                     }
                   }
                   auto & v = ref.meshes[order == 1 ? 1 : 3];
                   v.push_back(faces);
                   Cell c = {pitch, pitch, TYPES[order == 1 ? 1 : 3], int(v.size()) - 1, {}};
                   for (size_t k = 0; k < mats.size(); ++k) {
                     for (int n = 0; n < (k < rings.size() ? rings[k] : 1) * na; ++n) {
                       c.mats.push_back(mats[k]);
                     }
                   }
                   ref.cells.push_back(c);
                   return int(ref.cells.size()) - 1;
                 }});
}

template <int T>
void
addMesh(Model & m)
{
  gen::Mesh const g = gen::make(T, 1, 1, 0, 0, 0);
  long warned = 0;
  auto const fvm = gen::build<T>(g, g.f, false, 0, &warned);
  if constexpr (T == 0) {
    m.addTriMesh(fvm);
  } else if constexpr (T == 1) {
    m.addQuadMesh(fvm);
  } else if constexpr (T == 2) {
    m.addTri6Mesh(fvm);
  } else {
    m.addQuad8Mesh(fvm);
  }
}
template <int T>
void
userMesh()
{
  OPS.push_back({mc::fmt("mesh(%d)", T), [=](Model & m) { addMesh<T>(m); return int(T == 0 ? m.triMeshes().size() : T == 1 ? m.quadMeshes().size() : T == 2 ? m.tri6Meshes().size() : m.quad8Meshes().size()) - 1; },
                 [=](Ref & r) {
                   r.meshes[T].push_back(T % 2 == 0 ? 2 : 1);
                   return int(r.meshes[T].size()) - 1;
                 }});
}

// nmats: number of material ids given; last: id of the last one
void
cell(double w, double h, int type, int mesh, int nmats, int last)
{
  std::vector<int> mats;
  for (int i = 0; i < nmats; ++i) {
    mats.push_back(i + 1 == nmats ? last : i % 2);
  }
  MeshType const t = type < 0 ? (type == -1 ? MeshType::Invalid : MeshType::TriQuad) : TYPES[type];
  OPS.push_back({mc::fmt("cell(%g,%g,%d,%d,%d,%d)", w, h, type, mesh, nmats, last),
                 [=](Model & m) { return int(m.addCoarseCell(v2(w, h), t, mesh, vec<MatID>(mats))); },
                 [=](Ref & r) {
                   if (!(w > 0) || !(h > 0)) {
                     return -1;
                   }
                   if (mesh != -1) {
                     if (type < 0 || mesh < 0 || size_t(mesh) >= r.meshes[type].size() || r.meshes[type][size_t(mesh)] != nmats) {
                       return -1;
                     }
                     for (int i : mats) {
                       if (i < 0 || i >= r.mats) {
                         return -1;
                       }
                     }
                   }
                   r.cells.push_back({w, h, t, mesh, mats});
                   return int(r.cells.size()) - 1;
                 }});
}

void
rtm(Ids const & ids)
{
  OPS.push_back({"module" + list(ids), [=](Model & m) { return int(m.addRTM(vec(ids))); },
                 [=](Ref & r) {
                   if (!rectangular(ids) || !exist(ids, r.cells.size())) {
                     return -1;
                   }
                   std::vector<std::pair<double, double>> s;
                   for (auto const & c : r.cells) {
                     s.push_back({c.w, c.h});
                   }
                   Grid g;
                   g.ids = ids;
                   if (!divisions(g, s)) {
                     return -1;
                   }
                   if (!r.rtms.empty() && (std::abs(g.x.back() - r.rtms[0].x.back()) > eps || std::abs(g.y.back() - r.rtms[0].y.back()) > eps)) {
                     return -1;
                   }
                   r.rtms.push_back(g);
                   return int(r.rtms.size()) - 1;
                 }});
}

void
lattice(Ids const & ids)
{
  OPS.push_back({"lattice" + list(ids), [=](Model & m) { return int(m.addLattice(vec(ids))); },
                 [=](Ref & r) {
                   if (!rectangular(ids) || !exist(ids, r.rtms.size())) {
                     return -1;
                   }
                   Grid g;
                   g.ids = ids;
                   double const w = r.rtms[0].x.back();
                   double const h = r.rtms[0].y.back();
                   for (size_t i = 0; i <= ids[0].size(); ++i) {
                     g.x.push_back(w * double(i));
                   }
                   for (size_t i = 0; i <= ids.size(); ++i) {
                     g.y.push_back(h * double(i));
                   }
                   r.lats.push_back(g);
                   return int(r.lats.size()) - 1;
                 }});
}

// z empty: use the default argument
void
assembly(std::vector<int> const & lats, std::vector<double> const & z)
{
  OPS.push_back({"assembly" + list(lats) + " z" + list(z),
                 [=](Model & m) { return int(z.empty() ? m.addAssembly(vec<Int>(lats)) : m.addAssembly(vec<Int>(lats), vec<Float>(z))); },
                 [=](Ref & r) {
                   std::vector<double> const zs = z.empty() ? std::vector<double>{-0.5, 0.5} : z;
                   if (lats.empty() || !exist({lats}, r.lats.size()) || lats.size() + 1 != zs.size()) {
                     return -1;
                   }
                   for (size_t i = 0; i + 1 < zs.size(); ++i) {
                     if (!(zs[i] < zs[i + 1])) {
                       return -1;
                     }
                   }
                   bool const flat = zs.front() == -0.5 && zs.back() == 0.5;
                   if (!flat && zs.front() != 0) {
                     return -1;
                   }
                   if (!r.asys.empty() && (r.asys[0].z.front() != zs.front() || r.asys[0].z.back() != zs.back())) {
                     return -1;
                   }
                   for (int i : lats) {
                     auto const & a = r.lats[size_t(i)];
                     auto const & b = r.lats[size_t(lats[0])];
                     if (a.x.size() != b.x.size() || a.y.size() != b.y.size()) {
                       return -1;
                     }
                   }
                   r.asys.push_back({lats, zs});
                   return int(r.asys.size()) - 1;
                 }});
}

void
core(Ids const & ids)
{
  OPS.push_back({"core" + list(ids), [=](Model & m) { return int(m.addCore(vec(ids))); },
                 [=](Ref & r) {
                   if (r.core || !rectangular(ids) || !exist(ids, r.asys.size())) {
                     return -1;
                   }
                   std::vector<std::pair<double, double>> s;
                   for (auto const & a : r.asys) {
                     auto const & l = r.lats[size_t(a.lats[0])];
                     s.push_back({l.x.back(), l.y.back()});
                   }
                   Grid g;
                   g.ids = ids;
                   if (!divisions(g, s)) {
                     return -1;
                   }
                   r.core = true;
                   r.core_grid = g;
                   return 0;
                 }});
}

void
coarseGrid(double w, double h, int nx, int ny)
{
  OPS.push_back({mc::fmt("coarse-grid(%g,%g,%d,%d)", w, h, nx, ny),
                 [=](Model & m) {
                   auto const n = m.numAssemblies();
                   m.addCoarseGrid(v2(w, h), {nx, ny});
                   return m.numAssemblies() > n ? 0 : -1;
                 },
                 [=](Ref & r) {
                   if (!r.cells.empty() || !r.rtms.empty() || !r.lats.empty() || !r.asys.empty()) {
                     return -2;
                   }
                   if (!(w > 0) || !(h > 0) || nx <= 0 || ny <= 0) {
                     return -1;
                   }
                   double const dx = w / nx;
                   double const dy = h / ny;
                   Grid lat;
                   for (int j = 0; j < ny; ++j) {
                     for (int i = 0; i < nx; ++i) {
                       r.cells.push_back({dx, dy, MeshType::Invalid, -1, {}});
                       r.rtms.push_back({{{j * nx + i}}, {0, dx}, {0, dy}});
                     }
                   }
                   lat.ids.resize(size_t(ny));
                   for (int j = 0; j < ny; ++j) {
                     for (int i = 0; i < nx; ++i) {
                       lat.ids[size_t(ny - 1 - j)].push_back(j * nx + i); // numbered from the lower left
                     }
                   }
                   for (int i = 0; i <= nx; ++i) {
                     lat.x.push_back(dx * i);
                   }
                   for (int j = 0; j <= ny; ++j) {
                     lat.y.push_back(dy * j);
                   }
                   r.lats.push_back(lat);
                   r.asys.push_back({{0}, {-0.5, 0.5}});
                   r.core = true;
                   r.core_grid = {{{0}}, {0, w}, {0, h}};
                   return 0;
                 }});
}

bool
near(double a, double b)
{
  return std::abs(a - b) < 1e-9;
}

template <class P>
void
compareGrid(P const & p, Grid const & g, std::string const & what, std::string const & w)
{
  int const nx = int(g.x.size()) - 1;
  int const ny = int(g.y.size()) - 1;
  MC_REQUIRE(p.grid().numCells(0) == nx && p.grid().numCells(1) == ny && p.children().size() == nx * ny, "grid-size",
             "%s %s: %d x %d with %d children, expected %d x %d", what.c_str(), w.c_str(), int(p.grid().numCells(0)), int(p.grid().numCells(1)),
             int(p.children().size()), nx, ny);
  for (int j = 0; j < ny; ++j) {
    for (int i = 0; i < nx; ++i) {
      int const want = g.ids[size_t(ny - 1 - j)][size_t(i)];
      MC_CHECK(p.getChild(i, j) == want && p.children()[j * nx + i] == want, "grid-child", "%s %s: (%d,%d) is %d, expected %d", what.c_str(), w.c_str(), i, j,
               int(p.getChild(i, j)), want);
      auto const b = p.grid().getBox(i, j);
      bool const ok = near(b.minima(0), g.x[size_t(i)]) && near(b.maxima(0), g.x[size_t(i) + 1]) && near(b.minima(1), g.y[size_t(j)]) &&
                      near(b.maxima(1), g.y[size_t(j) + 1]);
      MC_CHECK(ok, "grid-division", "%s %s: box (%d,%d)", what.c_str(), w.c_str(), i, j);
    }
  }
  MC_CHECK(near(p.grid().extents()[0], g.x.back()) && near(p.grid().extents()[1], g.y.back()), "grid-extents", "%s %s", what.c_str(), w.c_str());
}

// index of the first object of each kind that has to be compared (older ones were compared before, but are
// checked again at the end of a history)
void
compare(Model const & m, Ref const & r, std::string const & w)
{
  MC_REQUIRE(m.materials().size() == r.mats, "materials", "%s: %d, expected %d", w.c_str(), int(m.materials().size()), r.mats);
  MC_REQUIRE(m.triMeshes().size() == Int(r.meshes[0].size()) && m.quadMeshes().size() == Int(r.meshes[1].size()) &&
                 m.tri6Meshes().size() == Int(r.meshes[2].size()) && m.quad8Meshes().size() == Int(r.meshes[3].size()),
             "mesh-count", "%s: %d %d %d %d, expected %zu %zu %zu %zu", w.c_str(), int(m.triMeshes().size()), int(m.quadMeshes().size()),
             int(m.tri6Meshes().size()), int(m.quad8Meshes().size()), r.meshes[0].size(), r.meshes[1].size(), r.meshes[2].size(), r.meshes[3].size());
  for (size_t i = 0; i < r.meshes[0].size(); ++i) {
    MC_CHECK(m.getTriMesh(Int(i)).numFaces() == r.meshes[0][i], "mesh-faces", "%s", w.c_str());
  }
  for (size_t i = 0; i < r.meshes[1].size(); ++i) {
    MC_CHECK(m.getQuadMesh(Int(i)).numFaces() == r.meshes[1][i], "mesh-faces", "%s", w.c_str());
  }
  for (size_t i = 0; i < r.meshes[2].size(); ++i) {
    MC_CHECK(m.getTri6Mesh(Int(i)).numFaces() == r.meshes[2][i], "mesh-faces", "%s", w.c_str());
  }
  for (size_t i = 0; i < r.meshes[3].size(); ++i) {
    MC_CHECK(m.getQuad8Mesh(Int(i)).numFaces() == r.meshes[3][i], "mesh-faces", "%s", w.c_str());
  }
  MC_REQUIRE(m.numCoarseCells() == Int(r.cells.size()) && m.coarseCells().size() == Int(r.cells.size()), "cell-count", "%s: %d, expected %zu", w.c_str(),
             int(m.numCoarseCells()), r.cells.size());
  for (size_t i = 0; i < r.cells.size(); ++i) {
    auto const & a = m.getCoarseCell(Int(i));
    auto const & b = r.cells[i];
    bool ok = a.xy_extents[0] == b.w && a.xy_extents[1] == b.h && a.mesh_id == b.mesh && a.mesh_type == b.type && a.numFaces() == Int(b.mats.size());
    for (size_t k = 0; ok && k < b.mats.size(); ++k) {
      ok = a.material_ids[Int(k)] == b.mats[k];
    }
    MC_CHECK(ok, "cell", "%s: cell %zu", w.c_str(), i);
  }
  MC_REQUIRE(m.numRTMs() == Int(r.rtms.size()) && m.rtms().size() == Int(r.rtms.size()), "module-count", "%s: %d, expected %zu", w.c_str(), int(m.numRTMs()),
             r.rtms.size());
  for (size_t i = 0; i < r.rtms.size(); ++i) {
    compareGrid(m.getRTM(Int(i)), r.rtms[i], mc::fmt("module %zu", i), w);
  }
  MC_REQUIRE(m.numLattices() == Int(r.lats.size()) && m.lattices().size() == Int(r.lats.size()), "lattice-count", "%s: %d, expected %zu", w.c_str(),
             int(m.numLattices()), r.lats.size());
  for (size_t i = 0; i < r.lats.size(); ++i) {
    compareGrid(m.getLattice(Int(i)), r.lats[i], mc::fmt("lattice %zu", i), w);
  }
  MC_REQUIRE(m.numAssemblies() == Int(r.asys.size()) && m.assemblies().size() == Int(r.asys.size()), "assembly-count", "%s: %d, expected %zu", w.c_str(),
             int(m.numAssemblies()), r.asys.size());
  for (size_t i = 0; i < r.asys.size(); ++i) {
    auto const & a = m.getAssembly(Int(i));
    auto const & b = r.asys[i];
    bool ok = a.grid().numCells(0) == Int(b.lats.size()) && a.children().size() == Int(b.lats.size()) && a.grid().divs(0).size() == Int(b.z.size());
    for (size_t k = 0; ok && k < b.lats.size(); ++k) {
      ok = a.getChild(Int(k)) == b.lats[k];
    }
    for (size_t k = 0; ok && k < b.z.size(); ++k) {
      ok = a.grid().divs(0)[Int(k)] == b.z[k];
    }
    MC_CHECK(ok, "assembly", "%s: assembly %zu", w.c_str(), i);
  }
  MC_REQUIRE(m.core().children().empty() == !r.core, "core-made", "%s", w.c_str());
  if (r.core) {
    compareGrid(m.getCore(), r.core_grid, "core", w);
    // totals
    Int na = 0;
    Int nl = 0;
    Int nr = 0;
    Int nc = 0;
    Int nf = 0;
    for (auto const & row : r.core_grid.ids) {
      for (int a : row) {
        ++na;
        for (int l : r.asys[size_t(a)].lats) {
          ++nl;
          for (auto const & lr : r.lats[size_t(l)].ids) {
            for (int t : lr) {
              ++nr;
              for (auto const & tr : r.rtms[size_t(t)].ids) {
                for (int c : tr) {
                  ++nc;
                  nf += Int(r.cells[size_t(c)].mats.size());
                }
              }
            }
          }
        }
      }
    }
    MC_CHECK(m.numAssembliesTotal() == na && m.numLatticesTotal() == nl && m.numRTMsTotal() == nr && m.numCoarseCellsTotal() == nc && m.numFineCellsTotal() == nf,
             "totals", "%s: %d %d %d %d %d, expected %d %d %d %d %d", w.c_str(), int(m.numAssembliesTotal()), int(m.numLatticesTotal()), int(m.numRTMsTotal()),
             int(m.numCoarseCellsTotal()), int(m.numFineCellsTotal()), int(na), int(nl), int(nr), int(nc), int(nf));
  }
}

u64
stateOf(Ref const & r)
{
  std::string s = mc::fmt("%d|", r.mats);
  for (auto const & v : r.meshes) {
    s += list(v) + "|";
  }
  for (auto const & c : r.cells) {
    s += mc::fmt("(%g %g %d %d", c.w, c.h, int(c.type), c.mesh) + list(c.mats) + ")";
  }
  for (auto const * g : {&r.rtms, &r.lats}) {
    for (auto const & x : *g) {
      s += "g" + list(x.ids);
    }
  }
  for (auto const & a : r.asys) {
    s += "a" + list(a.lats) + "z" + list(a.z);
  }
  return mc::hashStr(s + (r.core ? "core" + list(r.core_grid.ids) : ""));
}

std::vector<std::vector<std::string>> const STARTS = {
    {},
    {"rectangle(1,1,1,1)", "rectangle(2,1,2,1)", "mesh(0)", "mesh(2)", "pinmesh(1, 0.25, 1,8,2)"},
    {"rectangle(1,1,1,1)", "rectangle(2,1,2,1)", "cell(1,1,1,0,1,0)", "cell(2,1,1,1,2,1)", "cell(1,1,1,0,1,1)"},
    {"rectangle(1,1,1,1)", "cell(1,1,1,0,1,0)", "cell(1,1,1,0,1,1)", "module{ 0 1 }", "module{ 1 0 }"},
    {"rectangle(1,1,1,1)", "cell(1,1,1,0,1,0)", "cell(1,1,1,0,1,1)", "module{ 0 }", "module{ 1 }", "lattice{ 0 }", "lattice{ 0 1 }", "lattice{ 0 }{ 1 }", "lattice{ 1 0 }"},
    {"rectangle(1,1,1,1)", "cell(1,1,1,0,1,0)", "cell(1,1,1,0,1,1)", "module{ 0 }", "module{ 1 }", "lattice{ 0 }", "lattice{ 0 1 }", "lattice{ 0 }{ 1 }",
     "assembly 0 0 z 0 1 2", "assembly 1 z 0 2", "assembly 2 z 0 2"},
};

void
menu()
{
  // meshes
  rectMesh(1, 1, 1, 1);
  rectMesh(2, 1, 2, 1);
  rectMesh(0, 1, 1, 1);
  rectMesh(1, -1, 1, 1);
  rectMesh(1, 1, 0, 1);
  rectMesh(1, 1, 1, -2);
  pinMesh(1, {0.25}, {1}, 8, 2);
  pinMesh(1, {0.25, 0.4}, {2, 1}, 8, 1);
  pinMesh(1, {0.25}, {1}, 8, 3);
  pinMesh(1, {0.25}, {1}, 4, 1);
  pinMesh(1, {0.25}, {1}, 12, 1);
  pinMesh(1, {0.25, 0.4}, {1}, 8, 1);
  pinMesh(1, {0.25, 0.6}, {1, 1}, 8, 2);
  pinMesh(1, {0.4, 0.25}, {1, 1}, 8, 1);
  pinMesh(1, {0.25, 0.25}, {1, 1}, 8, 2);
  pinMesh(1, {0.25}, {0}, 8, 1);
  pinMesh(1, {-0.25}, {1}, 8, 1);
  pinMesh(1, {}, {}, 8, 1);
  pinMesh(-1, {0.25}, {1}, 8, 1);
  pinMesh(1, {0.5}, {1}, 8, 1);
  userMesh<0>();
  userMesh<1>();
  userMesh<2>();
  userMesh<3>();
  // cells
  cell(1, 1, 1, 0, 1, 0);
  cell(1, 1, 1, 0, 1, 1);
  cell(2, 1, 1, 1, 2, 1);
  cell(1, 1, 3, 0, 16, 1);
  cell(1, 1, 0, 0, 2, 1);
  cell(1, 1, 2, 0, 2, 0);
  cell(1, 2, -1, -1, 0, 0);
  cell(0, 1, 1, 0, 1, 0);
  cell(1, -1, -1, -1, 0, 0);
  cell(1, 1, 1, 2, 1, 0);
  cell(1, 1, 1, -2, 1, 0);
  cell(1, 1, 1, 0, 2, 0);
  cell(1, 1, 1, 0, 0, 0);
  cell(1, 1, 1, 0, 1, 2);
  cell(1, 1, 1, 0, 1, -1);
  cell(1, 1, -1, 0, 1, 0);
  cell(1, 1, -2, 0, 1, 0);
  cell(1, 1, 0, 1, 2, 0);
  cell(1, 1, 2, 1, 2, 0);
  cell(1, 1, 3, 1, 16, 0);
  cell(1, 1, 0, 0, 1, 0);
  cell(1, 1, 2, 0, 3, 0);
  cell(1, 1, 3, 0, 8, 0);
  cell(1, 1, 0, 0, 2, 5);
  pinCell(1, {0.25}, {0, 1}, {1}, 8, 1);
  pinCell(1, {0.25}, {1, 0}, {1}, 8, 2);
  pinCell(1, {0.25}, {0}, {1}, 8, 1);
  pinCell(1, {0.25}, {0, 1, 1}, {1}, 8, 2);
  pinCell(1, {0.25}, {0, 4}, {1}, 8, 1);
  pinCell(1, {0.25}, {0, 1}, {1}, 7, 1);
  pinCell(1, {0.7}, {0, 1}, {1}, 8, 2);
  pinCell(1, {0.25}, {0, 1}, {1}, 8, 0);
  // modules
  rtm({{0}});
  rtm({{1}});
  rtm({{0, 1}});
  rtm({{1, 0}});
  rtm({{0}, {1}});
  rtm({{0, 1}, {1, 0}});
  rtm({{0, 1}, {0, 1}});
  rtm({{2, 0}, {1}});
  rtm({{0, 0, 2}});
  rtm({{0, 1}, {0}});
  rtm({{0}, {0, 1}});
  rtm({{3}});
  rtm({{-1, 0}});
  rtm({});
  rtm({{}});
  // lattices
  lattice({{0}});
  lattice({{1}});
  lattice({{0, 1}});
  lattice({{1, 0}});
  lattice({{0}, {1}});
  lattice({{0, 1}, {1, 1}});
  lattice({{0, 1}, {0}});
  lattice({{0}, {0, 1}});
  lattice({{2}});
  lattice({{0, -1}});
  lattice({});
  lattice({{}, {}});
  // assemblies
  assembly({0}, {});
  assembly({1}, {});
  assembly({0}, {0, 2});
  assembly({0, 0}, {0, 1, 2});
  assembly({1, 3}, {0, 1.5, 2});
  assembly({1}, {0, 2});
  assembly({2}, {0, 2});
  assembly({0, 1}, {0, 1, 2});
  assembly({0}, {0, 3});
  assembly({0}, {1, 2});
  assembly({0}, {0, 1, 2});
  assembly({0, 0}, {0, 2});
  assembly({0, 0}, {0, 2, 1});
  assembly({0, 0}, {0, 2, 2});
  assembly({0, 0}, {0, 0, 2});
  assembly({7}, {0, 2});
  assembly({-1}, {0, 2});
  assembly({}, {0});
  assembly({}, {0, 2});
  assembly({0}, {0, 0.5});
  assembly({0, 0}, {-0.5, 0, 0.5});
  assembly({0}, {-0.5, 0.25});
  assembly({0}, {-1, 0.5});
  // core
  core({{0}});
  core({{0, 1}});
  core({{1}, {0}});
  core({{0, 2}});
  core({{2}, {0}});
  core({{0, 1}, {1}});
  core({{0, 0}, {2, 2}});
  core({{0, 1}, {1, 0}});
  core({{4}});
  core({{0, -1}});
  core({});
  core({{}});
  coarseGrid(2, 3, 2, 3);
  coarseGrid(2, 3, 0, 3);
  coarseGrid(-2, 3, 2, 3);
  // Assemblies at the start and clearing
  OPS.push_back({"clear", [](Model & m) { m.clear(); return 0; }, [](Ref & r) { r = Ref{}; return 0; }});
  OPS.push_back({"material", [](Model & m) { return int(m.addMaterial(materials()[m.materials().size() % 7])); }, [](Ref & r) { return r.mats++; }});
}

void
step(Model & m, Ref & r, Op const & op, std::string & w)
{
  w += " " + op.name;
  Ref next = r;
  int const want = op.ref(next);
  if (want == -2) {
    return;
  }
  long const before = mc::outputSize();
  int const got = op.lib(m);
  bool const complained = mc::outputSize() != before;
  MC_CHECK(got == want, "returned-id", "%s: %d, expected %d", w.c_str(), got, want);
  MC_CHECK(complained == (want < 0), want < 0 ? "no-error" : "error", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
  if (want >= 0) {
    r = next;
  }
  compare(m, r, w);
  mc::transition();
}

struct Start {
  Model m;
  Ref r;
  std::string w;
};

Start const &
start(size_t k)
{
  static std::map<size_t, Start> cache;
  auto it = cache.find(k);
  if (it == cache.end()) {
    Start s;
    s.m.addMaterial(materials()[0]);
    s.m.addMaterial(materials()[1]);
    s.r.mats = 2;
    s.w = mc::fmt("start %zu:", k);
    for (auto const & name : STARTS[k]) {
      bool found = false;
      for (auto const & op : OPS) {
        if (op.name == name) {
          step(s.m, s.r, op, s.w);
          found = true;
        }
      }
      MC_CHECK(found, "harness", "no operation %s", name.c_str());
    }
    it = cache.emplace(k, s).first;
  }
  return it->second;
}

void
history(u64 index, size_t k, int depth, u64 nops)
{
  mc::Dec d(index);
  Model m = start(k).m;
  Ref r = start(k).r;
  std::string w = mc::fmt("start %zu:", k);
  for (int s = 0; s < depth; ++s) {
    step(m, r, OPS[size_t(d.get(nops))], w);
  }
  mc::state(stateOf(r));
  mc::trace();
}

void
setup()
{
  um2::logger::exit_on_error = false;
  um2::logger::level = 2;
  menu();
  u64 const n = OPS.size();
  for (size_t k = 0; k < STARTS.size(); ++k) {
    int const depth = static_cast<int>(k == 0 || k == 4 ? 3 : mc::pick(2, 3));
    mc::space(mc::fmt("from-%zu-depth-%d", k, depth), mc::ipow(n, depth), [=](u64 i) { history(i, k, depth, n); });
  }
}
} // namespace

MC_MAIN(setup)
