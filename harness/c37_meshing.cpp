// C37: CAD models are meshed with the requested elements at the requested sizes.
#include "cad.hpp"

#include <um2/gmsh/mesh.hpp>
#include <um2/mesh/element_types.hpp>
#include <um2/mesh/polytope_soup.hpp>

extern "C" {
#include <gmshc.h>
}
#include <unistd.h>

// The Gmsh library installed here crashes in its frontal algorithm for quadrilaterals (8) on any input, so the
// plain frontal algorithm (6) stands in for it; recombination and subdivision still make the quadrilaterals
namespace gmsh::option
{
void
setNumber(std::string const & name, double const value)
{
  int ierr = 0;
  gmshOptionSetNumber(name.c_str(), name == "Mesh.Algorithm" && value == 8 ? 6 : value, &ierr);
  if (ierr != 0) {
    throw std::runtime_error("unknown option " + name);
  }
}
} // namespace gmsh::option

namespace
{
using namespace cad;
namespace mesh = um2::gmsh::model::mesh;
using um2::MeshType;

double const PI = std::acos(-1.0);

struct Rect {
  double x0, y0, x1, y1;
};
std::vector<std::vector<Rect>> const ARRANGEMENTS = {
    {{0, 0, 2, 2}},
    {{0, 0, 1, 1}, {1, 0, 3, 1}},
    {{0, 0, 1, 1}, {1, 0, 2, 1}, {2, 0, 4, 1}},
    {{0, 0, 1, 1}, {1, 0, 2, 1}, {0, 1, 1, 2}, {1, 1, 2, 2}},
};

// Materials: moderator, fuel, absorber, thin absorber (not one by definition), weak absorber (not one), fuel
struct Data {
  char const * name;
  double t, s;
  bool fissile;
};
Data const POOL[] = {{"Water", 1.2, 1.1, false}, {"Fuel", 0.6, 0.35, true},  {"Rod", 2.0, 0.1, false},
                     {"Thin", 0.8, 0.04, false}, {"Weak", 1.5, 0.45, false}, {"Fuel2", 1.1, 0.1, true}};
bool
absorber(int k)
{
  return POOL[k].s / POOL[k].t < 0.2 && POOL[k].t > 0.9;
}

// groups with the prescribed one-group averages
um2::Material
materialOf(int k, int groups)
{
  um2::Material m = material(POOL[k].name, 20 * k + 5, 9, 100 - k);
  um2::XSec x(groups);
  x.isMacro() = true;
  x.isFissile() = POOL[k].fissile;
  for (Int g = 0; g < groups; ++g) {
    double const f = groups == 1 ? 1 : (g == 0 ? 0.5 : (g == 1 ? 1.5 : 1.0));
    double const s = POOL[k].s * f;
    x.a()[g] = POOL[k].t * f - s;
    if (POOL[k].fissile) {
      x.f()[g] = 0.1;
      x.nuf()[g] = 0.25;
    }
    for (Int h = 0; h < groups; ++h) {
      x.ss()(h, g) = s / groups;
    }
    x.s()[g] = s;
  }
  m.xsec() = x;
  return m;
}

struct Shape {
  int tag;
  Rect r;
  int mat;
};

// Draws the rectangles and labels them; the groups are made in the given order of materials
std::vector<Shape>
draw(std::vector<Rect> const & rs, std::vector<int> const & mats, std::vector<int> const & order, bool extra)
{
  fresh();
  Pairs objects;
  for (auto const & r : rs) {
    objects.emplace_back(2, gmm::occ::addRectangle(r.x0, r.y0, 0, r.x1 - r.x0, r.y1 - r.y0));
  }
  if (objects.size() > 1) {
    Pairs out;
    std::vector<Pairs> map;
    gmm::occ::fragment(objects, {}, out, map);
  }
  gmm::occ::synchronize();
  std::vector<Shape> shapes;
  for (int t : entities(2)) {
    auto const c = centre(2, t);
    for (size_t i = 0; i < rs.size(); ++i) {
      if (c[0] > rs[i].x0 && c[0] < rs[i].x1 && c[1] > rs[i].y0 && c[1] < rs[i].y1) {
        shapes.push_back({t, rs[i], mats[i]});
      }
    }
  }
  for (int k : order) {
    std::vector<int> tags;
    for (auto const & s : shapes) {
      if (s.mat == k) {
        tags.push_back(s.tag);
      }
    }
    gmm::addPhysicalGroup(2, tags, -1, std::string("Material_") + POOL[k].name);
    if (extra) {
      gmm::addPhysicalGroup(2, tags, -1, std::string("Other_") + POOL[k].name);
    }
  }
  return shapes;
}

double
distRect(Rect const & r, double x, double y)
{
  double const dx = std::max({r.x0 - x, 0.0, x - r.x1});
  double const dy = std::max({r.y0 - y, 0.0, y - r.y1});
  return std::hypot(dx, dy);
}
double
distBoundary(Rect const & r, double x, double y)
{
  double const d = distRect(r, x, y);
  if (d > 0) {
    return d;
  }
  return std::max(0.0, std::min({x - r.x0, r.x1 - x, y - r.y0, r.y1 - y}));
}

struct Options {
  double kn = 1;
  double fuel = -1, fuel_scale = -1;
  double rod = -1, rod_scale = -1;
};

// Smallest and largest size that may be prescribed for a material at a point; distances are measured by the
// CAD kernel to sample points of the shapes, so they may be too large by up to the sample spacing
void
sizeRange(std::vector<Shape> const & shapes, int k, Options const & o, double x, double y, double & lo, double & hi)
{
  double const base = 12 / (PI * std::sqrt(3.0) * o.kn * POOL[k].t);
  lo = base;
  hi = base;
  double d = 1e9;
  double slack = 0.12;
  double thr = -1;
  double scale = -1;
  if (o.fuel >= 0 && !POOL[k].fissile && !absorber(k)) {
    thr = o.fuel;
    scale = o.fuel_scale;
    for (auto const & s : shapes) {
      if (POOL[s.mat].fissile) {
        d = std::min(d, distRect(s.r, x, y));
      }
    }
  } else if (o.rod >= 0 && absorber(k)) {
    thr = o.rod;
    scale = o.rod_scale;
    for (auto const & s : shapes) {
      if (s.mat == k) {
        d = std::min(d, distBoundary(s.r, x, y));
      }
    }
  }
  if (thr >= 0) {
    auto const at = [&](double q) { return std::max(base, base * (POOL[k].t * scale * q + 1 - thr * scale)); };
    lo = at(d) - 1e-5;
    hi = at(d + slack) + 1e-5;
  } else {
    lo -= 1e-9;
    hi += 1e-9;
  }
}

struct Sample {
  int dim, tag;
  double x, y, lc;
};

std::vector<int>
surfacesOf(int dim, int tag)
{
  std::set<int> r;
  if (dim == 2) {
    return {tag};
  }
  std::vector<int> up;
  std::vector<int> down;
  gmm::getAdjacencies(dim, tag, up, down);
  for (int t : up) {
    if (dim == 1) {
      r.insert(t);
    } else {
      for (int u : surfacesOf(1, t)) {
        r.insert(u);
      }
    }
  }
  return {r.begin(), r.end()};
}

MeshType const KINDS[4] = {MeshType::Tri, MeshType::Quad, MeshType::QuadraticTri, MeshType::QuadraticQuad};
int const GMSH_TYPE[4] = {2, 3, 9, 16}; // 3, 4, 6 and 8 nodes

// Element types and area of the mesh of a surface
void
checkElements(std::vector<Shape> const & shapes, int kind, std::string const & w)
{
  double least = 1e9;
  for (auto const & s : shapes) {
    std::vector<int> types;
    std::vector<std::vector<std::size_t>> tags;
    std::vector<std::vector<std::size_t>> nodes;
    mesh::getElements(types, tags, nodes, 2, s.tag);
    MC_CHECK(types.size() == 1 && types[0] == GMSH_TYPE[kind], "type", "%s: surface %d has %zu types, first %d, expected only %d", w.c_str(), s.tag,
             types.size(), types.empty() ? -1 : types[0], GMSH_TYPE[kind]);
    (void)least;
  }
}

// The mesh through a file: every set holds elements of the requested type that cover its shapes
void
checkFile(std::vector<Shape> const & shapes, int kind, std::string const & w)
{
  std::string const path = mc::scratch() + "/mesh.inp";
  gm::write(path);
  um2::PolytopeSoup soup;
  soup.read(um2::String(path.c_str()));
  unlink(path.c_str());
  static um2::VTKElemType const VT[4] = {um2::VTKElemType::Triangle, um2::VTKElemType::Quad, um2::VTKElemType::QuadraticTriangle,
                                         um2::VTKElemType::QuadraticQuad};
  std::map<int, double> area;
  for (auto const & s : shapes) {
    area[s.mat] += (s.r.x1 - s.r.x0) * (s.r.y1 - s.r.y0);
  }
  for (auto const & a : area) {
    um2::Vector<Int> ids;
    um2::Vector<Float> data;
    soup.getElset(um2::String((std::string("Material_") + POOL[a.first].name).c_str()), ids, data);
    double got = 0;
    bool inside = true;
    bool type_ok = true;
    for (Int const id : ids) {
      um2::VTKElemType t = um2::VTKElemType::Invalid;
      um2::Vector<Int> conn;
      soup.getElement(id, t, conn);
      type_ok = type_ok && t == VT[kind];
      int const n = kind % 2 == 0 ? 3 : 4;
      double tw = 0;
      double cx = 0;
      double cy = 0;
      for (int k = 0; k < n; ++k) {
        auto const p = soup.getVertex(conn[k]);
        auto const q = soup.getVertex(conn[(k + 1) % n]);
        tw += double(p[0]) * double(q[1]) - double(q[0]) * double(p[1]);
        cx += double(p[0]) / n;
        cy += double(p[1]) / n;
      }
      got += std::abs(tw) / 2;
      bool in = false;
      for (auto const & s : shapes) {
        in = in || (s.mat == a.first && distRect(s.r, cx, cy) == 0);
      }
      inside = inside && in;
    }
    MC_CHECK(type_ok, "file-type", "%s: %s has other elements", w.c_str(), POOL[a.first].name);
    MC_CHECK(std::abs(got - a.second) < 1e-9 && inside, "file-area", "%s: %s covers %.12g of %g, inside %d", w.c_str(), POOL[a.first].name, got,
             a.second, int(inside));
    mc::state(mc::hash(mc::hash(u64(ids.size()), u64(kind)), u64(got * 1e6)));
  }
}

bool
logged(long mark)
{
  return mc::outputFrom(mark).find("ERROR") != std::string::npos;
}

std::vector<int>
used(std::vector<int> const & mats)
{
  std::vector<int> u;
  for (int k : mats) {
    if (std::find(u.begin(), u.end(), k) == u.end()) {
      u.push_back(k);
    }
  }
  return u;
}

um2::Vector<um2::Material>
vectorOf(std::vector<int> const & order, int groups)
{
  um2::Vector<um2::Material> v;
  for (int k : order) {
    v.push_back(materialOf(k, groups));
  }
  return v;
}

// Sizes asked for while the mesh is made
void
knudsen(int arr, std::vector<int> const & mats, int perm, Options const & o, int groups, int kind, bool extra)
{
  auto const & rs = ARRANGEMENTS[size_t(arr)];
  std::vector<int> const order = used(mats);
  std::vector<int> mo = order;
  for (int i = 0; i < perm && std::next_permutation(mo.begin(), mo.end()); ++i) {
  }
  auto const shapes = draw(rs, mats, order, extra);
  std::string w = mc::fmt("arrangement %d materials", arr);
  for (int k : mats) {
    w += mc::fmt(" %s", POOL[k].name);
  }
  w += mc::fmt(" order %d kn %g fuel %g/%g rod %g/%g groups %d kind %d", perm, o.kn, o.fuel, o.fuel_scale, o.rod, o.rod_scale, groups, kind);
  MC_REQUIRE(shapes.size() == rs.size(), "draw", "%s", w.c_str());
  bool any_fuel = false;
  bool any_rod = false;
  for (int k : mats) {
    any_fuel = any_fuel || POOL[k].fissile;
    any_rod = any_rod || absorber(k);
  }
  bool const bad = o.kn <= 0 || (o.fuel >= 0 && !any_fuel) || (o.rod >= 0 && !any_rod);
  long const mark = mc::outputSize();
  int const status = mesh::setMeshFieldFromKnudsenNumber(2, vectorOf(mo, groups), o.kn, o.fuel, o.fuel_scale, o.rod, o.rod_scale);
  mc::transition();
  MC_CHECK((status != 0) == bad && logged(mark) == bad, "status", "%s: returned %d, error reported %d, expected %d", w.c_str(), status,
           int(logged(mark)), int(bad));
  if (bad || status != 0) {
    mc::trace();
    return;
  }
  std::vector<Sample> samples;
  gm::option::setNumber("Mesh.MeshSizeMax", 1e22);
  mesh::setSizeCallback([&](int dim, int tag, double x, double y, double, double lc) {
    samples.push_back({dim, tag, x, y, lc});
    return lc;
  });
  mesh::generateMesh(KINDS[kind], 1);
  mesh::removeSizeCallback();
  std::map<int, int> matOfSurface;
  for (auto const & s : shapes) {
    matOfSurface[s.tag] = s.mat;
  }
  std::map<std::pair<int, int>, std::vector<int>> around;
  std::set<int> dims;
  for (auto const & s : samples) {
    auto it = around.find({s.dim, s.tag});
    if (it == around.end()) {
      it = around.insert({{s.dim, s.tag}, surfacesOf(s.dim, s.tag)}).first;
    }
    double lo = 1e22;
    double hi = 1e22;
    for (int t : it->second) {
      double a = 0;
      double b = 0;
      sizeRange(shapes, matOfSurface[t], o, s.x, s.y, a, b);
      lo = std::min(lo, a);
      hi = std::min(hi, b);
    }
    dims.insert(s.dim);
    if (!(s.lc >= lo && s.lc <= hi)) {
      mc::fail("size", mc::fmt("%s: size %.9g at (%g,%g) of entity %d/%d, expected %.9g to %.9g", w.c_str(), s.lc, s.x, s.y, s.dim, s.tag, lo, hi));
      break;
    }
  }
  MC_CHECK(!samples.empty() && dims.count(1) == 1, "sampled", "%s: no sizes were asked for", w.c_str());
  checkElements(shapes, kind, w);
  checkFile(shapes, kind, w);
  mc::trace();
}

Options
options(int k)
{
  static Options const O[] = {{1, -1, -1, -1, -1},  {4, -1, -1, -1, -1},   {3, 0.5, 1, -1, -1},   {5, 1, 2.5, -1, -1},
                              {5, -1, -1, 0.2, 2},  {3, 0.25, 2, 0.4, 3},  {2, 0, 1, 0, 1},       {0, -1, -1, -1, -1},
                              {-1, -1, -1, -1, -1}, {4, -1, -1, 0.05, 6}};
  return O[k];
}

void
setup()
{
  um2::logger::exit_on_error = false;
  um2::logger::level = 1;

  for (int arr = 0; arr < 4; ++arr) {
    int const n = int(ARRANGEMENTS[size_t(arr)].size());
    int const pool = n == 4 ? 3 : 6;
    u64 const maps = mc::ipow(u64(pool), n);
    mc::space(mc::fmt("sizes-%d", arr), maps * 10, [arr, n, pool](u64 i) {
      mc::Dec d(i);
      int const k = d.geti(10);
      std::vector<int> mats;
      for (int j = 0; j < n; ++j) {
        mats.push_back(d.geti(pool));
      }
      knudsen(arr, mats, int(i / 10 % 3), options(k), 1 + int(i % 3), int(i / 7 % 4), i % 2 == 1);
    });
  }
  // Every order of three materials against every order of their groups
  mc::space("orders", 6 * 6 * 6, [](u64 i) {
    mc::Dec d(i);
    std::vector<int> mats = {0, 1, 2};
    int const p = d.geti(6);
    for (int j = 0; j < p; ++j) {
      std::next_permutation(mats.begin(), mats.end());
    }
    knudsen(2, mats, d.geti(6), options(d.geti(6)), 2, 0, false);
  });
  // Materials and groups that do not match
  mc::space("mismatch", 6, [](u64 i) {
    auto const shapes = draw(ARRANGEMENTS[1], {0, 1}, {0, 1}, false);
    um2::Vector<um2::Material> m = vectorOf({0, 1}, 1);
    switch (i) {
    case 0:
      m.push_back(materialOf(2, 1)); // no such group
      break;
    case 1:
      m.pop_back();
      break;
    case 2:
      m[0] = materialOf(2, 1);
      break;
    case 3:
      m[1] = materialOf(5, 1); // the name of the group is a prefix
      break;
    case 4:
      m[1] = material("Fuel", 1, 2, 3); // no cross section
      break;
    default:
      m.clear();
      break;
    }
    long const mark = mc::outputSize();
    int const status = mesh::setMeshFieldFromKnudsenNumber(2, m, 1.0);
    mc::transition();
    MC_CHECK(status != 0 && logged(mark), "mismatch", "variant %d: returned %d, reported %d", int(i), status, int(logged(mark)));
    mc::trace();
  });
  // One size everywhere
  mc::space("global", 4 * 4 * 6, [](u64 i) {
    mc::Dec d(i);
    int const arr = d.geti(4);
    int const kind = d.geti(4);
    double const size = 0.2 + 0.15 * d.geti(6);
    auto const & rs = ARRANGEMENTS[size_t(arr)];
    std::vector<int> mats;
    for (size_t k = 0; k < rs.size(); ++k) {
      mats.push_back(int(k) % 3);
    }
    auto const shapes = draw(rs, mats, used(mats), false);
    gm::option::setNumber("Mesh.MeshSizeExtendFromBoundary", 1);
    gm::option::setNumber("Mesh.MeshSizeFromPoints", 1);
    std::string const w = mc::fmt("arrangement %d kind %d size %g", arr, kind, size);
    mesh::setGlobalMeshSize(size);
    double lo = 1e9;
    double hi = 0;
    mesh::setSizeCallback([&](int, int, double, double, double, double lc) {
      lo = std::min(lo, lc);
      hi = std::max(hi, lc);
      return lc;
    });
    mesh::generateMesh(KINDS[kind], 1);
    mesh::removeSizeCallback();
    mc::transition();
    MC_CHECK(std::abs(lo - size) < 1e-9, "global", "%s: smallest size asked for %.12g", w.c_str(), lo);
    checkElements(shapes, kind, w);
    checkFile(shapes, kind, w);
    mc::trace();
  });
  // Meshes of different kinds one after another in one session
  mc::space("sequences", mc::pick(64, 256) * 2, [](u64 i) {
    mc::Dec d(i);
    bool const again = d.geti(2) == 1; // mesh the same model again instead of a new one
    std::vector<Shape> shapes;
    int const n = int(mc::pick(3, 4));
    std::string w = again ? "same model:" : "new models:";
    for (int k = 0; k < n; ++k) {
      int const kind = d.geti(4);
      w += mc::fmt(" %d", kind);
      if (k == 0 || !again) {
        shapes = draw(ARRANGEMENTS[1], {0, 1}, {0, 1}, false);
        mesh::setGlobalMeshSize(0.5);
      } else {
        mesh::clear();
      }
      mesh::generateMesh(KINDS[kind], 1);
      mc::transition();
      checkElements(shapes, kind, w);
      checkFile(shapes, kind, w);
    }
    mc::trace();
  });
}
} // namespace
MC_MAIN(setup)
