// C30: CAD pins, lattices of pins and coarse grids laid over CAD models.
#include "cad.hpp"
#include "modelgen.hpp"

namespace
{
using namespace cad;
double const PI = std::acos(-1.0);

um2::Material
mat(int k)
{
  return material(std::string(1, char('A' + k)), 250 - 40 * k, 15 + 50 * k, 7 * k + 1);
}
std::string
matName(int k)
{
  return mc::fmt("Material_%c", 'A' + k);
}

// One region of a result: amount and first moments
struct Sum {
  double m = 0, x = 0, y = 0, z = 0;
  void
  add(double a, double cx, double cy, double cz)
  {
    m += a;
    x += a * cx;
    y += a * cy;
    z += a * cz;
  }
  bool
  near(Sum const & o) const
  {
    double const tol = 1e-6 * (1 + std::abs(o.m) * 10);
    return std::abs(m - o.m) < tol && std::abs(x - o.x) < tol && std::abs(y - o.y) < tol && std::abs(z - o.z) < tol;
  }
};

// Pins ---------------------------------------------------------------------------------------------
struct Ring {
  double x, y, r0, r1;
  int m;
};

um2::Vector<Float>
floats(std::vector<double> const & v)
{
  um2::Vector<Float> r;
  for (double x : v) {
    r.push_back(x);
  }
  return r;
}

um2::Vector<um2::Material>
mats(std::vector<int> const & v)
{
  um2::Vector<um2::Material> r;
  for (int k : v) {
    r.push_back(mat(k));
  }
  return r;
}

// The tags are the regions of the rings, no other region exists
void
checkRings(std::string const & w, std::vector<Ring> const & want, std::vector<int> tags)
{
  char const * const t = w.c_str();
  MC_REQUIRE(tags.size() == want.size(), "count", "%s: %zu regions, expected %zu", t, tags.size(), want.size());
  auto const all = entities(2);
  MC_CHECK(all.size() == want.size(), "entities", "%s: the model has %zu regions, expected %zu", t, all.size(), want.size());
  std::sort(tags.begin(), tags.end());
  MC_REQUIRE(std::unique(tags.begin(), tags.end()) == tags.end(), "tags", "%s: a region is returned twice", t);
  std::vector<bool> taken(want.size(), false);
  for (int e : tags) {
    mc::transition(1);
    double const a = mass(2, e);
    auto const c = centre(2, e);
    double b[6];
    gmm::getBoundingBox(2, e, b[0], b[1], b[2], b[3], b[4], b[5]);
    Names const g = groupsOf(2, e);
    bool ok = false;
    for (size_t i = 0; i < want.size() && !ok; ++i) {
      Ring const & r = want[i];
      if (taken[i] || std::abs(a - PI * (r.r1 * r.r1 - r.r0 * r.r0)) > 1e-6 || std::abs(c[0] - r.x) > 1e-6 || std::abs(c[1] - r.y) > 1e-6 || std::abs(c[2]) > 1e-6 || std::abs(b[0] - r.x + r.r1) > 1e-5 ||
          std::abs(b[4] - r.y - r.r1) > 1e-5) {
        continue;
      }
      ok = taken[i] = true;
      MC_CHECK(g == Names{matName(r.m)}, "material", "%s: ring %g-%g at (%g,%g) is in %s, expected %s", t, r.r0, r.r1, r.x, r.y, str(g).c_str(), matName(r.m).c_str());
      auto const col = color(2, e);
      auto const m = mat(r.m).getColor();
      MC_CHECK(col[0] == m.r() && col[1] == m.g() && col[2] == m.b() && col[3] == m.a(), "colour", "%s: ring %g-%g at (%g,%g) is coloured %d %d %d %d", t, r.r0, r.r1, r.x, r.y, col[0], col[1], col[2], col[3]);
    }
    MC_CHECK(ok, "region", "%s: unexpected region of area %.9g at (%g,%g) reaching (%g,%g)", t, a, c[0], c[1], b[3], b[4]);
  }
  mc::trace(1);
}

std::vector<double> const R4 = {0.25, 0.375, 0.5, 0.75};

struct Pin {
  std::vector<double> radii;
  std::vector<int> mats;
};

void
rings(Pin const & p, double x, double y, std::vector<Ring> & out)
{
  for (size_t i = 0; i < p.radii.size(); ++i) {
    out.push_back({x, y, i == 0 ? 0 : p.radii[i - 1], p.radii[i], p.mats[i]});
  }
}

std::string
show(Pin const & p)
{
  std::string s;
  for (size_t i = 0; i < p.radii.size(); ++i) {
    s += mc::fmt(" %g:%c", p.radii[i], 'A' + p.mats[i]);
  }
  return s;
}

void
onePin(Pin const & p, double x, double y, std::vector<Ring> & want, std::vector<int> & tags, std::string & w)
{
  w += mc::fmt(" pin at (%g,%g)%s", x, y, show(p).c_str());
  um2::Vec2F c;
  c[0] = x;
  c[1] = y;
  auto const got = gmm::occ::addCylindricalPin2D(c, floats(p.radii), mats(p.mats));
  for (auto t : got) {
    tags.push_back(t);
  }
  rings(p, x, y, want);
}

Pin
pinOf(int mask, int m)
{
  Pin p;
  for (int i = 0; i < 4; ++i) {
    if (((mask >> i) & 1) != 0) {
      p.radii.push_back(R4[size_t(i)]);
      p.mats.push_back(m % 3);
      m /= 3;
    }
  }
  return p;
}

void
lattice(mg::Ids const & ids, std::vector<std::array<double, 2>> const & ext, std::vector<Pin> const & pins, double ox, double oy)
{
  std::string w = mc::fmt("lattice %s offset (%g,%g)", mg::str(ids).c_str(), ox, oy);
  um2::Vector<um2::Vec2F> e;
  um2::Vector<um2::Vector<Float>> r;
  um2::Vector<um2::Vector<um2::Material>> m;
  for (size_t i = 0; i < pins.size(); ++i) {
    um2::Vec2F v;
    v[0] = ext[i][0];
    v[1] = ext[i][1];
    e.push_back(v);
    r.push_back(floats(pins[i].radii));
    m.push_back(mats(pins[i].mats));
    w += mc::fmt(", %gx%g%s", ext[i][0], ext[i][1], show(pins[i]).c_str());
  }
  fresh();
  mc::state(mc::hashStr(w));
  um2::Vec2F o;
  o[0] = ox;
  o[1] = oy;
  auto const got = gmm::occ::addCylindricalPinLattice2D(mg::vec(ids), e, r, m, o);
  std::vector<Ring> want;
  double y = oy;
  for (size_t row = ids.size(); row-- > 0;) {
    double x = ox;
    for (int id : ids[row]) {
      rings(pins[size_t(id)], x + ext[size_t(id)][0] / 2, y + ext[size_t(id)][1] / 2, want);
      x += ext[size_t(id)][0];
    }
    y += ext[size_t(ids[row][0])][1];
  }
  std::vector<int> tags;
  for (auto t : got) {
    tags.push_back(t);
  }
  checkRings(w, want, tags);
}

// Coarse grids -------------------------------------------------------------------------------------
struct Solid {
  double lo[3], hi[3];
  int m;
  bool labelled;
};

// First place of every cell
std::map<int, mg::Placed>
firstPlaces(mg::Spec const & s)
{
  std::map<int, mg::Placed> r;
  for (auto const & p : mg::place(s).faces) {
    r.emplace(p.cell, p);
  }
  return r;
}

void
overlay(std::string const & w, mg::Spec const & s, std::vector<Solid> const & shapes, int dim, int fill)
{
  char const * const t = w.c_str();
  um2::mpact::Model model;
  MC_REQUIRE(mg::build(s, model) == 0, "generator", "%s: the model was not accepted", t);
  fresh();
  std::map<int, std::vector<int>> by;
  std::vector<int> labelled;
  for (auto const & x : shapes) {
    int const e = dim == 2 ? gmm::occ::addRectangle(x.lo[0], x.lo[1], 0, x.hi[0] - x.lo[0], x.hi[1] - x.lo[1])
                           : gmm::occ::addBox(x.lo[0], x.lo[1], x.lo[2], x.hi[0] - x.lo[0], x.hi[1] - x.lo[1], x.hi[2] - x.lo[2]);
    by[x.m].push_back(e);
    if (x.labelled) {
      labelled.push_back(e);
    }
  }
  gmm::occ::synchronize();
  for (auto const & [m, tags] : by) {
    gmm::addPhysicalGroup(dim, tags, -1, matName(m));
    Pairs p;
    for (int e : tags) {
      p.emplace_back(dim, e);
    }
    auto const c = mat(m).getColor();
    gmm::setColor(p, c.r(), c.g(), c.b(), c.a(), true);
  }
  if (!labelled.empty()) {
    gmm::addPhysicalGroup(dim, labelled, -1, "Label");
  }
  mc::state(mc::hashStr(w));
  gmm::occ::overlayCoarseGrid(model, mat(fill));
  // what there is
  MC_CHECK(entities(3).empty(), "dimension", "%s: the result has volumes", t);
  std::map<std::string, Sum> got;
  for (int e : entities(2)) {
    mc::transition(1);
    Names const g = groupsOf(2, e);
    auto const c = centre(2, e);
    int cells = 0;
    int materials = 0;
    for (auto const & n : g) {
      cells += n.starts_with("Coarse_Cell_") ? 1 : 0;
      if (n.starts_with("Material_")) {
        ++materials;
        auto const col = color(2, e);
        auto const m = mat(n.back() - 'A').getColor();
        MC_CHECK(col[0] == m.r() && col[1] == m.g() && col[2] == m.b() && col[3] == m.a(), "colour", "%s: region %s is coloured %d %d %d %d", t, str(g).c_str(), col[0], col[1], col[2], col[3]);
      }
    }
    MC_CHECK(cells == 1 && materials == 1, "labels", "%s: a region at (%g,%g,%g) is in %s", t, c[0], c[1], c[2], str(g).c_str());
    got[str(g)].add(mass(2, e), c[0], c[1], c[2]);
  }
  // what there should be, by quarter cells
  std::map<std::string, Sum> want;
  for (auto const & [id, p] : firstPlaces(s)) {
    double const wd = double(mg::widthOf(s.cells[size_t(id)]));
    double const ht = double(mg::heightOf(s.cells[size_t(id)]));
    double const z = double(p.z);
    for (double x = double(p.offset.x) + 0.125; x < double(p.offset.x) + wd; x += 0.25) {
      for (double y = double(p.offset.y) + 0.125; y < double(p.offset.y) + ht; y += 0.25) {
        int m = fill;
        bool l = false;
        for (auto const & b : shapes) {
          bool const inside = b.lo[0] < x && x < b.hi[0] && b.lo[1] < y && y < b.hi[1] && (dim == 2 || (b.lo[2] < z + 0.01 && z + 0.01 < b.hi[2]));
          if (inside) {
            m = b.m;
            l = b.labelled;
          }
        }
        Names g{mc::fmt("Coarse_Cell_%05d", id), matName(m)};
        if (l) {
          g.insert("Label");
        }
        want[str(g)].add(0.0625, x, y, z);
      }
    }
  }
  for (auto const & [g, x] : want) {
    Sum const y = got.count(g) != 0 ? got[g] : Sum();
    MC_CHECK(y.near(x), "region", "%s: %s measures %.9g about (%g,%g,%g), expected %.9g about (%g,%g,%g)", t, g.c_str(), y.m, y.x / y.m, y.y / y.m, y.z / y.m, x.m, x.x / x.m, x.y / x.m, x.z / x.m);
  }
  for (auto const & [g, x] : got) {
    MC_CHECK(want.count(g) != 0, "extra", "%s: unexpected region %s of %.9g", t, g.c_str(), x.m);
  }
  mc::trace(1);
}

// Disjoint shapes over [0,6)x[0,6); z layers in 3-D
std::vector<Solid>
shapesOf(int kind, int fill)
{
  std::vector<Solid> s;
  switch (kind) {
  case 0: // one that covers everything
    s = {{{-1, -1, -9}, {9, 9, 9}, 0, false}};
    break;
  case 1: // one in the middle of things
    s = {{{0.5, 0.25, -9}, {1.5, 2, 9}, 1, true}};
    break;
  case 2: // two apart, reaching out of the grid
    s = {{{-0.5, 0.5, -9}, {0.75, 1.5, 9}, 0, false}, {{1.25, -2, -9}, {4, 4, 9}, 1, true}};
    break;
  case 3: // two that touch, one outside the grid
    s = {{{0, 0, -9}, {0.5, 6, 9}, 2, true}, {{0.5, 0, -9}, {1.75, 1.5, 9}, 0, false}, {{20, 20, -9}, {21, 21, 9}, 1, false}};
    break;
  default: // layers
    s = {{{0, 0, -9}, {3, 3, 0.75}, 1, false}, {{0, 0, 0.75}, {3, 3, 2.75}, 0, true}, {{0.5, 0.5, 2.75}, {3, 3, 9}, 2, false}};
  }
  if (fill == 1) { // some of it is made of the fill material already
    s.back().m = 3;
  }
  return s;
}

bool
everyCell(mg::Spec const & s)
{
  return firstPlaces(s).size() == s.cells.size();
}

void
setup()
{
  um2::logger::level = 1;
  um2::logger::exit_on_error = false;
  mc::space("pins", 16 * 81 * 4, [](u64 i) {
    mc::Dec d(i);
    int const mask = d.geti(16);
    int const m = d.geti(81);
    int const where = d.geti(4);
    int const n = __builtin_popcount(unsigned(mask));
    if (n == 0 || u64(m) >= mc::ipow(3, unsigned(n))) {
      return;
    }
    fresh();
    std::vector<Ring> want;
    std::vector<int> tags;
    std::string w;
    static double const at[4][2] = {{0, 0}, {1.25, -0.5}, {-3, 2}, {0.125, 0.75}};
    onePin(pinOf(mask, m), at[where][0], at[where][1], want, tags, w);
    mc::state(mc::hashStr(w));
    // from the inside out
    double last = 0;
    for (size_t k = 0; k < tags.size(); ++k) {
      double b[6];
      gmm::getBoundingBox(2, tags[k], b[0], b[1], b[2], b[3], b[4], b[5]);
      MC_CHECK(b[3] - b[0] > last, "order", "%s: the regions are not returned from the inside out", w.c_str());
      last = b[3] - b[0];
    }
    checkRings(w, want, tags);
  });
  mc::space("more-pins", 15 * 15 * 9 * 2, [](u64 i) {
    mc::Dec d(i);
    int const a = d.geti(15) + 1;
    int const b = d.geti(15) + 1;
    int const m = d.geti(9);
    int const third = d.geti(2);
    fresh();
    std::vector<Ring> want;
    std::vector<int> tags;
    std::string w;
    static int const M[9] = {0, 1, 5, 14, 22, 47, 66, 80, 35};
    onePin(pinOf(a, M[m]), 0, 0, want, tags, w);
    onePin(pinOf(b, M[(m + 4) % 9]), 2, 0.5, want, tags, w);
    if (third == 1) {
      onePin(pinOf(a, M[(m * 2 + 1) % 9]), -0.25, 3, want, tags, w);
    }
    mc::state(mc::hashStr(w));
    checkRings(w, want, tags);
  });
  static std::vector<Pin> const PINS = {{{0.375}, {0}}, {{0.25, 0.5}, {1, 0}}, {{}, {}}, {{0.125, 0.375, 0.4375}, {0, 2, 1}}};
  // rows x columns with up to six positions of three kinds of pins (one of them empty)
  static int const SHAPES[10][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {1, 5}, {5, 1}};
  for (auto const & shape : SHAPES) {
    int const r = shape[0];
    int const c = shape[1];
    u64 const kinds = r * c > 4 ? 3 : 4;
    mc::space(mc::fmt("lattice-%dx%d", r, c), mc::ipow(kinds, unsigned(r * c)), [r, c, kinds](u64 i) {
      auto const ids = mg::mapOf(i, r, c, int(kinds));
      lattice(ids, {{1, 1.25}, {1, 1.25}, {1, 1.25}, {1, 1.25}}, PINS, i % 2 == 0 ? 0 : -1.5, i % 3 == 0 ? 0 : 2.25);
    });
  }
  mc::space("lattice-3x3", 512, [](u64 i) { lattice(mg::mapOf(i, 3, 3, 2), {{1.125, 1.125}, {1.125, 1.125}}, {PINS[1], PINS[3]}, 0, 1); });
  // columns and rows of different sizes: the pin of a position depends on its column and row
  mc::space("lattice-sizes", 8 * 8 * 4, [](u64 i) {
    mc::Dec d(i);
    int const cols = d.geti(8);
    int const rows = d.geti(8);
    int const size = d.geti(4);
    static double const E[4][2][2] = {{{1, 2}, {1, 2}}, {{1.5, 1}, {1, 1.25}}, {{2, 1.125}, {1.75, 1}}, {{1, 1}, {3, 2}}};
    mg::Ids ids;
    for (int r = 0; r < 3; ++r) {
      ids.emplace_back();
      for (int c = 0; c < 3; ++c) {
        ids.back().push_back(((cols >> c) & 1) + 2 * ((rows >> r) & 1));
      }
    }
    std::vector<std::array<double, 2>> ext;
    for (int k = 0; k < 4; ++k) {
      ext.push_back({E[size][0][k % 2], E[size][1][k / 2]});
    }
    lattice(ids, ext, {PINS[3], PINS[1], PINS[0], PINS[2]}, 0.5, 0);
  });

  // grids over two-dimensional models
  mc::space("grid", 256 * 5 * 3, [](u64 i) {
    mc::Dec d(i);
    int const kind = d.geti(5) % 4;
    int const fill = d.geti(3);
    auto const ids = mg::mapOf(d.get(256), 2, 2, 4);
    mg::Spec s = mg::base();
    s.rtms = {ids};
    s.lats = {{{0}}};
    mg::prune(s);
    if (i % 5 == 4 || !everyCell(s)) {
      return;
    }
    // the fill is new, already there, or named before the others
    auto const shapes = shapesOf(kind, fill);
    overlay(mc::fmt("grid %s over shapes %d, fill %d", mg::str(ids).c_str(), kind, fill), s, shapes, 2, fill == 2 ? 0 : 3);
  });
  // cells of different sizes, modules, lattices and assemblies
  mc::space("grid-levels", 81 * 4 * 4, [](u64 i) {
    mc::Dec d(i);
    int const kind = d.geti(4);
    int const level = d.geti(4);
    auto const ids = mg::mapOf(d.get(81), 2, 2, 3);
    mg::Spec s = mg::base();
    if (level == 0) { // modules in a lattice
      s.lats = {ids};
    } else if (level == 1) { // lattices through assemblies in a core
      s.lats = {{{0}}, {{1}}, {{2}}};
      s.asys = {{{0}, {}}, {{1}, {}}, {{2}, {}}};
      s.core = ids;
    } else if (level == 2) { // modules of cells of different widths
      s.cells = {{1, 2, 1, 0, {0}}, {1, 1, 1, 0, {1}}, {0, 2, 1, 0, {1}}};
      if (mg::widthOf(s.cells[size_t(ids[0][0])]) != mg::widthOf(s.cells[size_t(ids[1][0])]) || mg::widthOf(s.cells[size_t(ids[0][1])]) != mg::widthOf(s.cells[size_t(ids[1][1])])) {
        return;
      }
      s.rtms = {ids};
      s.lats = {{{0}}};
    } else { // cells of different heights, modules in a lattice, in a core of two assemblies
      s.cells = {{1, 1, 2, 0, {0}}, {1, 1, 1, 0, {1}}, {1, 1, 1, 0, {2}}, {1, 1, 2, 0, {2}}};
      s.rtms = {{{0}, {1}}, {{3}, {2}}};
      s.lats = {{{ids[0][0] % 2, ids[0][1] % 2}}, {{ids[1][0] % 2, ids[1][1] % 2}}};
      s.asys = {{{0}, {}}, {{1}, {}}};
      s.core = {{0, 1}};
    }
    s.name = mg::str(ids);
    mg::prune(s);
    if (!everyCell(s)) {
      return;
    }
    overlay(mc::fmt("level %d, map %s over shapes %d", level, mg::str(ids).c_str(), kind), s, shapesOf(kind, int(i % 2)), 2, 3);
  });
  // pins cut by a grid
  mc::space("grid-pins", 3 * 3 * 2, [](u64 i) {
    mc::Dec d(i);
    int const a = d.geti(3);
    int const n = d.geti(3) + 1;
    int const whole = d.geti(2);
    std::string const w = mc::fmt("row of %d pins %d cut %s", n, a, whole == 1 ? "between pins" : "through pins");
    Pin const & p = a == 2 ? PINS[3] : PINS[size_t(a)];
    mg::Spec s = mg::base();
    s.cells.clear();
    // pin cells of 1x1, or pin cells of 2x2 (scaled) made of four cells
    int const per = whole == 1 ? 1 : 2;
    double const size = per;
    mg::Ids ids(static_cast<size_t>(per));
    for (int y = 0; y < per; ++y) {
      for (int x = 0; x < n * per; ++x) {
        ids[size_t(per - 1 - y)].push_back(int(s.cells.size()));
        s.cells.push_back({1, 1, 1, 0, {0}});
      }
    }
    s.rtms = {ids};
    s.lats = {{{0}}};
    um2::mpact::Model model;
    MC_REQUIRE(mg::build(s, model) == 0, "generator", "%s: the model was not accepted", w.c_str());
    fresh();
    um2::Vector<um2::Vec2F> e;
    um2::Vec2F v;
    v[0] = v[1] = size;
    e.push_back(v);
    um2::Vector<um2::Vector<Float>> r;
    r.push_back(floats(p.radii));
    um2::Vector<um2::Vector<um2::Material>> m;
    m.push_back(mats(p.mats));
    gmm::occ::addCylindricalPinLattice2D(mg::vec({std::vector<int>(size_t(n), 0)}), e, r, m);
    mc::state(mc::hashStr(w));
    gmm::occ::overlayCoarseGrid(model, mat(3));
    std::map<std::string, double> got;
    for (int x : entities(2)) {
      mc::transition(1);
      got[str(groupsOf(2, x))] += mass(2, x);
    }
    std::map<std::string, double> want;
    for (size_t c = 0; c < s.cells.size(); ++c) {
      double rest = 1;
      for (size_t k = 0; k < p.radii.size(); ++k) {
        double const r0 = k == 0 ? 0 : p.radii[k - 1];
        double const area = PI * (p.radii[k] * p.radii[k] - r0 * r0) / (per * per);
        rest -= area;
        want[str({mc::fmt("Coarse_Cell_%05zu", c), matName(p.mats[k])})] += area;
      }
      want[str({mc::fmt("Coarse_Cell_%05zu", c), matName(3)})] += rest;
    }
    for (auto const & [g, x] : want) {
      MC_CHECK(std::abs(got[g] - x) < 1e-6, "pin-region", "%s: %s measures %.9g, expected %.9g", w.c_str(), g.c_str(), got[g], x);
    }
    MC_CHECK(got.size() == want.size(), "pin-extra", "%s: %zu kinds of regions, expected %zu", w.c_str(), got.size(), want.size());
    mc::trace(1);
  });
  // grids over solids: assemblies of one to three lattices
  mc::space("grid-solid", 5 * 27 * 3 * 2, [](u64 i) {
    mc::Dec d(i);
    int const kind = d.geti(5);
    int const m = d.geti(27);
    int const heights = d.geti(3);
    int const two = d.geti(2);
    mg::Spec s = mg::base();
    s.lats = {{{0, 1}}, {{2, 0}}, {{3, 1}}};
    static std::vector<double> const Z[3] = {{0, 1, 3, 4}, {0, 2, 2.5, 5}, {0, 0.5, 4.5, 6}};
    std::vector<int> const l = {m % 3, m / 3 % 3, m / 9};
    s.asys = {{l, Z[heights]}};
    if (two == 1) {
      s.asys.push_back({{l[2], (l[1] + 1) % 3, l[0]}, Z[heights]});
      s.core = {{0, 1}};
    }
    mg::prune(s);
    if (!everyCell(s)) {
      return;
    }
    overlay(mc::fmt("assembly of lattices %d %d %d heights %d over solids %d, %d assemblies", l[0], l[1], l[2], heights, kind, two + 1), s, shapesOf(kind, int(i / 5 % 2)), 3, 3);
  });
}
} // namespace

MC_MAIN(setup)
