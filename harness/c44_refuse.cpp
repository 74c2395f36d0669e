// C44: CAD requests that make no sense are reported and leave the model as it was.
#include "cad.hpp"

namespace
{
using namespace cad;

// Everything a caller can see of the model: entities with their measure, groups and colour
std::string
snapshot()
{
  std::string s;
  for (int dim = 0; dim <= 3; ++dim) {
    for (int e : entities(dim)) {
      auto const c = color(dim, e);
      s += mc::fmt("%d/%d %.12g %s %d,%d,%d,%d\n", dim, e, dim == 0 ? 0.0 : mass(dim, e), str(groupsOf(dim, e)).c_str(), c[0], c[1], c[2], c[3]);
    }
  }
  Pairs groups;
  gmm::getPhysicalGroups(groups);
  for (auto const & g : groups) {
    std::string name;
    gmm::getPhysicalName(g.first, g.second, name);
    s += mc::fmt("group %d/%d %s\n", g.first, g.second, name.c_str());
  }
  return s;
}

// Two overlapping squares, a square and two solids apart, with groups and colours
void
scene()
{
  fresh();
  gmm::occ::addRectangle(0, 0, 0, 2, 2, 1);
  gmm::occ::addRectangle(1, 1, 0, 2, 2, 2);
  gmm::occ::addRectangle(1, 0, 0, 3, 1, 3);
  gmm::occ::addBox(10, 0, 0, 2, 2, 2, 1);
  gmm::occ::addBox(11, 1, 1, 2, 2, 2, 2);
  gmm::occ::synchronize();
  gmm::addPhysicalGroup(2, {1, 3}, -1, "Material_A");
  gmm::addPhysicalGroup(2, {2}, -1, "Material_B");
  gmm::addPhysicalGroup(3, {1}, -1, "Material_A");
  gmm::addPhysicalGroup(3, {2}, -1, "Material_B");
  gmm::addPhysicalGroup(1, {1, 2}, -1, "Edges");
  gmm::setColor({{2, 1}, {3, 2}}, 10, 20, 30, 255);
}

void
verdict(std::string const & w, bool valid, u64 mark, std::string const & before, bool threw)
{
  char const * const t = w.c_str();
  bool const reported = mc::outputFrom(mark).find("ERROR") != std::string::npos;
  if (valid) {
    MC_CHECK(!threw && !reported, "refused", "%s: a sensible request was refused", t);
  } else {
    MC_CHECK(reported, "unreported", "%s: not reported", t);
    MC_CHECK(!threw, "thrown", "%s: an exception was thrown", t);
    std::string const after = snapshot();
    size_t k = 0;
    while (k < after.size() && k < before.size() && after[k] == before[k]) {
      ++k;
    }
    k = k == 0 ? 0 : before.rfind('\n', k - 1) + 1; // start of the first line that differs
    MC_CHECK(after == before, "changed", "%s: the model was changed: '%s' was '%s'", t, after.substr(k, after.find('\n', k) - k).c_str(), before.substr(k, before.find('\n', k) - k).c_str());
  }
  mc::trace(1);
}

//==============================================================================
// Combining shapes
//==============================================================================

using Menu = std::vector<std::pair<int, int>>;
Menu const MENU = {{2, 1}, {2, 2}, {2, 3}, {3, 1}, {3, 2}, {1, 1}, {1, 2}};

// All lists of up to two entries of the menu
Pairs
listOf(u64 k)
{
  u64 const n = MENU.size();
  if (k == 0) {
    return {};
  }
  --k;
  if (k < n) {
    return {MENU[k]};
  }
  k -= n;
  if (k < n * n) {
    return {MENU[k % n], MENU[k / n]};
  }
  // three planar shapes
  k -= n * n;
  return {MENU[k % 3], MENU[k / 3 % 3], MENU[k / 9]};
}
u64 const NLIST = 1 + 7 + 49 + 27;

bool
sensible(Pairs const & p)
{
  if (p.empty()) {
    return false;
  }
  for (size_t i = 0; i < p.size(); ++i) {
    if (p[i].first != p[0].first || p[i].first < 2 || (i > 0 && p[i - 1].second >= p[i].second)) {
      return false;
    }
  }
  return true;
}

std::string
show(Pairs const & p)
{
  std::string s = "{";
  for (auto const & x : p) {
    s += mc::fmt(" %d/%d", x.first, x.second);
  }
  return s + " }";
}

void
combine(u64 i)
{
  mc::Dec d(i);
  int const op = d.geti(3);
  Pairs const obj = listOf(d.get(NLIST));
  Pairs const tool = listOf(d.get(NLIST));
  for (auto const & o : obj) {
    // the same shape on both sides is left to the CAD library
    if (std::find(tool.begin(), tool.end(), o) != tool.end()) {
      return;
    }
  }
  bool const valid = sensible(obj) && sensible(tool) && obj[0].first == tool[0].first;
  static char const * const names[] = {"fragment", "intersect", "cut"};
  std::string const w = mc::fmt("%s %s with %s", names[op], show(obj).c_str(), show(tool).c_str());
  scene();
  std::string const before = snapshot();
  u64 const mark = mc::outputSize();
  mc::state(mc::hashStr(w));
  mc::transition(1);
  Pairs out;
  std::vector<Pairs> map;
  bool threw = false;
  try {
    std::vector<um2::Material> const hier = {material("B", 1, 2, 3), material("A", 4, 5, 6)};
    if (op == 0) {
      gmm::occ::groupPreservingFragment(obj, tool, out, map, hier);
    } else if (op == 1) {
      gmm::occ::groupPreservingIntersect(obj, tool, out, map, hier);
    } else {
      gmm::occ::groupPreservingCut(obj, tool, out, map);
    }
  } catch (...) {
    threw = true;
  }
  verdict(w, valid, mark, before, threw);
  if (!valid) {
    MC_CHECK(out.empty() && map.empty(), "answer", "%s: refused, but %zu entities were returned", w.c_str(), out.size());
  }
}

//==============================================================================
// Pins
//==============================================================================

double const RADII[] = {0.2, 0.3, 0.4, 0.0, -0.1};

um2::Vector<Float>
radiiOf(int n, u64 k)
{
  um2::Vector<Float> r;
  for (int i = 0; i < n; ++i) {
    r.emplace_back(RADII[k % 5]);
    k /= 5;
  }
  return r;
}

um2::Vector<um2::Material>
materialsOf(int n)
{
  um2::Vector<um2::Material> m;
  for (int i = 0; i < n; ++i) {
    m.emplace_back(material(std::string(1, char('A' + i)), 10 * i, 20, 30));
  }
  return m;
}

bool
sensible(um2::Vector<Float> const & r, Int nmat)
{
  for (Int i = 0; i < r.size(); ++i) {
    if (r[i] <= (i == 0 ? 0 : r[i - 1])) {
      return false;
    }
  }
  return r.size() == nmat;
}

std::string
show(um2::Vector<Float> const & r)
{
  std::string s = "{";
  for (Float x : r) {
    s += mc::fmt(" %g", x);
  }
  return s + " }";
}

void
pin(u64 i)
{
  mc::Dec d(i);
  int const nmat = d.geti(5);
  u64 k = d.get(156);
  int n = 0;
  for (u64 c = 1; k >= c; c *= 5) {
    k -= c;
    ++n;
  }
  auto const r = radiiOf(n, k);
  std::string const w = mc::fmt("pin with radii %s and %d materials", show(r).c_str(), nmat);
  scene();
  std::string const before = snapshot();
  u64 const mark = mc::outputSize();
  mc::state(mc::hashStr(w));
  mc::transition(1);
  bool threw = false;
  um2::Vector<Int> tags;
  bool const valid = n > 0 && sensible(r, nmat);
  try {
    tags = gmm::occ::addCylindricalPin2D({5, 5}, r, materialsOf(nmat));
  } catch (...) {
    threw = true;
  }
  verdict(w, valid, mark, before, threw);
  MC_CHECK(threw || tags.size() == (valid ? n : 0), "answer", "%s: %d entities were returned", w.c_str(), tags.size());
}

//==============================================================================
// Lattices of pins
//==============================================================================

std::vector<std::vector<std::vector<Int>>> const MAPS = {
    {{0}}, {{1}}, {{2}}, {{-1}}, {{0, 1}}, {{1, 2}}, {{0}, {1}}, {{0, 1}, {1, 0}}, {{0, 0}, {0}}, {{0}, {0, 0}},
    {{0, 0}, {0, 2}}, {{0, 0}, {-1, 0}}, {{0, 0}, {0, 0}, {0}}, {{2, 0}, {0, 0}}, {{1, 1}, {1, 1}, {1, -1}}, {}, {{}}};

void
lattice(u64 i)
{
  mc::Dec d(i);
  auto const & map = MAPS[d.get(MAPS.size())];
  int const nrad = d.geti(4);
  int const nmat = d.geti(4);
  int const next = d.geti(4);
  // radii of each pin, and whether it has a material too few or too many
  static std::vector<std::vector<double>> const sets = {{0.2}, {0.2, 0.4}, {}, {0.4, 0.2}, {0.3, 0.3}, {-0.1}, {0.0, 0.2}};
  u64 const first = d.get(sets.size());
  int const diff = d.geti(3) - 1;
  um2::Vector<um2::Vector<Float>> radii;
  um2::Vector<um2::Vector<um2::Material>> mats;
  um2::Vector<um2::Vec2F> ext;
  for (int p = 0; p < next; ++p) {
    ext.emplace_back(um2::Vec2F(1, 1));
  }
  auto const & set0 = sets[first];
  for (int p = 0; p < nrad; ++p) {
    um2::Vector<Float> r;
    for (double x : p == 0 ? set0 : sets[size_t(p) % 2]) {
      r.emplace_back(x);
    }
    radii.emplace_back(r);
  }
  for (int p = 0; p < nmat; ++p) {
    int const n = p == 0 ? int(set0.size()) + diff : int(sets[size_t(p) % 2].size());
    if (n < 0 || (p == 0 && set0.empty() && n > 0)) {
      return; // materials of a pin without rings are not looked at
    }
    mats.emplace_back(materialsOf(n));
  }
  um2::Vector<um2::Vector<Int>> ids;
  std::string text;
  bool valid = nrad > 0 && nrad == nmat && nrad == next && !map.empty() && !map[0].empty();
  for (auto const & row : map) {
    um2::Vector<Int> v;
    text += "[";
    for (Int x : row) {
      v.emplace_back(x);
      valid = valid && 0 <= x && x < nrad;
      text += mc::fmt(" %d", x);
    }
    text += " ]";
    valid = valid && row.size() == map[0].size();
    ids.emplace_back(v);
  }
  for (int p = 0; valid && p < nrad; ++p) {
    valid = sensible(radii[p], mats[p].size());
  }
  std::string const w = mc::fmt("lattice %s of %d radii lists (first %s), %d material lists (first %+d), %d extents", text.c_str(), nrad, nrad > 0 ? show(radii[0]).c_str() : "", nmat, diff, next);
  scene();
  std::string const before = snapshot();
  u64 const mark = mc::outputSize();
  mc::state(mc::hashStr(w));
  mc::transition(1);
  bool threw = false;
  um2::Vector<Int> tags;
  try {
    tags = gmm::occ::addCylindricalPinLattice2D(ids, ext, radii, mats, {20, 20});
  } catch (...) {
    threw = true;
  }
  verdict(w, valid, mark, before, threw);
  if (!valid) {
    MC_CHECK(tags.empty(), "answer", "%s: refused, but %d entities were returned", w.c_str(), tags.size());
  }
}

void
setup()
{
  um2::logger::level = 1;
  um2::logger::exit_on_error = false;
  mc::space("combine", 3 * NLIST * NLIST, combine);
  mc::space("pins", 5 * 156, pin);
  mc::space("lattices", u64(MAPS.size()) * 64 * 7 * 3, lattice);
}
} // namespace

MC_MAIN(setup)
