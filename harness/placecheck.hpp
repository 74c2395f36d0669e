// The exported mesh of a model and its derived quantities against the prescribed placement.
#pragma once
#include "modelgen.hpp"

namespace mg
{
inline double
relTol(double x)
{
  return 1e-10 * (1 + std::abs(x));
}

struct FaceRef {
  LD area, chord;
};

// Faces of the meshes of a cell, in the order the library holds them
inline std::vector<FaceRef>
faceRefs(Mesh const & g)
{
  std::vector<FaceRef> r;
  for (size_t i = 0; i < g.f.size(); ++i) {
    LD per = 0;
    for (auto const & e : g.edges(i)) {
      per += ref::length(e);
    }
    LD const a = gen::faceArea(g, i);
    r.push_back({a, std::acos(-1.0L) * a / per});
  }
  return r;
}

struct Elset {
  std::vector<int> ids;
  std::vector<double> data;
};

inline void
checkInstances(std::map<std::string, Elset> & sets, char const * prefix, std::map<std::pair<int, int>, std::set<int>> const & expected,
               std::string const & w)
{
  // id -> sets of elements, one per position
  std::map<int, std::set<std::set<int>>> byId;
  for (auto const & [k, v] : expected) {
    byId[k.first].insert(v);
  }
  for (auto const & [id, positions] : byId) {
    std::set<std::set<int>> got;
    for (size_t n = 0; n < positions.size(); ++n) {
      std::string const name = mc::fmt("%s_%05d_%05zu", prefix, id, n);
      auto const it = sets.find(name);
      MC_REQUIRE(it != sets.end(), "set-missing", "%s: no set %s", w.c_str(), name.c_str());
      std::set<int> const ids(it->second.ids.begin(), it->second.ids.end());
      MC_CHECK(ids.size() == it->second.ids.size() && it->second.data.empty(), "set-shape", "%s: %s", w.c_str(), name.c_str());
      MC_CHECK(positions.count(ids) == 1, "set-content", "%s: %s is not one of the %zu positions", w.c_str(), name.c_str(), positions.size());
      MC_CHECK(got.insert(ids).second, "set-twice", "%s: %s repeats a position", w.c_str(), name.c_str());
      sets.erase(it);
    }
  }
}

inline void
checkExport(Model const & m, Spec const & s, std::string const & w)
{
  long const before = mc::outputSize();
  Placement const p = place(s);
  std::vector<Mesh> meshes;
  std::vector<std::vector<FaceRef>> refs;
  for (auto const & c : s.cells) {
    meshes.push_back(meshOf(c));
    refs.push_back(faceRefs(meshes.back()));
  }
  mc::transition(p.faces.size());

  // totals
  MC_CHECK(m.numAssembliesTotal() == p.asys && m.numLatticesTotal() == p.lats && m.numRTMsTotal() == p.rtms && m.numCoarseCellsTotal() == p.cells &&
               m.numFineCellsTotal() == Int(p.faces.size()),
           "totals", "%s: %d %d %d %d %d expected %d %d %d %d %zu", w.c_str(), int(m.numAssembliesTotal()), int(m.numLatticesTotal()),
           int(m.numRTMsTotal()), int(m.numCoarseCellsTotal()), int(m.numFineCellsTotal()), p.asys, p.lats, p.rtms, p.cells, p.faces.size());
  MC_CHECK(m.numAssemblies() == Int(s.asys.size()) && m.numLattices() == Int(s.lats.size()) && m.numRTMs() == Int(s.rtms.size()) &&
               m.numCoarseCells() == Int(s.cells.size()),
           "unique", "%s", w.c_str());

  um2::PolytopeSoup const soup = static_cast<um2::PolytopeSoup>(m);
  MC_CHECK(mc::outputSize() == before, "message", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());

  // placement
  std::map<std::string, int> where;
  for (size_t i = 0; i < p.faces.size(); ++i) {
    auto const & f = p.faces[i];
    auto const & g = meshes[size_t(f.cell)];
    std::vector<P> pts;
    for (int k : g.f[size_t(f.face)]) {
      pts.push_back(g.v[size_t(k)] + f.offset);
    }
    bool const fresh = where.emplace(key(pts, f.z, g.type), int(i)).second;
    MC_REQUIRE(fresh, "machinery", "%s: reference placement overlaps", w.c_str());
  }
  MC_REQUIRE(soup.numElements() == Int(p.faces.size()), "fine-cells", "%s: %d fine cells expected %zu", w.c_str(), int(soup.numElements()),
             p.faces.size());
  std::vector<int> of(p.faces.size(), -1); // element -> reference face
  std::vector<int> el(p.faces.size(), -1);
  for (Int i = 0; i < soup.numElements(); ++i) {
    um2::VTKElemType t{};
    um2::Vector<Int> conn;
    soup.getElement(i, t, conn);
    int const type = t == um2::VTKElemType::Triangle            ? 0
                     : t == um2::VTKElemType::Quad              ? 1
                     : t == um2::VTKElemType::QuadraticTriangle ? 2
                     : t == um2::VTKElemType::QuadraticQuad     ? 3
                                                                : -1;
    MC_REQUIRE(type >= 0 && conn.size() == gen::nodes(type), "element-type", "%s: element %d", w.c_str(), int(i));
    std::vector<P> pts;
    LD z = 0;
    for (auto const k : conn) {
      MC_REQUIRE(k >= 0 && k < soup.numVertices(), "vertex-id", "%s: element %d", w.c_str(), int(i));
      auto const & v = soup.getVertex(k);
      pts.push_back({LD(v[0]), LD(v[1])});
      MC_CHECK(pts.size() == 1 || z == v[2], "height", "%s: element %d is not level", w.c_str(), int(i));
      z = v[2];
    }
    auto const it = where.find(key(pts, z, type));
    MC_REQUIRE(it != where.end(), "misplaced", "%s: element %d at (%Lg, %Lg, %Lg) is not prescribed", w.c_str(), int(i), pts[0].x, pts[0].y, z);
    MC_REQUIRE(el[size_t(it->second)] < 0, "repeated", "%s: element %d repeats element %d", w.c_str(), int(i), el[size_t(it->second)]);
    el[size_t(it->second)] = int(i);
    of[size_t(i)] = it->second;
  }

  // sets
  std::map<std::string, Elset> sets;
  for (Int i = 0; i < soup.numElsets(); ++i) {
    um2::String name;
    um2::Vector<Int> ids;
    um2::Vector<Float> data;
    soup.getElset(i, name, ids, data);
    Elset e;
    for (auto const k : ids) {
      e.ids.push_back(int(k));
    }
    for (auto const x : data) {
      e.data.push_back(x);
    }
    MC_REQUIRE(sets.emplace(std::string(name.data(), size_t(name.size())), e).second, "set-name", "%s: set %s twice", w.c_str(), name.data());
  }
  std::map<std::pair<int, int>, std::set<int>> cells, rtms, lats, asys;
  for (size_t i = 0; i < of.size(); ++i) {
    auto const & f = p.faces[size_t(of[i])];
    cells[{f.cell, f.ncell}].insert(int(i));
    rtms[{f.rtm, f.nrtm}].insert(int(i));
    lats[{f.lat, f.nlat}].insert(int(i));
    asys[{f.asy, f.nasy}].insert(int(i));
  }
  checkInstances(sets, "Coarse_Cell", cells, w);
  checkInstances(sets, "RTM", rtms, w);
  checkInstances(sets, "Lattice", lats, w);
  checkInstances(sets, "Assembly", asys, w);
  std::vector<double> xs;
  for (int k = 0; k < s.mats; ++k) {
    auto const & x = m.materials()[k].xsec();
    double t = 0;
    for (Int g = 0; g < x.numGroups(); ++g) {
      t += x.a()[g] + x.s()[g];
    }
    xs.push_back(t / x.numGroups());
  }
  auto const data = [&](char const * name, auto const & expect) {
    auto const it = sets.find(name);
    MC_REQUIRE(it != sets.end(), "data-missing", "%s: no set %s", w.c_str(), name);
    auto const & e = it->second;
    MC_REQUIRE(e.ids.size() == of.size() && e.data.size() == of.size(), "data-size", "%s: %s has %zu ids %zu values of %zu", w.c_str(), name,
               e.ids.size(), e.data.size(), of.size());
    std::vector<char> seen(of.size(), 0);
    for (size_t i = 0; i < e.ids.size(); ++i) {
      MC_REQUIRE(e.ids[i] >= 0 && e.ids[i] < int(of.size()) && seen[size_t(e.ids[i])] == 0, "data-ids", "%s: %s", w.c_str(), name);
      seen[size_t(e.ids[i])] = 1;
      double const want = expect(p.faces[size_t(of[size_t(e.ids[i])])]);
      MC_CHECK(std::abs(e.data[i] - want) <= relTol(want), "data-value", "%s: %s of element %d is %.15g expected %.15g", w.c_str(), name, e.ids[i],
               e.data[i], want);
    }
    sets.erase(it);
  };
  auto const mat = [&](Placed const & f) { return matOf(s.cells[size_t(f.cell)], size_t(f.face)); };
  auto const chord = [&](Placed const & f) { return double(refs[size_t(f.cell)][size_t(f.face)].chord); };
  data("Material_ID", [&](Placed const & f) { return double(mat(f)); });
  data("One_Group_XS", [&](Placed const & f) { return xs[size_t(mat(f))]; });
  data("Mean_Chord_Length", chord);
  data("Knudsen_Number", [&](Placed const & f) { return 1 / (xs[size_t(mat(f))] * chord(f)); });
  MC_CHECK(sets.empty(), "set-unknown", "%s: unexpected set %s", w.c_str(), sets.begin()->first.c_str());

  // mean chord lengths of the whole model
  auto const mcl = m.getMeanChordLengths();
  MC_REQUIRE(mcl.size() == Int(p.faces.size()), "chords", "%s: %d chord lengths expected %zu", w.c_str(), int(mcl.size()), p.faces.size());
  std::vector<double> got(mcl.begin(), mcl.end());
  std::vector<double> want;
  for (auto const & f : p.faces) {
    want.push_back(chord(f));
  }
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  for (size_t i = 0; i < got.size(); ++i) {
    MC_CHECK(std::abs(got[i] - want[i]) <= relTol(want[i]), "chords", "%s: %zu-th chord length %.15g expected %.15g", w.c_str(), i, got[i], want[i]);
  }

  // homogenised cross sections
  for (size_t c = 0; c < s.cells.size(); ++c) {
    auto const x = m.getCoarseCellHomogenizedXSec(Int(c));
    Int const ng = m.materials()[0].xsec().numGroups();
    MC_REQUIRE(x.numGroups() == ng && x.isMacro(), "homogenised-groups", "%s: cell %zu", w.c_str(), c);
    bool fissile = false;
    auto const avg = [&](auto const & get) {
      LD sum = 0;
      LD tot = 0;
      for (size_t i = 0; i < refs[c].size(); ++i) {
        sum += refs[c][i].area * get(m.materials()[matOf(s.cells[c], i)].xsec());
        tot += refs[c][i].area;
      }
      return double(sum / tot);
    };
    for (Int g = 0; g < ng; ++g) {
      double const a = avg([&](auto const & y) { return y.a()[g]; });
      double const f = avg([&](auto const & y) { return y.f()[g]; });
      double const nuf = avg([&](auto const & y) { return y.nuf()[g]; });
      double const tr = avg([&](auto const & y) { return y.tr()[g]; });
      double const sc = avg([&](auto const & y) { return y.s()[g]; });
      fissile = fissile || f > 0;
      auto const eq = [&](double u, double v) { return std::abs(u - v) <= 1e-12 + 1e-10 * std::abs(v); };
      MC_CHECK(eq(x.a()[g], a) && eq(x.f()[g], f) && eq(x.nuf()[g], nuf) && eq(x.tr()[g], tr) && eq(x.s()[g], sc) && eq(x.t(g), a + sc), "homogenised",
               "%s: cell %zu group %d: %.12g %.12g %.12g %.12g %.12g expected %.12g %.12g %.12g %.12g %.12g", w.c_str(), c, int(g), x.a()[g], x.f()[g],
               x.nuf()[g], x.tr()[g], x.s()[g], a, f, nuf, tr, sc);
      for (Int h = 0; h < ng; ++h) {
        double const ss = avg([&](auto const & y) { return y.ss()(h, g); });
        MC_CHECK(eq(x.ss()(h, g), ss), "homogenised", "%s: cell %zu scattering %d-%d: %.12g expected %.12g", w.c_str(), c, int(h), int(g), x.ss()(h, g),
                 ss);
      }
    }
    MC_CHECK(x.isFissile() == fissile, "homogenised-fissile", "%s: cell %zu", w.c_str(), c);
  }
}
} // namespace mg
