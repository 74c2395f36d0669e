// C38: the file with CMFD data of the coarse cells of a model.
#include "placecheck.hpp"

#include <um2/physics/cmfd.hpp>

#include <unistd.h>

#if !UM2_HAS_CMFD
#  error "CMFD is not enabled in this configuration"
#endif

namespace
{
using namespace mg;

// Groups with little and much scattering, fission in some
um2::Vector<um2::Material>
materials()
{
  double const absorption[3][2] = {{0.02, 0.4}, {1.5, 0.003}, {0.3, 2.5}};
  double const scatter[3][4] = {{0.5, 0.1, 0, 0.9}, {0.25, 0.25, 0.125, 1.5}, {2.0, 0.5, 0.01, 0.02}};
  um2::Vector<um2::Material> r;
  for (int i = 0; i < 3; ++i) {
    um2::Material m;
    m.setName(um2::String(mc::fmt("m%d", i).c_str()));
    um2::XSec x(2);
    x.isMacro() = true;
    x.isFissile() = i == 0;
    for (Int g = 0; g < 2; ++g) {
      x.a()[g] = absorption[i][g];
      x.f()[g] = i == 0 ? 0.01 : 0;
      x.nuf()[g] = i == 0 ? 0.024 : 0;
      x.s()[g] = scatter[i][2 * g] + scatter[i][2 * g + 1];
      x.tr()[g] = x.a()[g] + x.s()[g];
      for (Int h = 0; h < 2; ++h) {
        x.ss()(h, g) = scatter[i][2 * g + h];
      }
    }
    m.xsec() = x;
    r.push_back(m);
  }
  return r;
}

struct CellRef {
  double t[2], c[2], rho[2];
};

double
radius(double w, double t, double c)
{
  static std::map<std::array<double, 3>, double> known;
  auto const it = known.find({w, t, c});
  if (it != known.end()) {
    return it->second;
  }
  um2::CMFDCellParams const p(w, 4, t, c, 1, 0.25);
  double const r = um2::spectral_radius(p).real();
  known[{w, t, c}] = r;
  return r;
}

void
oneModel(Family const & fam, u64 idx)
{
  Spec s = fam.make(idx);
  prune(s);
  std::string const w = fam.name + mc::fmt(" %llu", (unsigned long long)idx);
  auto const mats = materials();
  Model m;
  MC_REQUIRE(build(s, m, &mats) == 0, "machinery", "%s: model refused", w.c_str());
  std::string const dir = mc::scratch();
  std::string const file = dir + "/info.xdmf";
  long const before = mc::outputSize();
  m.writeCMFDInfo(um2::String(file.c_str()));
  MC_CHECK(mc::outputSize() == before, "message", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
  um2::PolytopeSoup soup;
  soup.read(um2::String(file.c_str()));
  ::unlink(file.c_str());
  ::unlink((dir + "/info.h5").c_str());

  // data of each cell
  std::vector<CellRef> refs;
  for (auto const & c : s.cells) {
    Mesh const g = meshOf(c);
    CellRef r{};
    for (Int ig = 0; ig < 2; ++ig) {
      LD area = 0;
      LD a = 0;
      LD sc = 0;
      for (size_t f = 0; f < g.f.size(); ++f) {
        auto const & x = mats[matOf(c, f)].xsec();
        LD const fa = gen::faceArea(g, f);
        area += fa;
        a += fa * x.a()[ig];
        sc += fa * x.s()[ig];
      }
      r.t[ig] = double((a + sc) / area);
      r.c[ig] = double(sc / (a + sc));
      r.rho[ig] = radius(double((widthOf(c) + heightOf(c)) / 2), r.t[ig], r.c[ig]);
    }
    refs.push_back(r);
  }

  // one rectangle per position of a cell
  Placement const p = place(s);
  std::map<std::array<long long, 5>, int> where; // corner, extents, height -> cell
  auto const q = [](LD x) { return llroundl(x * 1e7L); };
  for (auto const & f : p.faces) {
    if (f.face == 0) {
      auto const & c = s.cells[size_t(f.cell)];
      bool const fresh = where.emplace(std::array<long long, 5>{q(f.offset.x), q(f.offset.y), q(widthOf(c)), q(heightOf(c)), q(f.z)}, f.cell).second;
      MC_REQUIRE(fresh, "machinery", "%s: reference placement overlaps", w.c_str());
    }
  }
  MC_REQUIRE(soup.numElements() == Int(where.size()), "cells", "%s: %d elements expected %zu", w.c_str(), int(soup.numElements()), where.size());
  std::vector<int> cell;
  for (Int i = 0; i < soup.numElements(); ++i) {
    um2::VTKElemType t{};
    um2::Vector<Int> conn;
    soup.getElement(i, t, conn);
    MC_REQUIRE(t == um2::VTKElemType::Quad && conn.size() == 4, "element", "%s: element %d", w.c_str(), int(i));
    auto const & v0 = soup.getVertex(conn[0]);
    auto const & v1 = soup.getVertex(conn[1]);
    auto const & v2 = soup.getVertex(conn[2]);
    auto const & v3 = soup.getVertex(conn[3]);
    bool const box = q(v0[1]) == q(v1[1]) && q(v1[0]) == q(v2[0]) && q(v2[1]) == q(v3[1]) && q(v3[0]) == q(v0[0]) && v0[2] == v1[2] && v1[2] == v2[2] &&
                     v2[2] == v3[2];
    MC_REQUIRE(box, "shape", "%s: element %d is not a level rectangle", w.c_str(), int(i));
    auto const it = where.find({q(v0[0]), q(v0[1]), q(LD(v2[0]) - v0[0]), q(LD(v2[1]) - v0[1]), q(v0[2])});
    MC_REQUIRE(it != where.end(), "misplaced", "%s: element %d at (%g, %g, %g)", w.c_str(), int(i), double(v0[0]), double(v0[1]), double(v0[2]));
    MC_REQUIRE(it->second >= 0, "repeated", "%s: element %d repeats another", w.c_str(), int(i));
    cell.push_back(it->second);
    it->second = -1;
  }

  // sets
  MC_CHECK(soup.numElsets() == Int(s.cells.size() + 6), "sets", "%s: %d sets", w.c_str(), int(soup.numElsets()));
  um2::Vector<Int> ids;
  um2::Vector<Float> data;
  for (size_t c = 0; c < s.cells.size(); ++c) {
    soup.getElset(um2::String(mc::fmt("Coarse_Cell_%05zu", c).c_str()), ids, data);
    std::vector<int> want;
    for (size_t i = 0; i < cell.size(); ++i) {
      if (cell[i] == int(c)) {
        want.push_back(int(i));
      }
    }
    bool same = ids.size() == Int(want.size()) && data.empty();
    for (size_t i = 0; same && i < want.size(); ++i) {
      same = ids[Int(i)] == want[i];
    }
    MC_CHECK(same, "cell-set", "%s: cell %zu", w.c_str(), c);
  }
  for (int kind = 0; kind < 3; ++kind) {
    static char const * const NAMES[] = {"Homogenized_Total_XS_Group", "Homogenized_Scattering_Ratio_Group", "1D_odCMFD_Spectral_Radius_Group"};
    for (int g = 0; g < 2; ++g) {
      std::string const name = mc::fmt("%s_%05d", NAMES[kind], g);
      soup.getElset(um2::String(name.c_str()), ids, data);
      MC_REQUIRE(ids.size() == soup.numElements() && data.size() == soup.numElements(), "data-set", "%s: %s", w.c_str(), name.c_str());
      for (Int i = 0; i < ids.size(); ++i) {
        auto const & r = refs[size_t(cell[size_t(i)])];
        double const want = kind == 0 ? r.t[g] : kind == 1 ? r.c[g] : r.rho[g];
        MC_CHECK(ids[i] == i && std::abs(data[i] - want) < 1e-7, "data", "%s: %s of element %d is %.10g expected %.10g", w.c_str(), name.c_str(), int(i),
                 double(data[i]), want);
      }
    }
  }
  mc::state(mc::hashStr(w));
  mc::transition(u64(soup.numElements()));
  mc::trace();
}

void
setup()
{
  um2::logger::exit_on_error = false;
  um2::logger::level = 2;
  for (auto const & f : families()) {
    mc::space(f.name, f.n, [f](u64 i) { oneModel(f, i); });
  }
}
} // namespace
MC_MAIN(setup)
