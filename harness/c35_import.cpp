// C35: importing a mesh file gives every coarse cell its own fine mesh and materials.
#include "modelgen.hpp"

#include <unistd.h>

namespace
{
using namespace mg;

struct Import {
  std::vector<Cell> cells;
  std::vector<std::string> names; // materials of the model, in order
  int shared = 1;                 // neighbours share the vertices of their common side
  int order = 0;                  // elements: cell by cell, interleaved, reversed
  int vorder = 0;                 // vertices: as made, reversed, stride
  int sets = 0;                   // cells first, materials first, all by reversed name, interleaved
  int extra = 0;                  // unrelated sets
  int clockwise = 0;              // every second element is written clockwise
  int corner = 0;                 // start corner
  int at = 0;                     // where the cells lie
  bool xdmf = false;
  int omit = -1;   // element without a material
  int rename = -1; // material that the model does not have
};

struct Element {
  int type;
  std::vector<int> nodes;
  size_t cell;
  int mat;
};

std::string
what(Import const & s, u64 i)
{
  std::string t = mc::fmt("case %llu: cells", static_cast<unsigned long long>(i));
  for (auto const & c : s.cells) {
    t += mc::fmt(" %d/%dx%d", c.type, c.nx, c.ny);
  }
  return t + mc::fmt(" shared %d order %d/%d sets %d extra %d clockwise %d corner %d at %d xdmf %d", s.shared, s.order, s.vorder, s.sets, s.extra,
                     s.clockwise, s.corner, s.at, int(s.xdmf));
}

template <int T>
void
collect(typename gen::Lib<T>::Fvm const & m, um2::mpact::Model::CoarseCell const & cc, std::map<std::string, int> & got, std::string & bad)
{
  Mesh const g = gen::fromLib<T>(m);
  if (size_t(cc.material_ids.size()) != g.f.size()) {
    bad = mc::fmt("%d materials for %zu faces", int(cc.material_ids.size()), g.f.size());
    return;
  }
  for (size_t i = 0; i < g.f.size(); ++i) {
    std::vector<P> p;
    for (int k : g.f[i]) {
      p.push_back({roundl(g.v[size_t(k)].x * 1e8L) / 1e8L, roundl(g.v[size_t(k)].y * 1e8L) / 1e8L});
    }
    if (!got.insert({gen::canon(p, T), int(cc.material_ids[Int(i)])}).second) {
      bad = "the same face twice";
    }
  }
}

void
run(Import const & s, u64 index)
{
  std::string const w = what(s, index);
  // The plane mesh with all cells side by side
  static LD const X0[] = {0, 10, -7.5L, 123.25L};
  static LD const Y0[] = {0, -3, 2.25L, -400.5L};
  std::vector<P> v;
  std::vector<Element> e;
  std::vector<std::map<std::string, int>> want;
  LD x = X0[s.at];
  for (size_t c = 0; c < s.cells.size(); ++c) {
    Mesh const g = meshOf(s.cells[c]);
    std::vector<int> id;
    size_t const before = c == 0 ? 0 : v.size();
    for (auto const & p : g.v) {
      P const q = {p.x + x, p.y + Y0[s.at]};
      int found = -1;
      for (size_t k = 0; s.shared != 0 && k < before && found < 0; ++k) {
        if (v[k].x == q.x && v[k].y == q.y) {
          found = int(k);
        }
      }
      if (found < 0) {
        found = int(v.size());
        v.push_back(q);
      }
      id.push_back(found);
    }
    want.emplace_back();
    for (size_t f = 0; f < g.f.size(); ++f) {
      Element el{s.cells[c].type, {}, c, matOf(s.cells[c], f)};
      std::vector<P> p;
      for (int k : g.f[f]) {
        el.nodes.push_back(id[size_t(k)]);
        p.push_back({roundl(g.v[size_t(k)].x * 1e8L) / 1e8L, roundl(g.v[size_t(k)].y * 1e8L) / 1e8L});
      }
      el.nodes = gen::rewrite(el.nodes, el.type, s.corner % gen::corners(el.type), s.clockwise != 0 && f % 2 == 1);
      e.push_back(el);
      want.back()[gen::canon(p, el.type)] = el.mat;
    }
    x += widthOf(s.cells[c]);
  }
  // Numbering
  auto const vp = gen::permutation(int(v.size()), s.vorder);
  std::vector<int> vinv(v.size());
  std::vector<P> nv;
  for (size_t i = 0; i < vp.size(); ++i) {
    nv.push_back(v[size_t(vp[i])]);
    vinv[size_t(vp[i])] = int(i);
  }
  std::vector<Element> ne;
  if (s.order == 1) {
    for (size_t k = 0; ne.size() < e.size(); ++k) {
      std::vector<size_t> seen(s.cells.size(), 0);
      for (auto const & el : e) {
        if (seen[el.cell]++ == k) {
          ne.push_back(el);
        }
      }
    }
  } else {
    ne = e;
    if (s.order == 2) {
      std::reverse(ne.begin(), ne.end());
    }
  }
  // Sets
  std::vector<std::pair<std::string, std::vector<int>>> sets;
  for (size_t c = 0; c < s.cells.size(); ++c) {
    sets.push_back({mc::fmt("Coarse_Cell_%05zu", c), {}});
  }
  for (auto const & n : s.names) {
    sets.push_back({"Material_" + n, {}});
  }
  if (s.extra != 0) {
    sets.push_back({"All", {}});
    sets.push_back({"Odd", {}});
    sets.push_back({"Material", {}});
  }
  for (size_t i = 0; i < ne.size(); ++i) {
    sets[ne[i].cell].second.push_back(int(i));
    if (s.omit != int(i)) {
      sets[s.cells.size() + size_t(ne[i].mat)].second.push_back(int(i));
    }
    if (s.extra != 0) {
      size_t const k = s.cells.size() + s.names.size();
      sets[k].second.push_back(int(i));
      if (i % 2 == 1) {
        sets[k + 1].second.push_back(int(i));
      }
      sets[k + 2].second.push_back(int(i));
    }
  }
  std::vector<std::pair<std::string, std::vector<int>>> used;
  for (auto const & q : sets) {
    if (!q.second.empty()) {
      used.push_back(q);
    }
  }
  if (s.sets == 1) {
    std::rotate(used.begin(), used.begin() + long(s.cells.size()), used.end());
  } else if (s.sets == 2) {
    std::reverse(used.begin(), used.end());
  } else if (s.sets == 3) {
    auto const p = gen::permutation(int(used.size()), 2);
    auto copy = used;
    for (size_t i = 0; i < p.size(); ++i) {
      used[i] = copy[size_t(p[i])];
    }
  }
  std::string const path = mc::scratch() + (s.xdmf ? "/cells.xdmf" : "/cells.inp");
  if (s.xdmf) {
    um2::PolytopeSoup soup;
    static um2::VTKElemType const VT[4] = {um2::VTKElemType::Triangle, um2::VTKElemType::Quad, um2::VTKElemType::QuadraticTriangle,
                                           um2::VTKElemType::QuadraticQuad};
    for (auto const & p : nv) {
      soup.addVertex(castIfNot<Float>(double(p.x)), castIfNot<Float>(double(p.y)));
    }
    for (auto const & el : ne) {
      um2::Vector<Int> c;
      for (int k : el.nodes) {
        c.push_back(vinv[size_t(k)]);
      }
      soup.addElement(VT[el.type], c);
    }
    for (auto const & q : used) {
      um2::Vector<Int> ids;
      for (int k : q.second) {
        ids.push_back(k);
      }
      soup.addElset(um2::String(q.first.c_str()), ids);
    }
    soup.write(um2::String(path.c_str()));
  } else {
    static char const * const NAME[4] = {"CPS3", "CPS4", "CPS6", "CPS8"};
    std::string t = "*Heading\n cells\n*NODE\n";
    for (size_t i = 0; i < nv.size(); ++i) {
      t += mc::fmt("%zu, %.17Lg, %.17Lg, 0\n", i + 1, nv[i].x, nv[i].y);
    }
    t += "******* E L E M E N T S *************\n";
    for (size_t i = 0; i < ne.size(); ++i) {
      if (i == 0 || ne[i].type != ne[i - 1].type) {
        t += mc::fmt("*ELEMENT, type=%s, ELSET=Surface%zu\n", NAME[ne[i].type], i + 1);
      }
      t += std::to_string(i + 1);
      for (int k : ne[i].nodes) {
        t += ", " + std::to_string(vinv[size_t(k)] + 1);
      }
      t += "\n";
    }
    for (auto const & q : used) {
      t += "*ELSET,ELSET=" + q.first + "\n";
      for (size_t k = 0; k < q.second.size(); ++k) {
        t += std::to_string(q.second[k] + 1) + ", ";
        if (k % 10 == 9) {
          t += "\n";
        }
      }
      t += "\n";
    }
    while (t.find("\n\n") != std::string::npos) {
      t.replace(t.find("\n\n"), 2, "\n");
    }
    FILE * f = fopen(path.c_str(), "wb");
    MC_REQUIRE(f != nullptr, "scratch", "%s", path.c_str());
    fwrite(t.data(), 1, t.size(), f);
    fclose(f);
  }
  // The model
  Model m;
  for (size_t i = 0; i < s.names.size(); ++i) {
    um2::Material mat;
    mat.setName(um2::String(int(i) == s.rename ? "Other" : s.names[i].c_str()));
    mat.xsec() = um2::XSec(1);
    mat.xsec().isMacro() = true;
    mat.xsec().a()[0] = 1;
    m.addMaterial(mat);
  }
  um2::Vector<Int> row;
  for (auto const & c : s.cells) {
    um2::Vec2F d;
    d[0] = castIfNot<Float>(double(widthOf(c)));
    d[1] = castIfNot<Float>(double(heightOf(c)));
    row.push_back(m.addCoarseCell(d));
  }
  auto const mark = mc::outputSize();
  m.importCoarseCellMeshes(um2::String(path.c_str()));
  bool const error = mc::outputFrom(mark).find("ERROR") != std::string::npos;
  mc::transition();
  unlink(path.c_str());
  if (s.xdmf) {
    unlink((mc::scratch() + "/cells.h5").c_str());
  }
  if (s.omit >= 0 || s.rename >= 0) {
    bool used_name = s.omit >= 0;
    for (auto const & el : e) {
      used_name = used_name || el.mat == s.rename;
    }
    MC_CHECK(error == used_name, "unassigned", "%s: element %d without material, material %d unknown: error %d expected %d", w.c_str(), s.omit,
             s.rename, int(error), int(used_name));
    mc::trace();
    return;
  }
  MC_CHECK(!error, "error", "%s: an error was reported", w.c_str());
  MC_REQUIRE(m.numCoarseCells() == Int(s.cells.size()), "count", "%s: %d cells", w.c_str(), int(m.numCoarseCells()));
  std::set<std::pair<int, int>> ids;
  for (size_t c = 0; c < s.cells.size(); ++c) {
    auto const & cc = m.getCoarseCell(Int(c));
    MC_REQUIRE(cc.mesh_type == TYPES[s.cells[c].type], "type", "%s: cell %zu has type %d", w.c_str(), c, int(cc.mesh_type));
    MC_CHECK(ids.insert({s.cells[c].type, int(cc.mesh_id)}).second, "shared", "%s: cell %zu shares mesh %d", w.c_str(), c, int(cc.mesh_id));
    std::map<std::string, int> got;
    std::string bad;
    switch (s.cells[c].type) {
    case 0:
      collect<0>(m.getTriMesh(cc.mesh_id), cc, got, bad);
      break;
    case 1:
      collect<1>(m.getQuadMesh(cc.mesh_id), cc, got, bad);
      break;
    case 2:
      collect<2>(m.getTri6Mesh(cc.mesh_id), cc, got, bad);
      break;
    default:
      collect<3>(m.getQuad8Mesh(cc.mesh_id), cc, got, bad);
      break;
    }
    MC_CHECK(bad.empty(), "faces", "%s: cell %zu: %s", w.c_str(), c, bad.c_str());
    MC_CHECK(std::abs(double(cc.xy_extents[0]) - double(widthOf(s.cells[c]))) < 1e-12 &&
                 std::abs(double(cc.xy_extents[1]) - double(heightOf(s.cells[c]))) < 1e-12,
             "extents", "%s: cell %zu", w.c_str(), c);
    for (auto const & q : want[c]) {
      auto const it = got.find(q.first);
      if (it == got.end()) {
        mc::fail("mesh", mc::fmt("%s: cell %zu lacks the face %s", w.c_str(), c, q.first.c_str()));
        break;
      }
      if (it->second != q.second) {
        mc::fail("material", mc::fmt("%s: cell %zu face %s has material %d expected %d", w.c_str(), c, q.first.c_str(), it->second, q.second));
        break;
      }
    }
    MC_CHECK(got.size() == want[c].size(), "mesh", "%s: cell %zu has %zu faces expected %zu", w.c_str(), c, got.size(), want[c].size());
    u64 h = mc::hash(u64(index), u64(c));
    for (auto const & q : got) {
      h = mc::hash(h, mc::hashStr(q.first) + u64(q.second + 1));
    }
    mc::state(h);
  }
  mc::trace();
}

Cell
cell(int k, std::vector<int> mats)
{
  static int const S[8][4] = {{0, 1, 1, 0}, {1, 2, 1, 0}, {2, 1, 1, 1}, {3, 1, 1, 0}, {0, 2, 2, 9}, {1, 1, 2, 0}, {2, 2, 1, 1}, {3, 2, 2, 0}};
  Cell c;
  c.type = S[k][0];
  c.nx = S[k][1];
  c.ny = S[k][2];
  c.diag = S[k][3];
  c.mats = mats;
  return c;
}

std::vector<std::string> const NAMES[] = {{"A", "B", "C"}, {"A", "AA", "AAA"}, {"AAA", "AA", "A"}, {"Fuel_2.1%", "H2O", "Material_X"}, {"b", "a", "B"}};

void
setup()
{
  um2::logger::exit_on_error = false;
  um2::logger::level = 1;
  mc::tame();

  // Every assignment of three materials to the faces of a cell of each kind
  mc::space("materials", 8 * 81 * 5 * 2, [](u64 i) {
    mc::Dec d(i);
    int const k = int(d.get(8));
    std::vector<int> mats;
    for (int j = 0; j < 4; ++j) {
      mats.push_back(int(d.get(3)));
    }
    Import s;
    s.cells = {cell(k, mats)};
    s.names = NAMES[d.get(5)];
    s.xdmf = d.get(2) != 0;
    run(s, i);
  });
  // Pairs and triples of cells in every numbering of the file
  mc::space("pairs", 8 * 8 * 2 * 3 * 3 * 4, [](u64 i) {
    mc::Dec d(i);
    Import s;
    int const a = int(d.get(8));
    int const b = int(d.get(8));
    s.cells = {cell(a, {0, 1, 2}), cell(b, {2, 2, 0, 1})};
    s.names = NAMES[0];
    s.shared = int(d.get(2));
    s.order = int(d.get(3));
    s.vorder = int(d.get(3));
    s.sets = int(d.get(4));
    s.at = int(i % 4);
    s.extra = int(i % 3 == 0);
    s.xdmf = i % 7 == 0;
    run(s, i);
  });
  mc::space("triples", 4 * 4 * 4 * 2 * 2 * 3 * 4, [](u64 i) {
    mc::Dec d(i);
    Import s;
    int const a = int(d.get(4));
    int const b = int(d.get(4));
    int const c = int(d.get(4));
    s.cells = {cell(a, {1}), cell(b + 4, {0, 2}), cell(c, {2, 1})};
    s.names = NAMES[1];
    s.shared = int(d.get(2));
    s.extra = int(d.get(2));
    s.order = int(d.get(3));
    s.at = int(d.get(4));
    s.sets = int(i % 4);
    s.vorder = int(i % 3);
    run(s, i);
  });
  // Elements written from another corner or clockwise
  mc::space("writing", 8 * 4 * 2 * 4 * 2, [](u64 i) {
    mc::Dec d(i);
    Import s;
    int const k = int(d.get(8));
    s.cells = {cell(k, {0, 1, 2}), cell((k + 3) % 8, {2, 0})};
    s.names = NAMES[0];
    s.corner = int(d.get(4));
    s.clockwise = int(d.get(2));
    s.at = int(d.get(4));
    s.xdmf = d.get(2) != 0;
    run(s, i);
  });
  // Many cells: the numbers in the names of the cells gain digits
  mc::space("many", u64(mc::pick(130, 1100)), [](u64 i) {
    Import s;
    for (u64 k = 0; k <= i; ++k) {
      s.cells.push_back(cell(int(k % 2), {int(k % 3), int((k / 3) % 3)}));
    }
    s.names = NAMES[0];
    s.xdmf = i % 5 == 4;
    run(s, i);
  });
  // Many materials
  mc::space("many-materials", 120, [](u64 i) {
    Import s;
    Cell c;
    c.type = int(i % 4);
    c.nx = 3;
    c.ny = 3;
    for (u64 k = 0; k < 18; ++k) {
      c.mats.push_back(int((k * 7 + i) % (i + 1)));
    }
    for (u64 k = 0; k <= i; ++k) {
      s.names.push_back(mc::fmt("M%llu", static_cast<unsigned long long>(k)));
    }
    s.cells = {c};
    run(s, i);
  });
  // A face without a material, and a material the model does not have, are reported
  mc::space("unassigned", 8 * 8 * 5, [](u64 i) {
    mc::Dec d(i);
    Import s;
    s.cells = {cell(int(d.get(8)), {0, 1}), cell(int(d.get(8)), {1, 2})};
    s.names = NAMES[0];
    int const k = int(d.get(5));
    if (k < 2) {
      s.omit = k;
    } else {
      s.rename = k - 2;
    }
    run(s, i);
  });
}
} // namespace
MC_MAIN(setup)
