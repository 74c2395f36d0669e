// C21: a model written to disk and read back, against the description it was built from.
#include "placecheck.hpp"

#include <filesystem>
#include <unistd.h>

using namespace mg;

namespace
{
template <class Part>
bool
sameMap(Part const & p, Ids const & ids)
{
  Int const ny = p.grid().numCells(1);
  Int const nx = p.grid().numCells(0);
  if (ny != Int(ids.size()) || nx != Int(ids[0].size()) || p.children().size() != nx * ny) {
    return false;
  }
  for (Int j = 0; j < ny; ++j) {
    for (Int i = 0; i < nx; ++i) {
      if (p.getChild(i, j) != ids[size_t(ny - 1 - j)][size_t(i)]) {
        return false;
      }
    }
  }
  return true;
}

template <int T>
bool
sameMesh(typename gen::Lib<T>::Fvm const & m, Mesh const & g)
{
  Mesh const r = gen::fromLib<T>(m);
  if (r.f.size() != g.f.size() || r.v.size() != g.v.size()) {
    return false;
  }
  for (size_t i = 0; i < r.f.size(); ++i) {
    std::vector<P> a, b;
    for (size_t k = 0; k < r.f[i].size(); ++k) {
      a.push_back(r.v[size_t(r.f[i][k])]);
      b.push_back(g.v[size_t(g.f[i][k])]);
    }
    if (gen::canon(a, T) != gen::canon(b, T)) {
      return false;
    }
  }
  return true;
}

std::string
stdName(um2::String const & s)
{
  return {s.data(), size_t(s.size())};
}

// The re-read model against the description
void
checkModel(Model const & m, Spec const & s, std::vector<std::string> const & names, std::string const & w)
{
  MC_REQUIRE(m.materials().size() == Int(names.size()), "materials", "%s: %d materials of %zu", w.c_str(), int(m.materials().size()), names.size());
  for (size_t i = 0; i < names.size(); ++i) {
    std::string const got = stdName(m.materials()[Int(i)].getName());
    MC_CHECK(got == names[i], "material-name", "%s: material %zu is '%s' instead of '%s'", w.c_str(), i, got.c_str(), names[i].c_str());
  }
  MC_REQUIRE(m.numCoarseCells() == Int(s.cells.size()) && m.numRTMs() == Int(s.rtms.size()) && m.numLattices() == Int(s.lats.size()) &&
                 m.numAssemblies() == Int(s.asys.size()),
             "counts", "%s: %d cells %d modules %d lattices %d assemblies, expected %zu %zu %zu %zu", w.c_str(), int(m.numCoarseCells()), int(m.numRTMs()),
             int(m.numLattices()), int(m.numAssemblies()), s.cells.size(), s.rtms.size(), s.lats.size(), s.asys.size());
  for (size_t i = 0; i < s.cells.size(); ++i) {
    auto const & c = m.getCoarseCell(Int(i));
    auto const & e = s.cells[i];
    MC_REQUIRE(c.mesh_type == TYPES[e.type], "cell-type", "%s: cell %zu", w.c_str(), i);
    MC_CHECK(std::abs(c.xy_extents[0] - double(widthOf(e))) < 1e-9 && std::abs(c.xy_extents[1] - double(heightOf(e))) < 1e-9, "cell-extents", "%s: cell %zu",
             w.c_str(), i);
    Mesh const g = meshOf(e);
    bool same = false;
    Int const n = e.type == 0   ? m.triMeshes().size()
                  : e.type == 1 ? m.quadMeshes().size()
                  : e.type == 2 ? m.tri6Meshes().size()
                                : m.quad8Meshes().size();
    MC_REQUIRE(c.mesh_id >= 0 && c.mesh_id < n, "cell-mesh", "%s: cell %zu has mesh %d of %d", w.c_str(), i, int(c.mesh_id), int(n));
    switch (e.type) {
    case 0:
      same = sameMesh<0>(m.getTriMesh(c.mesh_id), g);
      break;
    case 1:
      same = sameMesh<1>(m.getQuadMesh(c.mesh_id), g);
      break;
    case 2:
      same = sameMesh<2>(m.getTri6Mesh(c.mesh_id), g);
      break;
    default:
      same = sameMesh<3>(m.getQuad8Mesh(c.mesh_id), g);
      break;
    }
    MC_CHECK(same, "cell-mesh", "%s: the mesh of cell %zu differs", w.c_str(), i);
    MC_REQUIRE(c.material_ids.size() == Int(g.f.size()), "cell-materials", "%s: cell %zu has %d materials", w.c_str(), i, int(c.material_ids.size()));
    for (size_t k = 0; k < g.f.size(); ++k) {
      MC_CHECK(int(c.material_ids[Int(k)]) == matOf(e, k), "cell-materials", "%s: cell %zu face %zu has material %d instead of %d", w.c_str(), i, k,
               int(c.material_ids[Int(k)]), matOf(e, k));
    }
  }
  for (size_t i = 0; i < s.rtms.size(); ++i) {
    MC_CHECK(sameMap(m.getRTM(Int(i)), s.rtms[i]), "module-map", "%s: module %zu is not %s", w.c_str(), i, str(s.rtms[i]).c_str());
  }
  for (size_t i = 0; i < s.lats.size(); ++i) {
    MC_CHECK(sameMap(m.getLattice(Int(i)), s.lats[i]), "lattice-map", "%s: lattice %zu is not %s", w.c_str(), i, str(s.lats[i]).c_str());
  }
  for (size_t i = 0; i < s.asys.size(); ++i) {
    auto const & a = m.getAssembly(Int(i));
    std::vector<double> const z = s.asys[i].z.empty() ? std::vector<double>{-0.5, 0.5} : s.asys[i].z;
    MC_REQUIRE(a.children().size() == Int(s.asys[i].lats.size()) && a.grid().divs(0).size() == Int(z.size()), "stack", "%s: assembly %zu", w.c_str(), i);
    for (size_t k = 0; k < s.asys[i].lats.size(); ++k) {
      MC_CHECK(a.getChild(Int(k)) == s.asys[i].lats[k], "stack", "%s: assembly %zu has lattice %d at %zu", w.c_str(), i, int(a.getChild(Int(k))), k);
    }
    for (size_t k = 0; k < z.size(); ++k) {
      MC_CHECK(std::abs(a.grid().divs(0)[Int(k)] - z[k]) <= 1e-12 * (1 + std::abs(z[k])), "heights", "%s: assembly %zu height %zu is %.15g instead of %.15g",
               w.c_str(), i, k, a.grid().divs(0)[Int(k)], z[k]);
    }
  }
  MC_CHECK(sameMap(m.core(), s.core), "core-map", "%s: core is not %s", w.c_str(), str(s.core).c_str());
}

void
run(Spec s, int flags, std::string const & file, bool ctor, std::vector<std::string> const & rename, std::string const & w)
{
  prune(s);
  mc::state(mc::hashStr(w));
  Model a;
  int const bad = build(s, a);
  MC_REQUIRE(bad == 0, "rejected", "%s: %d components rejected", w.c_str(), bad);
  std::vector<std::string> names;
  for (Int i = 0; i < s.mats; ++i) {
    if (size_t(i) < rename.size()) {
      a.materials()[i].setName(um2::String(rename[size_t(i)].c_str()));
    }
    names.push_back(stdName(a.materials()[i].getName()));
  }
  long const before = mc::outputSize();
  a.write(um2::String(file.c_str()), (flags & 1) != 0, (flags & 2) != 0);
  mc::transition(1);
  checkModel(a, s, names, w + " (original)");
  Model b;
  if (ctor) {
    Model c(um2::String(file.c_str()));
    b = c;
  } else {
    b.read(um2::String(file.c_str()));
  }
  mc::transition(1);
  MC_CHECK(mc::outputSize() == before, "message", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
  checkModel(b, s, names, w);
  for (Int i = 0; i < b.materials().size() && i < a.materials().size(); ++i) {
    b.materials()[i] = a.materials()[i];
  }
  checkExport(b, s, w);
  mc::trace(1);
}

std::string
scratchFile(char const * name)
{
  std::string const dir = mc::scratch();
  for (auto const & e : std::filesystem::directory_iterator(dir)) {
    std::filesystem::remove_all(e.path());
  }
  return dir + "/" + name;
}

void
setup()
{
  um2::logger::level = 1;
  um2::logger::exit_on_error = false;
  for (auto const & f : families()) {
    mc::space(f.name, f.n, [f](u64 i) {
      run(f.make(i), int(i % 4), scratchFile("model.xdmf"), (i / 4) % 2 == 1, {}, mc::fmt("%s %llu", f.name.c_str(), (unsigned long long)i));
    });
  }
  // every number of materials, with all writing options
  mc::space("material-count", 7 * 4 * 4, [](u64 i) {
    mc::Dec d(i);
    Spec s = base();
    s.mats = 1 + d.geti(7);
    int const flags = d.geti(4);
    int const shift = d.geti(4);
    for (size_t k = 0; k < s.cells.size(); ++k) {
      s.cells[k].mats = {int(k + size_t(shift)) % s.mats, int(k * 2 + 1) % s.mats};
    }
    run(s, flags, scratchFile("model.xdmf"), false, {}, mc::fmt("%d materials, options %d, shift %d", s.mats, flags, shift));
  });
  // names of files and materials
  mc::space("file-names", 6 * 4, [](u64 i) {
    mc::Dec d(i);
    char const * const names[] = {"m.xdmf", "model.v2.xdmf", "a_longer-name with spaces.xdmf", "x.xdmf.xdmf", "sub/m.xdmf", "s.d/model.xdmf"};
    int const k = d.geti(6);
    int const flags = d.geti(4);
    std::string const file = scratchFile(names[k]);
    std::filesystem::create_directories(std::filesystem::path(file).parent_path());
    run(base(), flags, file, k % 2 == 1, {}, mc::fmt("file %s, options %d", names[k], flags));
  });
  mc::space("relative-names", 4 * 2, [](u64 i) {
    mc::Dec d(i);
    char const * const names[] = {"m.xdmf", "./m.xdmf", "../m.xdmf", "d/m.xdmf"};
    int const k = d.geti(4);
    bool const ctor = d.geti(2) == 1;
    std::string const dir = scratchFile("w");
    std::filesystem::create_directories(dir + "/d");
    std::string const old = std::filesystem::current_path();
    if (chdir(dir.c_str()) != 0) {
      mc::fail("machinery", "chdir");
    }
    run(base(), 0, names[k], ctor, {}, mc::fmt("file %s", names[k]));
    if (chdir(old.c_str()) != 0) {
      mc::fail("machinery", "chdir");
    }
  });
  static std::vector<std::string> const names = {"A", "UO2", "Fuel 4.5", "a-b_c", "x<y&z>\"q\"'", "clad (Zr)", "NAME", "17", "x/y", "trailing.", "A very long name of a material, without the comma"};
  u64 const n = names.size() - 1;
  mc::space("material-names", n * n, [n](u64 i) {
    run(base(), 0, scratchFile("m.xdmf"), false, {names[i % n], "B", names[i / n] + "!"},
        mc::fmt("materials '%s', '%s'", names[i % n].c_str(), names[i / n].c_str()));
  });
}
} // namespace

MC_MAIN(setup)
