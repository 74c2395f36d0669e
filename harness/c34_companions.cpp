// C34: the volume, cross section and input files written next to a model.
#include "placecheck.hpp"

#include <filesystem>
#include <fstream>
#include <sstream>

using namespace mg;

namespace
{
std::vector<std::string>
lines(std::string const & file)
{
  std::ifstream in(file);
  std::vector<std::string> r;
  std::string l;
  while (std::getline(in, l)) {
    r.push_back(l);
  }
  return r;
}

std::vector<std::string>
words(std::string const & l)
{
  std::istringstream in(l);
  std::vector<std::string> r;
  std::string x;
  while (in >> x) {
    r.push_back(x);
  }
  return r;
}

bool
near(std::string const & text, double want, double rel)
{
  char * end = nullptr;
  double const got = strtod(text.c_str(), &end);
  return end != text.c_str() && *end == 0 && std::abs(got - want) <= rel * (1e-3 + std::abs(want));
}

std::string
name(um2::mpact::Model const & m, Int i)
{
  auto const & n = m.materials()[i].getName();
  return {n.data(), size_t(n.size())};
}

void
checkVolumes(Model const & m, Spec const & s, std::string const & file, std::string const & w)
{
  std::vector<LD> vol(size_t(s.mats), 0);
  LD total = 0;
  for (auto const & f : place(s).faces) {
    auto const & c = s.cells[size_t(f.cell)];
    LD const v = gen::faceArea(meshOf(c), size_t(f.face)) * f.dz;
    vol[size_t(matOf(c, size_t(f.face)))] += v;
    total += v;
  }
  auto const l = lines(file);
  MC_REQUIRE(l.size() == vol.size(), "volumes", "%s: %zu lines for %zu materials", w.c_str(), l.size(), vol.size());
  for (size_t i = 0; i < l.size(); ++i) {
    std::string const n = name(m, Int(i)) + " ";
    MC_CHECK(l[i].compare(0, n.size(), n) == 0 && near(l[i].substr(std::min(n.size(), l[i].size())), double(vol[i]), 1e-11), "volumes",
             "%s: line '%s' expected volume %.12Lg of %.12Lg", w.c_str(), l[i].c_str(), vol[i], total);
  }
}

void
checkXSecs(Model const & m, std::string const & file, std::string const & w)
{
  auto const l = lines(file);
  auto const & mats = m.materials();
  Int const ng = mats[0].xsec().numGroups();
  MC_REQUIRE(l.size() == size_t(1 + mats.size() * (1 + ng)), "xs-lines", "%s: %zu lines", w.c_str(), l.size());
  MC_CHECK(words(l[0]) == std::vector<std::string>({mc::fmt("%d", int(mats.size())), mc::fmt("%d", int(ng))}), "xs-header", "%s: '%s'", w.c_str(), l[0].c_str());
  size_t k = 1;
  for (Int i = 0; i < mats.size(); ++i) {
    MC_CHECK(l[k++] == name(m, i), "xs-name", "%s: material %d", w.c_str(), int(i));
    auto const & x = mats[i].xsec();
    for (Int g = 0; g < ng; ++g, ++k) {
      auto const v = words(l[k]);
      MC_CHECK(v.size() == 5 && near(v[0], x.a()[g], 1e-12) && near(v[1], x.f()[g], 1e-12) && near(v[2], x.nuf()[g], 1e-12) && near(v[3], x.tr()[g], 1e-12) &&
                   near(v[4], x.s()[g], 1e-12),
               "xs-values", "%s: material %d group %d: '%s'", w.c_str(), int(i), int(g), l[k].c_str());
    }
  }
}

// The deck as a list of logical lines: comments start with '!'
void
checkInput(Model const & m, std::string const & file, std::string const & model, std::string const & w)
{
  std::vector<std::vector<std::string>> l;
  std::string base = model.substr(model.find_last_of('/') == std::string::npos ? 0 : model.find_last_of('/') + 1);
  base = base.substr(0, base.find_last_of('.'));
  std::string caseid;
  for (auto line : lines(file)) {
    if (line.compare(0, 7, "CASEID ") == 0) {
      caseid = line.substr(7);
      continue;
    }
    if (line == "    " + model) {
      l.push_back({"<model>"});
      continue;
    }
    line = line.substr(0, line.find('!'));
    auto const x = words(line);
    if (!x.empty()) {
      l.push_back(x);
    }
  }
  MC_CHECK(caseid == "MPACT_" + base, "case-name", "%s: case '%s'", w.c_str(), caseid.c_str());
  std::vector<size_t> at;
  for (char const * card : {"STATE", "MATERIAL", "GEOM", "XSEC", "OPTION"}) {
    size_t n = 0;
    for (size_t i = 0; i < l.size(); ++i) {
      if (l[i][0] == card && l[i].size() == 1) {
        ++n;
        at.push_back(i);
      }
    }
    MC_REQUIRE(n == 1, "cards", "%s: card %s is there %zu times", w.c_str(), card, n);
  }
  MC_REQUIRE(std::is_sorted(at.begin(), at.end()), "cards", "%s: order of cards", w.c_str());
  MC_CHECK(at[3] == at[2] + 3 && l[at[2] + 1] == std::vector<std::string>({"um2_core"}) && l[at[2] + 2] == std::vector<std::string>({"<model>"}), "geometry",
           "%s: the geometry card does not name %s", w.c_str(), model.c_str());
  // materials
  std::vector<std::string> all;
  for (size_t i = at[1] + 1; i < at[2]; ++i) {
    all.insert(all.end(), l[i].begin(), l[i].end());
  }
  size_t k = 0;
  auto const next = [&]() { return k < all.size() ? all[k++] : std::string("<end>"); };
  for (Int i = 0; i < m.materials().size(); ++i) {
    auto const & mat = m.materials()[i];
    bool ok = next() == "mat" && next() == mc::fmt("%d", int(i) + 1) && next() == "<type>";
    ok = ok && near(next(), mat.getDensity(), 1e-3) && next() == "g/cc" && near(next(), mat.getTemperature(), 1e-6) && next() == "K" && next() == "\\";
    MC_CHECK(ok, "material-line", "%s: material %d", w.c_str(), int(i));
    for (Int j = 0; j < mat.zaids().size(); ++j) {
      bool const z = next() == mc::fmt("%d", int(mat.zaids()[j]));
      bool const d = near(next(), mat.numDensities()[j], 2e-5);
      MC_CHECK(z && d, "material-nuclide", "%s: material %d nuclide %d", w.c_str(), int(i), int(j));
    }
  }
  MC_CHECK(k == all.size(), "material-rest", "%s: %zu words of %zu", w.c_str(), k, all.size());
  // ray spacing: a quarter of a chord length of the model which at least nine tenths of the cells reach
  double spacing = 0;
  for (size_t i = at[4]; i < l.size(); ++i) {
    if (l[i][0] == "ray" && l[i].size() > 1) {
      spacing = strtod(l[i][1].c_str(), nullptr);
    }
  }
  auto const mcl = m.getMeanChordLengths();
  size_t longer = 0;
  bool found = false;
  for (auto const x : mcl) {
    longer += x >= 4 * spacing * (1 - 1e-5) ? 1 : 0;
    found = found || std::abs(x - 4 * spacing) <= 1e-4 * x;
  }
  MC_CHECK(found && double(longer) >= 0.9 * double(mcl.size()), "ray-spacing", "%s: spacing %g fits %zu of %d cells", w.c_str(), spacing, longer, int(mcl.size()));
}

void
run(Spec const & s, int flags, std::string const & file, int nuclides, std::string const & w)
{
  mc::state(mc::hashStr(w));
  Model m;
  int const bad = build(s, m);
  MC_REQUIRE(bad == 0, "rejected", "%s: %d components rejected", w.c_str(), bad);
  for (Int i = 0; i < s.mats; ++i) {
    auto & mat = m.materials()[i];
    mat.setDensity(1.25 + 2 * i);
    mat.setTemperature(300 + 150.5 * i);
    // a different number of nuclides for every material
    for (int k = 0; k < nuclides + (nuclides > 0 ? int(i) : 0); ++k) {
      mat.addNuclide(1001 + 1001 * k, 0.0123456 / (k + 1 + i));
    }
  }
  long const before = mc::outputSize();
  m.write(um2::String(file.c_str()), (flags & 1) != 0, (flags & 2) != 0);
  mc::transition(1);
  MC_CHECK(mc::outputSize() == before, "message", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
  std::string const stem = file.substr(0, file.size() - 5);
  checkVolumes(m, s, stem + ".volumes", w);
  checkXSecs(m, stem + ".xs", w);
  checkInput(m, stem + ".input", file, w);
  mc::trace(1);
}

std::string
scratchFile(char const * name)
{
  std::string const dir = mc::scratch();
  for (auto const & e : std::filesystem::directory_iterator(dir)) {
    std::filesystem::remove_all(e.path());
  }
  return dir + "/" + name;
}

void
setup()
{
  um2::logger::level = 2;
  um2::logger::exit_on_error = false;
  for (auto const & f : families()) {
    mc::space(f.name, f.n, [f](u64 i) {
      run(f.make(i), int(i % 4), scratchFile("model.xdmf"), int(i % 3), mc::fmt("%s %llu", f.name.c_str(), (unsigned long long)i));
    });
  }
  mc::space("material-count", 7 * 4 * 12, [](u64 i) {
    mc::Dec d(i);
    Spec s = base();
    s.mats = 1 + d.geti(7);
    int const flags = d.geti(4);
    int const n = d.geti(12);
    for (size_t k = 0; k < s.cells.size(); ++k) {
      s.cells[k].mats = {int(k) % s.mats, int(k * 2 + 1) % s.mats};
    }
    run(s, flags, scratchFile("model.xdmf"), n, mc::fmt("%d materials, options %d, %d nuclides", s.mats, flags, n));
  });
  mc::space("file-names", 5, [](u64 i) {
    char const * const names[] = {"m.xdmf", "model.v2.xdmf", "x.xdmf.xdmf", "sub/m.xdmf", "s.d/model.xdmf"};
    std::string const file = scratchFile(names[i]);
    std::filesystem::create_directories(std::filesystem::path(file).parent_path());
    run(base(), 0, file, 2, mc::fmt("file %s", names[i]));
  });
}
} // namespace

MC_MAIN(setup)
