// C24: cross section libraries, interpolation in temperature, nuclide names.
#include "xslibgen.hpp"

#include <algorithm>
#include <filesystem>

#include <um2/physics/nuclide.hpp>

using namespace xslib;
using LD = long double;

namespace
{
void
checkXSec(um2::XSec const & x, Table const & t, Lib const & l, std::string const & w)
{
  Int const ng = Int(l.bounds.size());
  MC_REQUIRE(x.numGroups() == ng && x.a().size() == ng && x.f().size() == ng && x.nuf().size() == ng && x.tr().size() == ng && x.s().size() == ng &&
                 x.ss().rows() == ng && x.ss().cols() == ng,
             "xs-size", "%s", w.c_str());
  MC_CHECK(!x.isMacro() && x.isFissile() == t.fissile(), "xs-flags", "%s", w.c_str());
  for (Int g = 0; g < ng; ++g) {
    Row const & r = t.rows[size_t(g)];
    bool const o = r.absorption_only;
    MC_CHECK(x.a()[g] == as(l, r.a) && x.f()[g] == (o ? 0 : as(l, r.f)) && x.nuf()[g] == (o ? 0 : as(l, r.nuf)) && x.tr()[g] == (o ? 0 : as(l, r.tr)) &&
                 x.s()[g] == (o ? 0 : as(l, r.s)),
             "xs-value", "%s group %d: %.9g %.9g %.9g %.9g %.9g", w.c_str(), int(g), x.a()[g], x.f()[g], x.nuf()[g], x.tr()[g], x.s()[g]);
    for (int c = 0; c < int(ng); ++c) {
      double const want = !o && c >= r.min && c <= r.max ? as(l, r.ss[size_t(c - r.min)]) : 0;
      MC_CHECK(x.ss()(g, c) == want, "xs-scatter", "%s from %d to %d: %.9g expected %.9g", w.c_str(), c, int(g), x.ss()(g, c), want);
    }
  }
}

std::string
scratchFile()
{
  return mc::scratch() + "/lib.fmt";
}

void
check(Lib const & l, std::string const & w)
{
  mc::state(mc::hashStr(w));
  write(l, scratchFile());
  long const before = mc::outputSize();
  um2::XSLibrary const lib{um2::String(scratchFile().c_str())};
  mc::transition(1);
  MC_CHECK(mc::outputSize() == before, "message", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
  MC_REQUIRE(lib.numGroups() == Int(l.bounds.size()) && lib.chi().size() == Int(l.chi.size()) && lib.nuclides().size() == Int(l.nucs.size()), "sizes",
             "%s: %d groups %d nuclides", w.c_str(), int(lib.numGroups()), int(lib.nuclides().size()));
  for (size_t g = 0; g < l.bounds.size(); ++g) {
    MC_CHECK(lib.groupBounds()[Int(g)] == as(l, l.bounds[g]), "bounds", "%s: bound %zu is %.9g", w.c_str(), g, lib.groupBounds()[Int(g)]);
    MC_CHECK(lib.chi()[Int(g)] == as(l, l.chi[g]), "spectrum", "%s: spectrum %zu is %.9g", w.c_str(), g, lib.chi()[Int(g)]);
  }
  for (size_t n = 0; n < l.nucs.size(); ++n) {
    auto const & u = lib.nuclides()[Int(n)];
    auto const & v = l.nucs[n];
    bool fissile = false;
    for (auto const & t : v.xs) {
      fissile = fissile || t.fissile();
    }
    MC_CHECK(u.zaid() == v.zaid && u.mass() == as(l, v.mass) && u.isFissile() == fissile, "nuclide", "%s: nuclide %zu", w.c_str(), n);
    MC_REQUIRE(u.temperatures().size() == Int(v.temps.size()) && u.xs().size() == Int(v.temps.size()), "temperatures", "%s: nuclide %zu", w.c_str(), n);
    for (size_t t = 0; t < v.temps.size(); ++t) {
      MC_CHECK(u.temperatures()[Int(t)] == as(l, v.temps[t]), "temperatures", "%s: nuclide %zu", w.c_str(), n);
      checkXSec(u.xs()[Int(t)], v.xs[t], l, w + mc::fmt(" nuclide %zu temperature %zu", n, t));
    }
    auto const & q = lib.getNuclide(v.zaid);
    MC_CHECK(&q == &u, "lookup", "%s: %d", w.c_str(), v.zaid);
  }
  MC_CHECK(mc::outputSize() == before, "message", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
  mc::trace(1);
}

void
reading()
{
  u64 const maxg = mc::pick(12, 40);
  // number of groups, nuclides and temperatures
  mc::space("sizes", maxg * 5 * 4 * 2, [maxg](u64 i) {
    mc::Dec d(i);
    int const ng = 1 + d.geti(int(maxg));
    int const nn = 1 + d.geti(5);
    int const nt = 1 + d.geti(4);
    bool const full = d.geti(2) == 1;
    std::vector<int> temps;
    for (int n = 0; n < nn; ++n) {
      temps.push_back(1 + (nt - 1 + n) % 4);
    }
    check(make(ng, temps, full), mc::fmt("%d groups, %d nuclides, %d temperatures, full %d", ng, nn, nt, full));
  });
  // layout: values per line, spaces around and between numbers, digits, directory lines
  mc::space("layout", maxg * 6 * 3 * 3 * 2 * 3, [maxg](u64 i) {
    mc::Dec d(i);
    int const ng = 1 + d.geti(int(maxg));
    Lib l = make(ng, {2, 1}, false);
    l.per_line = 1 + d.geti(6);
    static char const * const lead[] = {"", " ", "    "};
    static char const * const trail[] = {"", " ", "   "};
    static char const * const sep[] = {" ", "   "};
    static char const * const form[] = {"%.6E", "%.3e", "%.12g"};
    int const a = d.geti(3);
    int const b = d.geti(3);
    int const c = d.geti(2);
    int const f = d.geti(3);
    l.lead = lead[a];
    l.trail = trail[b];
    l.sep = sep[c];
    l.format = form[f];
    l.dir_lines = (ng + a) % 4;
    check(l, mc::fmt("%d groups, %d per line, lead %d trail %d separator %d format %s", ng, l.per_line, a, b, c, l.format));
  });
  // long lines
  mc::space("many-groups", mc::pick(12, 30) * 2, [](u64 i) {
    int const ng = 50 + 10 * int(i / 2);
    check(make(ng, {2, 1}, i % 2 == 1), mc::fmt("%d groups, full %d", ng, int(i % 2)));
  });
  mc::space("version", 5, [](u64 i) {
    static char const * const v[] = {"4", " 4.0", "    4.2", "4 2", " 4.2m5"};
    Lib l = make(3, {1, 2}, true);
    l.version = v[i];
    check(l, mc::fmt("version '%s'", v[i]));
  });
  // scattering bands of a three group set, absorption only lines
  mc::space("bands", 7 * 7 * 7, [](u64 i) {
    mc::Dec d(i);
    static int const band[7][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {0, 2}, {0, -1}};
    Lib l = make(3, {1, 2}, true);
    std::string w = "bands";
    for (int g = 0; g < 3; ++g) {
      int const b = d.geti(7);
      w += mc::fmt(" %d-%d", band[b][0], band[b][1]);
      for (auto & u : l.nucs) {
        for (size_t t = 0; t < u.xs.size(); ++t) {
          u.xs[t].rows[size_t(g)] = row(3, 1, int(t), g, g == 1, band[b][0], band[b][1]);
          u.xs[t].rows[size_t(g)].absorption_only = band[b][1] < 0;
        }
      }
    }
    check(l, w);
  });
  // signs and fission at a subset of the temperatures
  mc::space("fission", 64, [](u64 i) {
    Lib l = make(2, {3, 1}, true);
    for (int k = 0; k < 6; ++k) {
      auto & r = l.nucs[0].xs[size_t(k / 2)].rows[size_t(k % 2)];
      bool const fis = ((i >> k) & 1) != 0;
      r.f = fis ? 0.125 * (k + 1) : 0;
      r.nuf = fis ? 0.3125 * (k + 1) : 0;
    }
    check(l, mc::fmt("fission %llx", (unsigned long long)i));
  });
  mc::space("negative", 6, [](u64 i) {
    Lib l = make(2, {2, 1}, true);
    auto & r = l.nucs[1].xs[0].rows[1];
    (i == 0 ? r.a : i == 1 ? r.f : i == 2 ? r.nuf : i == 3 ? r.tr : i == 4 ? r.s : r.ss[0]) = -0.5;
    check(l, mc::fmt("negative %llu", (unsigned long long)i));
  });
  // a library that cannot be read is reported
  mc::space("unreadable", 7, [](u64 i) {
    mc::state(mc::hash(i, 3));
    Lib l = make(2, {1, 1}, true);
    write(l, scratchFile());
    std::string file = scratchFile();
    if (i == 0) {
      file = mc::scratch() + "/missing.fmt";
    } else {
      std::ifstream in(file);
      std::string text((std::istreambuf_iterator<char>(in)), {});
      static char const * const from[] = {"", "%VER:", " 4.2", "%DIM:", "%GRP:", "%CHI:", "%DIR:"};
      static char const * const to[] = {"", "%XXX:", " 3.2", "%XXX:", "%XXX:", "%XXX:", "%XXX:"};
      text.replace(text.find(from[i]), std::string(from[i]).size(), to[i]);
      std::ofstream(file) << text;
    }
    long const before = mc::outputSize();
    um2::XSLibrary const lib{um2::String(file.c_str())};
    mc::transition(1);
    MC_CHECK(mc::outputSize() > before, "unreadable-silent", "case %llu", (unsigned long long)i);
    mc::trace(1);
  });
  mc::space("lookup-missing", 8, [](u64 i) {
    mc::state(mc::hash(i, 4));
    Lib l = make(2, {1, 1, 2}, true);
    write(l, scratchFile());
    um2::XSLibrary const lib{um2::String(scratchFile().c_str())};
    static int const z[8] = {92238, 1002, 8017, 92234, 92236, 0, 1, 8015};
    long const before = mc::outputSize();
    int volatile got = lib.getNuclide(z[i]).zaid();
    (void)got;
    mc::transition(1);
    MC_CHECK(mc::outputSize() > before, "missing-silent", "%d", z[i]);
    mc::trace(1);
  });
}

void
interpolation()
{
  // temperatures, tables and queries
  int const maxt = static_cast<int>(mc::pick(4, 6));
  for (int nt = 1; nt <= maxt; ++nt) {
    for (int ng = 1; ng <= 3; ++ng) {
      mc::space(mc::fmt("interpolate-%d-%d", nt, ng), (u64(1) << nt) * u64(5 * nt + 1), [=](u64 i) {
        mc::Dec d(i);
        int const mask = d.geti(1 << nt);
        int const q = d.geti(5 * nt + 1);
        std::string const w = mc::fmt("%d temperatures, %d groups, fissile at %x, query %d", nt, ng, unsigned(mask), q);
        mc::state(mc::hashStr(w));
        um2::Nuclide u;
        u.zaid() = 92235;
        u.mass() = 235;
        u.isFissile() = mask != 0;
        std::vector<double> temps;
        for (int t = 0; t < nt; ++t) {
          temps.push_back(250.0 + 130.5 * t + 41.0 * t * t);
          u.temperatures().push_back(temps.back());
          um2::XSec x(ng);
          x.isFissile() = ((mask >> t) & 1) != 0;
          for (int g = 0; g < ng; ++g) {
            x.a()[g] = 1 + 0.5 * t * t + g;
            x.f()[g] = x.isFissile() ? 0.25 * (t + 1) + 0.1 * g : 0;
            x.nuf()[g] = x.isFissile() ? 0.75 * (t + 1) + 0.2 * g : 0;
            x.tr()[g] = 5 - 0.3 * t + g;
            x.s()[g] = 2 + 0.2 * ((t * 7) % 5) + g;
            for (int h = 0; h < ng; ++h) {
              x.ss()(h, g) = 0.1 * (h + 1) + 0.01 * g + 0.3 * ((t * 3) % 4);
            }
          }
          u.xs().push_back(x);
        }
        // queries: each temperature, its close neighbours, and points in between
        double T = 0;
        if (q == 5 * nt) {
          T = temps.back() * 2;
        } else {
          double const t0 = temps[size_t(q / 5)];
          double const t1 = q / 5 + 1 < nt ? temps[size_t(q / 5 + 1)] : t0 + 100;
          T = q % 5 == 0 ? t0 : q % 5 == 1 ? t0 - 1e-9 : q % 5 == 2 ? t0 + 1e-9 : q % 5 == 3 ? (t0 + t1) / 2 : t0 + 0.9 * (t1 - t0);
          if (q == 1) {
            T = 1;
          }
        }
        long const before = mc::outputSize();
        um2::XSec const x = u.interpXS(T);
        mc::transition(1);
        size_t hi = 0;
        while (hi < temps.size() && temps[hi] <= T) {
          ++hi;
        }
        size_t const i0 = hi == 0 ? 0 : hi - 1;
        size_t const i1 = std::min(hi, temps.size() - 1);
        LD const r = i0 == i1 ? 0 : (std::sqrt(LD(T)) - std::sqrt(LD(temps[i0]))) / (std::sqrt(LD(temps[i1])) - std::sqrt(LD(temps[i0])));
        auto const & x0 = u.xs()[Int(i0)];
        auto const & x1 = u.xs()[Int(i1)];
        auto const ok = [&](double got, double a, double b) { return std::abs(got - double(a + r * (LD(b) - a))) <= 1e-12 * (1 + std::abs(a) + std::abs(b)); };
        MC_REQUIRE(x.numGroups() == ng && !x.isMacro(), "interp-groups", "%s", w.c_str());
        bool fissile = false;
        for (Int g = 0; g < ng; ++g) {
          fissile = fissile || x.f()[g] > 1e-9;
          MC_CHECK(ok(x.a()[g], x0.a()[g], x1.a()[g]) && ok(x.f()[g], x0.f()[g], x1.f()[g]) && ok(x.nuf()[g], x0.nuf()[g], x1.nuf()[g]) &&
                       ok(x.tr()[g], x0.tr()[g], x1.tr()[g]) && ok(x.s()[g], x0.s()[g], x1.s()[g]),
                   "interp-value", "%s at %.12g group %d: %.12g %.12g %.12g %.12g %.12g", w.c_str(), T, int(g), x.a()[g], x.f()[g], x.nuf()[g], x.tr()[g],
                   x.s()[g]);
          for (Int h = 0; h < ng; ++h) {
            MC_CHECK(ok(x.ss()(h, g), x0.ss()(h, g), x1.ss()(h, g)), "interp-scatter", "%s at %.12g: %d %d", w.c_str(), T, int(h), int(g));
          }
        }
        MC_CHECK(!fissile || x.isFissile(), "interp-fissile", "%s at %.12g: fission but not marked fissile", w.c_str(), T);
        x.validate();
        MC_CHECK(mc::outputSize() == before, "interp-valid", "%s at %.12g: %s", w.c_str(), T, mc::outputFrom(before).c_str());
        mc::trace(1);
      });
    }
  }
}

char const * const ELEMENTS[118] = {
    "H",  "He", "Li", "Be", "B",  "C",  "N",  "O",  "F",  "Ne", "Na", "Mg", "Al", "Si", "P",  "S",  "Cl", "Ar", "K",  "Ca", "Sc", "Ti", "V",  "Cr",
    "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr", "Rb", "Sr", "Y",  "Zr", "Nb", "Mo", "Tc", "Ru", "Rh", "Pd", "Ag", "Cd",
    "In", "Sn", "Sb", "Te", "I",  "Xe", "Cs", "Ba", "La", "Ce", "Pr", "Nd", "Pm", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu", "Hf",
    "Ta", "W",  "Re", "Os", "Ir", "Pt", "Au", "Hg", "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac", "Th", "Pa", "U",  "Np", "Pu", "Am", "Cm",
    "Bk", "Cf", "Es", "Fm", "Md", "No", "Lr", "Rf", "Db", "Sg", "Bh", "Hs", "Mt", "Ds", "Rg", "Cn", "Nh", "Fl", "Mc", "Lv", "Ts", "Og"};

void
names()
{
  mc::space("names", 118 * 300, [](u64 i) {
    int const z = int(i / 300) + 1;
    int const a = int(i % 300) + 1;
    for (char const * sep : {"", "-"}) {
      std::string const n = mc::fmt("%s%s%d", ELEMENTS[z - 1], sep, a);
      if (n.size() > 6) {
        continue;
      }
      mc::state(mc::hashStr(n));
      Int const got = um2::toZAID(um2::String(n.c_str()));
      mc::transition(1);
      MC_CHECK(got == 1000 * z + a, "name", "%s is %d", n.c_str(), int(got));
    }
    mc::trace(1);
  });
  // all one and two letter symbols that are not elements
  mc::space("unknown-names", 52 + 52 * 52, [](u64 i) {
    auto const letter = [](u64 k) { return char(k < 26 ? 'A' + k : 'a' + (k - 26)); };
    std::string s = i < 52 ? std::string(1, letter(i)) : std::string(1, letter((i - 52) / 52)) + letter((i - 52) % 52);
    bool known = false;
    for (char const * e : ELEMENTS) {
      known = known || s == e;
    }
    mc::state(mc::hashStr(s));
    long const before = mc::outputSize();
    Int const got = um2::toZAID(um2::String((s + "12").c_str()));
    mc::transition(1);
    bool const reported = mc::outputSize() > before;
    MC_CHECK(reported != known && (known || got < 0), "unknown-name", "%s12 gives %d, reported %d", s.c_str(), int(got), reported);
    mc::trace(1);
  });
}

void
setup()
{
  um2::logger::level = 2;
  um2::logger::exit_on_error = false;
  reading();
  interpolation();
  names();
}
} // namespace

MC_MAIN(setup)
