// C25: number densities of materials and their macroscopic cross sections.
#include "xslibgen.hpp"

#include <algorithm>
#include <map>

#include <um2/physics/material.hpp>

using mc::u64;
using LD = long double;

namespace
{
constexpr double NA = 0.602214076;

bool
near(double a, double b, double tol)
{
  return std::abs(a - b) <= tol * (std::abs(a) + std::abs(b) + 1e-300);
}

// Atomic mass of a nuclide to about 0.02: known values for light nuclides and elements,
// the liquid drop formula for the others
double
referenceMass(int zaid, double & tol)
{
  static std::map<int, std::pair<double, double>> const known = {
      {1001, {1.007825, 1e-4}},  {1002, {2.014102, 1e-4}},  {1003, {3.016049, 1e-3}},  {1006, {1.007825, 1e-3}},  {1040, {1.007825, 1e-3}},
      {2003, {3.016029, 2e-3}},  {2004, {4.002603, 1e-4}},  {3006, {6.015123, 1e-4}},  {3007, {7.016004, 1e-4}},  {4009, {9.012183, 1e-4}},
      {5000, {10.811, 2e-3}},    {5010, {10.012937, 1e-4}}, {5011, {11.009305, 1e-4}}, {6000, {12.0107, 0.012}},   {6001, {12.0107, 0.012}},
      {7014, {14.003074, 1e-4}}, {8001, {15.9994, 3e-3}},   {8016, {15.994915, 1e-4}}, {9019, {18.998403, 3e-4}}, {11023, {22.98977, 1e-3}},
      {12000, {24.305, 1e-3}},   {13027, {26.981538, 1e-3}}, {14000, {28.0855, 1e-3}}, {15031, {30.973762, 1e-3}}, {16000, {32.065, 2e-3}},
      {17000, {35.453, 1e-3}},   {19000, {39.0983, 1e-3}},  {20000, {40.078, 1e-3}},   {22000, {47.867, 0.03}},   {23000, {50.9415, 1e-3}},
      {24000, {51.9961, 1e-3}},  {26000, {55.845, 2e-3}},   {28000, {58.6934, 1e-3}},  {40000, {91.224, 2e-3}},   {40001, {91.224, 2e-3}},
      {42000, {95.94, 0.02}},    {48000, {112.411, 2e-3}},  {49000, {114.818, 2e-3}},  {50000, {118.71, 2e-3}},   {51000, {121.76, 4e-3}},
      {74000, {183.84, 0.01}},   {92235, {235.04393, 1e-3}}, {92238, {238.05079, 1e-3}}, {92234, {234.04095, 1e-3}}, {94239, {239.05216, 1e-3}},
      {64155, {154.92263, 1e-3}}, {64157, {156.92397, 1e-3}}, {54635, {134.90723, 1e-3}}, {62649, {148.91719, 1e-3}}};
  auto const it = known.find(zaid);
  if (it != known.end()) {
    tol = it->second.second;
    return it->second.first;
  }
  int const z = zaid / 1000;
  int a = zaid % 1000;
  // fission products and metastable states are tagged in the mass number
  if (zaid == 95342) {
    a = 242;
  } else if (zaid == 47710 || zaid == 52727 || zaid == 52729 || zaid == 61748) {
    a -= 600;
  } else if (a >= 500) {
    a -= 500;
  }
  double const A = a;
  double const bind = 15.75 * A - 17.8 * std::pow(A, 2.0 / 3) - 0.711 * z * (z - 1) / std::cbrt(A) - 23.7 * (A - 2 * z) * (A - 2 * z) / A +
                      (a % 2 == 1 ? 0 : (z % 2 == 0 ? 11.18 : -11.18) / std::sqrt(A));
  tol = 0.02;
  return z * 1.00782503 + (A - z) * 1.00866492 - bind / 931.494;
}

int const TABLE[] = {
    1001,  1002,  1003,  1006,  1040,  2003,  2004,  3006,  3007,  4009,  5000,  5010,  5011,  6000,  6001,  7014,  8001,  8016,  9019,  11023, 12000, 13027,
    14000, 15031, 16000, 17000, 19000, 20000, 22000, 23000, 24000, 24050, 24052, 24053, 24054, 25055, 26000, 26054, 26056, 26057, 26058, 27059, 28000, 28058,
    28060, 28061, 28062, 28064, 29063, 29065, 35581, 36582, 36583, 36584, 36585, 36586, 38589, 38590, 39589, 39590, 39591, 40000, 40001, 40090, 40091, 40092,
    40094, 40096, 40591, 40593, 40595, 40596, 41093, 41595, 42000, 42095, 42595, 42596, 42597, 42598, 42599, 42600, 43599, 44600, 44601, 44602, 44603, 44604,
    44605, 44606, 45103, 45603, 45605, 46604, 46605, 46606, 46607, 46608, 47107, 47109, 47609, 47611, 47710, 48000, 48110, 48111, 48112, 48113, 48114, 48610,
    48611, 48613, 49000, 49113, 49115, 49615, 50000, 50112, 50114, 50115, 50116, 50117, 50118, 50119, 50120, 50122, 50124, 50125, 51000, 51121, 51123, 51621,
    51625, 51627, 52632, 52727, 52729, 53627, 53629, 53631, 53635, 54628, 54630, 54631, 54632, 54633, 54634, 54635, 54636, 55633, 55634, 55635, 55636, 55637,
    56634, 56637, 56640, 57639, 57640, 58640, 58641, 58642, 58643, 58644, 59641, 59643, 60642, 60643, 60644, 60645, 60646, 60647, 60648, 60650, 61647, 61648,
    61649, 61651, 61748, 62152, 62153, 62647, 62648, 62649, 62650, 62651, 62652, 62653, 62654, 63151, 63152, 63153, 63154, 63155, 63156, 63157, 63651, 63653,
    63654, 63655, 63656, 63657, 64152, 64154, 64155, 64156, 64157, 64158, 64160, 64654, 64655, 64656, 64657, 64658, 64660, 65159, 65160, 65161, 65659, 65660,
    65661, 66160, 66161, 66162, 66163, 66164, 66660, 66661, 66662, 66663, 66664, 67165, 67665, 68162, 68164, 68166, 68167, 68168, 68170, 71176, 72174, 72176,
    72177, 72178, 72179, 72180, 73181, 73182, 74000, 74182, 74183, 74184, 74186, 77191, 77193, 79197, 82206, 82207, 82208, 83209, 90230, 90232, 91231, 91232,
    91233, 91234, 92232, 92233, 92234, 92235, 92236, 92237, 92238, 93237, 93238, 93239, 94236, 94238, 94239, 94240, 94241, 94242, 95241, 95242, 95243, 95342,
    96242, 96243, 96244, 96245, 96246, 96247, 96248, 97249, 98249, 98250, 98251, 98252};
constexpr u64 NTABLE = sizeof(TABLE) / sizeof(TABLE[0]);

// The mass the library uses, from a pure material of unit density
double
libMass(int zaid)
{
  um2::Material m;
  m.setDensity(1);
  m.addNuclideWt(Int(zaid), 1);
  return m.numNuclides() == 1 ? NA / m.numDensity(0) : -1;
}

char const * const SYM[] = {"H1", "O16", "B-10", "B11", "U235", "U-238", "Fe56", "Pu-239", "Gd157", "Be9"};
int const SYM_ZAID[] = {1001, 8016, 5010, 5011, 92235, 92238, 26056, 94239, 64157, 4009};

void
fractions()
{
  mc::space("nuclide-masses", NTABLE, [](u64 i) {
    mc::state(mc::hash(i, 1));
    long const before = mc::outputSize();
    double const got = libMass(TABLE[i]);
    mc::transition(1);
    double tol = 0;
    double const want = referenceMass(TABLE[i], tol);
    MC_CHECK(std::abs(got - want) <= tol, "mass", "%d has mass %.6f, expected about %.4f", TABLE[i], got, want);
    MC_CHECK(mc::outputSize() == before, "message", "%d: %s", TABLE[i], mc::outputFrom(before).c_str());
    mc::trace(1);
  });
  // every identifier up to 100000 is either a known nuclide or reported and not added
  mc::space("nuclide-known", 100000, [](u64 i) {
    int const z = int(i) + 1;
    mc::state(mc::hash(i, 2));
    um2::Material m;
    m.setDensity(2);
    long const before = mc::outputSize();
    m.addNuclideWt(Int(z), 0.5);
    mc::transition(1);
    bool const known = std::binary_search(TABLE, TABLE + NTABLE, z);
    bool const reported = mc::outputSize() > before;
    // a longer table would be fine, a silently ignored nuclide is not
    MC_CHECK((m.numNuclides() == 1) != reported && (m.numNuclides() == 1 || !known), "known", "%d: added %d reported %d", z, int(m.numNuclides()), reported);
    mc::trace(1);
  });
  // weight fractions over a grid, up to four nuclides
  for (int n = 1; n <= 4; ++n) {
    int const q = static_cast<int>(mc::pick(8, 16));
    mc::space(mc::fmt("weight-fractions-%d", n), mc::ipow(u64(q), n) * 3 * 2, [=](u64 i) {
      mc::Dec d(i);
      static double const rho[] = {0.0007, 1, 10.97};
      double const den = rho[d.geti(3)];
      bool const by_name = d.geti(2) == 1;
      um2::Material m;
      m.setDensity(den);
      std::vector<double> w;
      long const before = mc::outputSize();
      for (int k = 0; k < n; ++k) {
        w.push_back((1 + d.geti(q)) / double(q));
        int const s = (k * 3 + n) % 10;
        if (by_name) {
          m.addNuclideWt(um2::String(SYM[s]), w.back());
        } else {
          m.addNuclideWt(Int(SYM_ZAID[s]), w.back());
        }
        mc::transition(1);
      }
      std::string const where = mc::fmt("%d nuclides case %llu", n, (unsigned long long)i);
      mc::state(mc::hash(mc::hash(i, u64(n)), 5));
      MC_REQUIRE(m.numNuclides() == n && mc::outputSize() == before, "weights-added", "%s", where.c_str());
      for (int k = 0; k < n; ++k) {
        int const s = (k * 3 + n) % 10;
        MC_CHECK(m.zaid(k) == SYM_ZAID[s], "weights-nuclide", "%s", where.c_str());
        double tol = 0;
        double const mass = referenceMass(SYM_ZAID[s], tol);
        MC_CHECK(near(m.numDensity(k) * mass, w[size_t(k)] * den * NA, std::max(1e-5, tol / mass)) &&
                     near(m.numDensity(k) * libMass(SYM_ZAID[s]), w[size_t(k)] * den * NA, 1e-12),
                 "weights-density", "%s: nuclide %d %.12g", where.c_str(), k, m.numDensity(k));
      }
      mc::trace(1);
    });
  }
  // atom fractions over a grid including zero, up to four nuclides
  for (int n = 1; n <= 4; ++n) {
    int const q = static_cast<int>(mc::pick(6, 12));
    mc::space(mc::fmt("atom-fractions-%d", n), mc::ipow(u64(q) + 1, n) * 3, [=](u64 i) {
      mc::Dec d(i);
      static double const rho[] = {0.0007, 1, 10.97};
      double const den = rho[d.geti(3)];
      um2::Material m;
      m.setDensity(den);
      um2::Vector<um2::String> sym;
      um2::Vector<Float> x;
      double total = 0;
      double avg = 0;
      for (int k = 0; k < n; ++k) {
        int const s = (k * 3 + n) % 10;
        double const v = d.geti(q + 1) / double(q);
        sym.push_back(um2::String(SYM[s]));
        x.push_back(v);
        total += v;
        avg += v * libMass(SYM_ZAID[s]);
      }
      if (total == 0) {
        return;
      }
      std::string const where = mc::fmt("%d nuclides case %llu", n, (unsigned long long)i);
      mc::state(mc::hash(mc::hash(i, u64(n)), 6));
      long const before = mc::outputSize();
      m.addNuclidesAtomPercent(sym, x);
      mc::transition(1);
      MC_REQUIRE(mc::outputSize() == before, "atoms-message", "%s: %s", where.c_str(), mc::outputFrom(before).c_str());
      Int at = 0;
      double mass = 0;
      for (int k = 0; k < n; ++k) {
        if (x[k] == 0) {
          continue;
        }
        int const s = (k * 3 + n) % 10;
        MC_REQUIRE(at < m.numNuclides() && m.zaid(at) == SYM_ZAID[s], "atoms-nuclide", "%s: nuclide %d", where.c_str(), k);
        MC_CHECK(near(m.numDensity(at), x[k] * den * NA / avg, 1e-12), "atoms-density", "%s: nuclide %d %.12g", where.c_str(), k, m.numDensity(at));
        mass += m.numDensity(at) * libMass(SYM_ZAID[s]);
        ++at;
      }
      MC_CHECK(at == m.numNuclides() && near(mass, den * NA, 1e-12), "atoms-mass", "%s: %.12g", where.c_str(), mass);
      mc::trace(1);
    });
  }
  mc::space("atom-unknown", 3 * 3, [](u64 i) {
    // a nuclide without a known mass makes the request fail as a whole
    mc::state(mc::hash(i, 7));
    um2::Material m;
    m.setDensity(1);
    um2::Vector<um2::String> sym;
    um2::Vector<Float> x;
    static char const * const bad[] = {"Rf267", "Xx12", "U240"};
    for (u64 k = 0; k < 3; ++k) {
      sym.push_back(um2::String(k == i % 3 ? bad[i / 3] : SYM[k]));
      x.push_back(0.25);
    }
    long const before = mc::outputSize();
    m.addNuclidesAtomPercent(sym, x);
    mc::transition(1);
    MC_CHECK(mc::outputSize() > before && m.numNuclides() == 0, "atom-unknown", "case %llu: %d nuclides", (unsigned long long)i, int(m.numNuclides()));
    mc::trace(1);
  });
}

void
oxide()
{
  u64 const nw = mc::pick(99, 197);
  u64 const ng = mc::pick(41, 101);
  mc::space("oxide", nw * ng * 3, [=](u64 i) {
    mc::Dec d(i);
    double const w = 0.98 * double(d.geti(int(nw))) / double(nw - 1);
    double const g = double(d.geti(int(ng))) / double(ng - 1);
    static double const rho[] = {0.5, 10.257, 10.97};
    double const den = rho[d.geti(3)];
    std::string const where = mc::fmt("enrichment %.6g absorber %.6g density %.6g", w, g, den);
    mc::state(mc::hashStr(where));
    um2::Material m;
    m.setDensity(den);
    long const before = mc::outputSize();
    m.setUO2(w, g);
    mc::transition(1);
    MC_REQUIRE(mc::outputSize() == before, "oxide-message", "%s: %s", where.c_str(), mc::outputFrom(before).c_str());
    static int const zaid[] = {92234, 92235, 92236, 92238, 64152, 64154, 64155, 64156, 64157, 64158, 64160, 8016};
    static double const mass[] = {234.0409456, 235.0439231, 236.0455619, 238.0507826, 151.919788, 153.920862, 154.922619,
                                  155.92212,   156.923957,  157.924101,  159.927051,  15.9949146};
    static double const ab[] = {0.2, 2.18, 14.8, 20.47, 15.65, 24.84, 21.86};
    double n[12] = {};
    for (Int k = 0; k < m.numNuclides(); ++k) {
      int const * const p = std::find(zaid, zaid + 12, int(m.zaid(k)));
      MC_REQUIRE(p != zaid + 12 && m.numDensity(k) > 0, "oxide-nuclide", "%s: %d %g", where.c_str(), int(m.zaid(k)), m.numDensity(k));
      MC_CHECK(n[p - zaid] == 0, "oxide-twice", "%s: %d", where.c_str(), int(m.zaid(k)));
      n[p - zaid] = m.numDensity(k);
    }
    double u = 0;
    double um = 0;
    double gd = 0;
    double gm = 0;
    double all = 0;
    for (int k = 0; k < 12; ++k) {
      all += n[k] * mass[k];
      if (k < 4) {
        u += n[k];
        um += n[k] * mass[k];
      } else if (k < 11) {
        gd += n[k];
        gm += n[k] * mass[k];
      }
    }
    double const t = 2e-6;
    MC_CHECK(near(all, den * NA, t), "oxide-mass", "%s: %.12g", where.c_str(), all);
    MC_CHECK(near(n[11], 2 * u + 1.5 * gd, t), "oxide-oxygen", "%s: %.12g", where.c_str(), n[11]);
    MC_CHECK(std::abs(gm + 1.5 * gd * mass[11] - g * den * NA) <= t * den, "oxide-absorber", "%s: %.12g", where.c_str(), gm);
    MC_CHECK(std::abs(n[0] * mass[0] - 0.0089 * w * um) <= t * um && std::abs(n[1] * mass[1] - w * um) <= t * um &&
                 std::abs(n[2] * mass[2] - 0.0046 * w * um) <= t * um && std::abs(n[3] * mass[3] - (1 - 1.0135 * w) * um) <= t * um,
             "oxide-uranium", "%s: %.9g %.9g %.9g %.9g", where.c_str(), n[0], n[1], n[2], n[3]);
    for (int k = 0; k < 7; ++k) {
      MC_CHECK(std::abs(n[4 + k] - ab[k] / 100 * gd) <= 1e-9 * gd, "oxide-gadolinium", "%s: %d %.9g", where.c_str(), zaid[4 + k], n[4 + k]);
    }
    mc::trace(1);
  });
  mc::space("oxide-default", 50, [](u64 i) {
    mc::state(mc::hash(i, 8));
    um2::Material a;
    um2::Material b;
    a.setDensity(10);
    b.setDensity(10);
    a.setUO2(double(i) / 100);
    b.setUO2(double(i) / 100, 0);
    mc::transition(2);
    MC_REQUIRE(a.numNuclides() == b.numNuclides(), "oxide-default", "%llu", (unsigned long long)i);
    for (Int k = 0; k < a.numNuclides(); ++k) {
      MC_CHECK(a.zaid(k) == b.zaid(k) && a.numDensity(k) == b.numDensity(k), "oxide-default", "%llu", (unsigned long long)i);
    }
    mc::trace(1);
  });
}

void
histories()
{
  int const depth = static_cast<int>(mc::pick(4, 5));
  u64 const nop = 12;
  for (int len = 1; len <= depth; ++len) {
    mc::space(mc::fmt("histories-%d", len), mc::ipow(nop, len), [=](u64 i) {
      mc::Dec d(i);
      um2::Material m;
      m.setDensity(2.5);
      std::vector<std::pair<int, double>> model;
      std::string w = "ops";
      u64 h = 7;
      for (int k = 0; k < len; ++k) {
        int const op = d.geti(int(nop));
        w += mc::fmt(" %d", op);
        h = mc::hash(h, u64(op));
        long const before = mc::outputSize();
        int zaid = 0;
        double nd = 0.5 * (k + 1);
        switch (op) {
        case 0:
          m.addNuclide(Int(zaid = 1001), nd);
          break;
        case 1:
          m.addNuclide(Int(zaid = 92235), nd);
          break;
        case 2:
          zaid = 92235;
          m.addNuclide(um2::String("U235"), nd);
          break;
        case 3:
          zaid = 8016;
          m.addNuclide(um2::String("O-16"), nd);
          break;
        case 4:
          zaid = 8016;
          m.addNuclideWt(Int(8016), 0.25);
          nd = 0.25 * 2.5 * NA / libMass(8016);
          break;
        case 5:
          zaid = 1001;
          m.addNuclideWt(um2::String("H1"), 0.5);
          nd = 0.5 * 2.5 * NA / libMass(1001);
          break;
        case 6:
          m.addNuclide(Int(zaid = 0), nd);
          break;
        case 7:
          m.addNuclide(Int(zaid = -1001), nd);
          break;
        case 8:
          m.addNuclide(Int(zaid = 5010), nd = 0);
          break;
        case 9:
          m.addNuclide(Int(zaid = 5010), nd = -1e-9);
          break;
        case 10:
          m.addNuclide(um2::String("Qq12"), nd);
          break;
        default:
          m.addNuclide(Int(zaid = 5010), nd = 1e-30);
          break;
        }
        mc::transition(1);
        bool bad = zaid <= 0 || nd <= 0;
        for (auto const & p : model) {
          bad = bad || p.first == zaid;
        }
        if (!bad) {
          model.emplace_back(zaid, nd);
        }
        MC_CHECK(bad == (mc::outputSize() > before), "rejected", "%s: reported %d", w.c_str(), mc::outputSize() > before);
        MC_REQUIRE(m.numNuclides() == Int(model.size()) && m.numDensities().size() == m.numNuclides(), "composition", "%s: %d nuclides, expected %zu",
                   w.c_str(), int(m.numNuclides()), model.size());
        for (size_t j = 0; j < model.size(); ++j) {
          MC_CHECK(m.zaid(Int(j)) == model[j].first && near(m.numDensity(Int(j)), model[j].second, 1e-12), "composition", "%s: entry %zu", w.c_str(), j);
        }
      }
      mc::state(h);
      mc::trace(1);
    });
  }
  // a material is accepted exactly when all its properties are set
  mc::space("properties", 3 * 3 * 3 * 2 * 3 * 2, [](u64 i) {
    mc::Dec d(i);
    um2::Material m;
    int const name = d.geti(3);
    int const temp = d.geti(3);
    int const dens = d.geti(3);
    int const nuc = d.geti(2);
    int const nd = d.geti(3);
    int const zd = d.geti(2);
    if (name > 0) {
      m.setName(name == 1 ? "a" : "a name");
    }
    m.setTemperature(temp == 0 ? 0 : temp == 1 ? -300 : 600);
    m.setDensity(dens == 0 ? 0 : dens == 1 ? -1 : 5);
    if (nuc > 0) {
      m.addNuclide(Int(1001), 1);
      m.addNuclide(Int(8016), 2);
      if (nd == 1) {
        m.numDensity(1) = -2;
      }
      if (nd == 2) {
        m.numDensities().push_back(1);
      }
      if (zd == 1) {
        m.zaid(0) = 0;
      }
    }
    bool const ok = name > 0 && temp == 2 && dens == 2 && nuc == 1 && nd == 0 && zd == 0;
    mc::state(mc::hash(i, 9));
    long const before = mc::outputSize();
    m.validateProperties();
    mc::transition(1);
    MC_CHECK((mc::outputSize() == before) == ok, "properties", "case %llu: reported %d", (unsigned long long)i, mc::outputSize() > before);
    mc::trace(1);
  });
}

void
mixing()
{
  // nuclide subsets, temperatures, groups, fissile tables
  mc::space("mixing", 4 * 15 * 7 * 16 * 2, [](u64 i) {
    mc::Dec d(i);
    int const ng = 1 + d.geti(4);
    int const subset = 1 + d.geti(15);
    int const tq = d.geti(7);
    int const fis = d.geti(16);
    int const order = d.geti(2);
    std::string const w = mc::fmt("%d groups, nuclides %x, temperature %d, fissile %x, order %d", ng, unsigned(subset), tq, unsigned(fis), order);
    mc::state(mc::hashStr(w));
    static int const zaid[] = {92235, 1001, 8016, 94239};
    um2::XSLibrary lib;
    for (int g = 0; g < ng; ++g) {
      lib.groupBounds().push_back(100.0 - g);
      lib.chi().push_back(g == 0 ? 1 : 0);
    }
    for (int n = 0; n < 4; ++n) {
      um2::Nuclide u;
      u.zaid() = zaid[n];
      u.mass() = n + 1;
      for (int t = 0; t < 1 + (n + 1) % 3; ++t) {
        u.temperatures().push_back(300.0 + 300.0 * t);
        um2::XSec x(ng);
        bool const f = ((fis >> n) & 1) != 0 && (n != 0 || t == 1);
        x.isFissile() = f;
        if (f) {
          u.isFissile() = true;
        }
        for (int g = 0; g < ng; ++g) {
          double const k = 1 + n + 0.25 * t * t + 0.1 * g;
          x.a()[g] = k;
          x.f()[g] = f ? 0.25 * k : 0;
          x.nuf()[g] = f ? 0.625 * k : 0;
          x.tr()[g] = 4 * k;
          x.s()[g] = 3 * k;
          for (int h = 0; h < ng; ++h) {
            x.ss()(h, g) = 0.5 * k + 0.01 * h + 0.001 * g;
          }
        }
        u.xs().push_back(x);
      }
      lib.nuclides().push_back(u);
    }
    static double const T[] = {200, 300, 450, 600, 750, 900, 2000};
    um2::Material m;
    m.setName("m");
    m.setTemperature(T[tq]);
    m.setDensity(3);
    std::vector<std::pair<int, double>> nd;
    for (int k = 0; k < 4; ++k) {
      int const n = order == 0 ? k : 3 - k;
      if (((subset >> n) & 1) != 0) {
        nd.emplace_back(n, 0.125 * (n + 1));
        m.addNuclide(Int(zaid[n]), 0.125 * (n + 1));
      }
    }
    long const before = mc::outputSize();
    for (int pass = 0; pass < 2; ++pass) {
      // populating again replaces the earlier data
      if (pass == 1) {
        m.setTemperature(T[(tq + 2) % 7]);
      }
      double const temp = pass == 0 ? T[tq] : T[(tq + 2) % 7];
      m.populateXSec(lib);
      mc::transition(1);
      auto const & x = m.xsec();
      MC_CHECK(mc::outputSize() == before, "mix-message", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
      MC_REQUIRE(x.isMacro() && m.hasXSec() && x.numGroups() == ng && x.a().size() == ng && x.ss().rows() == ng, "mix-size", "%s", w.c_str());
      bool fissile = false;
      std::vector<double> want(size_t(5 * ng + ng * ng));
      std::vector<double> got(want.size());
      for (auto const & p : nd) {
        auto const & u = lib.nuclides()[Int(p.first)];
        Int const nt = u.temperatures().size();
        Int hi = 0;
        while (hi < nt && u.temperatures()[hi] <= temp) {
          ++hi;
        }
        Int const i0 = hi == 0 ? 0 : hi - 1;
        Int const i1 = std::min(hi, nt - 1);
        double const t0 = u.temperatures()[i0];
        double const t1 = u.temperatures()[i1];
        double const r = i0 == i1 ? 0 : (std::sqrt(temp) - std::sqrt(t0)) / (std::sqrt(t1) - std::sqrt(t0));
        auto const & x0 = u.xs()[i0];
        auto const & x1 = u.xs()[i1];
        size_t at = 0;
        auto const add = [&](double a, double b) { want[at++] += p.second * (a + r * (b - a)); };
        for (Int g = 0; g < ng; ++g) {
          add(x0.a()[g], x1.a()[g]);
          add(x0.f()[g], x1.f()[g]);
          add(x0.nuf()[g], x1.nuf()[g]);
          add(x0.tr()[g], x1.tr()[g]);
          add(x0.s()[g], x1.s()[g]);
          for (Int h = 0; h < ng; ++h) {
            add(x0.ss()(h, g), x1.ss()(h, g));
          }
        }
      }
      size_t at = 0;
      for (Int g = 0; g < ng; ++g) {
        got[at++] = x.a()[g];
        fissile = fissile || x.f()[g] > 0;
        got[at++] = x.f()[g];
        got[at++] = x.nuf()[g];
        got[at++] = x.tr()[g];
        got[at++] = x.s()[g];
        for (Int h = 0; h < ng; ++h) {
          got[at++] = x.ss()(h, g);
        }
      }
      for (size_t k = 0; k < want.size(); ++k) {
        MC_CHECK(near(got[k], want[k], 1e-12), "mix-value", "%s pass %d: entry %zu is %.12g, expected %.12g", w.c_str(), pass, k, got[k], want[k]);
      }
      MC_CHECK(!fissile || x.isFissile(), "mix-fissile", "%s pass %d", w.c_str(), pass);
      m.validateXSec();
      MC_CHECK(mc::outputSize() == before, "mix-message", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
    }
    mc::trace(1);
  });
  // a nuclide the library does not have is reported
  mc::space("mix-missing", 3, [](u64 i) {
    mc::state(mc::hash(i, 11));
    um2::XSLibrary lib;
    lib.groupBounds().push_back(1.0);
    lib.chi().push_back(1.0);
    um2::Nuclide u;
    u.zaid() = 1001;
    u.mass() = 1;
    u.temperatures().push_back(300.0);
    um2::XSec x(1);
    x.a()[0] = 1;
    u.xs().push_back(x);
    lib.nuclides().push_back(u);
    um2::Material m;
    m.setName("m");
    m.setTemperature(300);
    m.setDensity(3);
    if (i > 0) {
      m.addNuclide(Int(1001), 1);
    }
    m.addNuclide(Int(8016), 1);
    if (i == 2) {
      m.addNuclide(Int(92235), 1);
    }
    long const before = mc::outputSize();
    m.populateXSec(lib);
    mc::transition(1);
    MC_CHECK(mc::outputSize() > before, "mix-missing", "case %llu", (unsigned long long)i);
    mc::trace(1);
  });
}

void
setup()
{
  um2::logger::level = 1;
  um2::logger::exit_on_error = false;
  fractions();
  oxide();
  histories();
  mixing();
}
} // namespace

MC_MAIN(setup)
