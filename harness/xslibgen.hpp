// Cross section libraries in the MPACT text format from a plain description.
#pragma once
#include "mc.hpp"

#include <cmath>
#include <fstream>
#include <string>
#include <vector>

#include <um2/common/logger.hpp>
#include <um2/physics/cross_section_library.hpp>

namespace xslib
{
using mc::u64;

struct Row {
  double a = 0, f = 0, nuf = 0, tr = 0, s = 0;
  bool absorption_only = false;
  int min = 0, max = -1;    // columns (0-based, inclusive)
  std::vector<double> ss;   // from group min..max
};
struct Table {
  std::vector<Row> rows; // per group
  bool
  fissile() const
  {
    for (auto const & r : rows) {
      if (!r.absorption_only && r.f > 0) {
        return true;
      }
    }
    return false;
  }
};
struct Nuc {
  int zaid = 0;
  double mass = 0;
  std::vector<double> temps;
  std::vector<Table> xs; // per temperature
  int extra = 0;         // lines of other data after the cross sections
};
struct Lib {
  std::vector<double> bounds, chi;
  std::vector<Nuc> nucs;
  // layout
  int per_line = 5;
  std::string lead = " ", trail, sep = "  ";
  int dir_lines = 1;
  std::string version = " 4.2";
  char const * format = "%.6E";
};

// The value the text stands for
inline double
as(Lib const & l, double x)
{
  return strtod(mc::fmt(l.format, x).c_str(), nullptr);
}

inline void
write(Lib const & l, std::string const & file)
{
  std::ofstream o(file);
  auto const num = [&](double x) { return mc::fmt(l.format, x); };
  auto const list = [&](std::vector<double> const & v) {
    for (size_t i = 0; i < v.size(); ++i) {
      o << (i % size_t(l.per_line) == 0 ? l.lead : l.sep) << num(v[i]);
      if (i + 1 == v.size() || (i + 1) % size_t(l.per_line) == 0) {
        o << l.trail << "\n";
      }
    }
  };
  o << "%VER:\n" << l.version << "\n";
  o << "%DIM:\n" << l.lead << l.bounds.size() << l.sep << "1  1  1  " << l.nucs.size() << "  0  0  0  0  0" << l.trail << "\n";
  o << "%GRP:\n";
  list(l.bounds);
  o << "%CHI:\n";
  list(l.chi);
  o << "%DIR:\n";
  for (int i = 0; i < l.dir_lines; ++i) {
    o << "  " << i + 1 << " 1001 some text\n";
  }
  for (size_t n = 0; n < l.nucs.size(); ++n) {
    auto const & u = l.nucs[n];
    o << "%NUC" << l.sep << n + 1 << l.sep << u.zaid << l.sep << num(u.mass) << l.sep << "1  2  3  4" << l.sep << u.temps.size() << "  5  6  name" << l.trail << "\n";
    o << l.lead << "TP1+\n" << l.lead;
    for (size_t t = 0; t < u.temps.size(); ++t) {
      o << (t == 0 ? "" : l.sep) << num(u.temps[t]);
    }
    o << l.trail << "\n" << l.lead << "XSD+\n";
    for (size_t g = 0; g < l.bounds.size(); ++g) {
      for (size_t t = 0; t < u.temps.size(); ++t) {
        Row const & r = u.xs[t].rows[g];
        o << l.lead << g + 1 << l.sep << t + 1 << l.sep << num(r.a);
        if (!r.absorption_only) {
          o << l.sep << num(r.f) << l.sep << num(r.nuf) << l.sep << num(r.tr) << l.sep << num(r.s) << l.sep << r.min + 1 << l.sep << r.max + 1;
          for (double x : r.ss) {
            o << l.sep << num(x);
          }
        }
        o << l.trail << "\n";
      }
    }
    for (int i = 0; i < u.extra; ++i) {
      o << l.lead << (i % 2 == 0 ? "SUB+\n" : " 1.0 2.0 3.0\n");
    }
  }
  o << "%END\n";
}

// Different values for every entry
inline Row
row(int ng, int n, int t, int g, bool fissile, int min, int max)
{
  Row r;
  double const k = 1 + 0.37 * n + 0.11 * t + 0.013 * g;
  r.a = 1.5 * k;
  r.f = fissile ? 0.25 * k : 0;
  r.nuf = fissile ? 0.61 * k : 0;
  r.tr = 12 * k;
  r.s = 10 * k;
  r.min = min;
  r.max = max;
  for (int c = min; c <= max; ++c) {
    r.ss.push_back((c == g ? 9 : 0.5) * k + 0.001 * c + 0.01 / ng);
  }
  return r;
}

inline Lib
make(int ng, std::vector<int> const & temps, bool full)
{
  Lib l;
  for (int g = 0; g < ng; ++g) {
    l.bounds.push_back(2e7 / std::pow(3.0, g));
    l.chi.push_back(g == 0 ? 0.5 : 0.5 / (g + 1));
  }
  static int const zaids[] = {92235, 1001, 8016, 94239, 40000, 5010, 64157, 26056};
  for (size_t n = 0; n < temps.size(); ++n) {
    Nuc u;
    u.zaid = n < 8 ? zaids[n] : 60000 + int(n);
    u.mass = 1.00783 + 13.25 * double(n);
    for (int t = 0; t < temps[n]; ++t) {
      u.temps.push_back(293.0 + 150.0 * t + 20.0 * t * t + double(n));
      Table tab;
      for (int g = 0; g < ng; ++g) {
        int const lo = full ? 0 : std::max(0, g - 1);
        int const hi = full ? ng - 1 : std::min(ng - 1, g + int(n) % 2);
        tab.rows.push_back(row(ng, int(n), t, g, n % 3 == 0, lo, hi));
      }
      u.xs.push_back(tab);
    }
    u.extra = int(n) % 3;
    l.nucs.push_back(u);
  }
  return l;
}
} // namespace xslib
