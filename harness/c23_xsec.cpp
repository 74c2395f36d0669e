// C23: cross section sets: collapsing, homogenising, validation and the built-in benchmark data.
#include "c5g7.hpp"
#include "modelgen.hpp"

#include <um2/physics/cross_section.hpp>

using namespace mg;
using um2::XSec;

namespace
{
struct Ref {
  std::vector<LD> a, f, nuf, tr, s;
  std::vector<std::vector<LD>> ss; // [to][from]
};

Ref
refOf(XSec const & x)
{
  Ref r;
  for (Int g = 0; g < x.numGroups(); ++g) {
    r.a.push_back(x.a()[g]);
    r.f.push_back(x.f()[g]);
    r.nuf.push_back(x.nuf()[g]);
    r.tr.push_back(x.tr()[g]);
    r.s.push_back(x.s()[g]);
    r.ss.push_back({});
    for (Int h = 0; h < x.numGroups(); ++h) {
      r.ss.back().push_back(x.ss()(g, h));
    }
  }
  return r;
}

LD
mean(std::vector<LD> const & v)
{
  LD s = 0;
  for (LD x : v) {
    s += x;
  }
  return s / LD(v.size());
}

bool
eq(double a, LD b)
{
  return std::abs(LD(a) - b) <= 1e-13L + 1e-11L * std::abs(b);
}

// Scattering sums are formed from the matrix
void
fillScatter(XSec & x)
{
  for (Int g = 0; g < x.numGroups(); ++g) {
    x.s()[g] = 0;
    for (Int h = 0; h < x.numGroups(); ++h) {
      x.s()[g] += x.ss()(h, g);
    }
  }
}

// Values that differ in every array and entry
double
value(int pattern, int array, int i)
{
  switch (pattern) {
  case 0:
    return 0.001 * (array + 1) * (i + 1);
  case 1:
    return (i + array) % 3 == 0 ? 0 : 1.0 / (1 + (i * 7 + array * 3) % 11);
  case 2:
    return array == 1 || array == 2 ? 0 : 0.25;
  case 3:
    return i == 0 ? 5.5 + array : 0;
  default:
    return double((i * 13 + array * 5) % 17) / 16;
  }
}

XSec
make(int ng, int pattern)
{
  XSec x(ng);
  x.isMacro() = true;
  bool fissile = false;
  for (int g = 0; g < ng; ++g) {
    x.a()[g] = value(pattern, 0, g);
    x.f()[g] = value(pattern, 1, g);
    x.nuf()[g] = value(pattern, 2, g);
    x.tr()[g] = value(pattern, 3, g);
    fissile = fissile || x.f()[g] > 0 || x.nuf()[g] > 0;
    for (int h = 0; h < ng; ++h) {
      x.ss()(h, g) = value(pattern, 4, g * ng + h) / 8;
    }
  }
  x.isFissile() = fissile;
  fillScatter(x);
  return x;
}

void
checkCollapse(XSec const & x, std::string const & w)
{
  long const before = mc::outputSize();
  Ref const r = refOf(x);
  XSec const y = x.collapseTo1GroupAvg();
  mc::transition(1);
  MC_CHECK(mc::outputSize() == before, "message", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
  MC_REQUIRE(y.numGroups() == 1 && y.a().size() == 1 && y.ss().rows() == 1 && y.ss().cols() == 1, "collapse-size", "%s", w.c_str());
  MC_CHECK(y.isMacro() == x.isMacro() && y.isFissile() == x.isFissile(), "collapse-flags", "%s", w.c_str());
  MC_CHECK(eq(y.a()[0], mean(r.a)) && eq(y.f()[0], mean(r.f)) && eq(y.nuf()[0], mean(r.nuf)) && eq(y.tr()[0], mean(r.tr)) && eq(y.s()[0], mean(r.s)),
           "collapse-mean", "%s: a %.15g f %.15g nuf %.15g tr %.15g s %.15g", w.c_str(), y.a()[0], y.f()[0], y.nuf()[0], y.tr()[0], y.s()[0]);
  MC_CHECK(eq(y.t(0), mean(r.a) + mean(r.s)), "collapse-total", "%s: %.15g", w.c_str(), y.t(0));
  // the scattering out of all groups stays the scattering cross section
  MC_CHECK(std::abs(y.ss()(0, 0) - double(mean(r.s))) <= 1e-9, "collapse-scatter", "%s: %.15g expected %.15Lg", w.c_str(), y.ss()(0, 0), mean(r.s));
  for (Int g = 0; g < x.numGroups(); ++g) {
    MC_CHECK(eq(x.t(g), r.a[size_t(g)] + r.s[size_t(g)]), "total", "%s: group %d", w.c_str(), int(g));
    MC_CHECK(LD(x.a()[g]) == r.a[size_t(g)] && LD(x.s()[g]) == r.s[size_t(g)], "source-changed", "%s", w.c_str());
  }
}

void
collapse()
{
  u64 const sizes = mc::pick(60, 130);
  mc::space("collapse-sizes", (sizes + 8) * 5, [sizes](u64 i) {
    static int const more[8] = {127, 128, 129, 130, 131, 191, 192, 257};
    u64 const k = i / 5;
    int const ng = k < sizes ? int(k) + 1 : more[k - sizes];
    int const p = int(i % 5);
    std::string const w = mc::fmt("%d groups, pattern %d", ng, p);
    mc::state(mc::hashStr(w));
    checkCollapse(make(ng, p), w);
    mc::trace(1);
  });
  // two groups, all combinations of values
  mc::space("collapse-values", 81 * 16 * 8, [](u64 i) {
    mc::Dec d(i);
    static double const v[3] = {0, 0.125, 1};
    XSec x(2);
    for (int k = 0; k < 4; ++k) {
      x.ss()(k / 2, k % 2) = v[d.geti(3)];
    }
    x.a()[0] = d.geti(2);
    x.a()[1] = 0.5 * d.geti(2);
    x.f()[0] = 0.25 * d.geti(2);
    x.nuf()[1] = 0.375 * d.geti(2);
    x.tr()[0] = d.geti(2);
    x.isMacro() = d.geti(2) == 1;
    d.geti(2);
    x.isFissile() = true;
    fillScatter(x);
    mc::state(mc::hash(i, 77));
    checkCollapse(x, mc::fmt("values %llu", (unsigned long long)i));
    mc::trace(1);
  });
}

// Validation ------------------------------------------------------------------------------------------

void
checkValid(XSec const & x, bool good, std::string const & w)
{
  long const before = mc::outputSize();
  x.validate();
  mc::transition(1);
  bool const silent = mc::outputSize() == before;
  MC_CHECK(silent == good, good ? "valid-reported" : "invalid-silent", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
}

double &
entry(XSec & x, int array, int i)
{
  switch (array) {
  case 0:
    return x.a()[i];
  case 1:
    return x.f()[i];
  case 2:
    return x.nuf()[i];
  case 3:
    return x.tr()[i];
  case 4:
    return x.s()[i];
  default:
    return x.ss()(i);
  }
}

void
validation()
{
  static char const * const arrays[] = {"absorption", "fission", "nu fission", "transport", "scattering", "matrix"};
  int const maxg = static_cast<int>(mc::pick(4, 8));
  for (int ng = 1; ng <= maxg; ++ng) {
    // every pair of entries of every pair of arrays changed to a negative or positive value
    int const entries = 5 * ng + ng * ng;
    auto const at = [ng](int k) { return k < 5 * ng ? std::make_pair(k / ng, k % ng) : std::make_pair(5, k - 5 * ng); };
    mc::space(mc::fmt("validate-%d", ng), u64(entries) * u64(entries) * 9 * 4, [=](u64 i) {
      mc::Dec d(i);
      auto const p = at(d.geti(entries));
      auto const q = at(d.geti(entries));
      static double const v[3] = {-0.25, 0, 0.5};
      double const vp = v[d.geti(3)];
      double const vq = v[d.geti(3)];
      bool const macro = d.geti(2) == 1;
      bool const fissile = d.geti(2) == 1;
      XSec x(ng);
      x.isMacro() = macro;
      x.isFissile() = fissile;
      entry(x, p.first, p.second) = vp;
      entry(x, q.first, q.second) = vq;
      bool good = true;
      for (auto const & e : {p, q}) {
        double const y = entry(x, e.first, e.second);
        good = good && !(macro && y < 0) && !((e.first == 1 || e.first == 2) && y > 0 && !fissile);
      }
      mc::state(mc::hash(i, u64(ng)));
      checkValid(x, good, mc::fmt("%d groups, %s[%d]=%g %s[%d]=%g macro %d fissile %d", ng, arrays[p.first], p.second, vp, arrays[q.first], q.second, vq, macro, fissile));
      mc::trace(1);
    });
  }
  // sizes that do not match the number of groups
  mc::space("validate-sizes", 4 * 4 * 729, [](u64 i) {
    mc::Dec d(i);
    int const ng = 1 + d.geti(4);
    bool const macro = d.geti(2) == 1;
    bool const fissile = d.geti(2) == 1;
    XSec x(ng);
    x.isMacro() = macro;
    x.isFissile() = fissile;
    std::string w = mc::fmt("%d groups", ng);
    bool good = true;
    um2::Vector<Float> * const v[5] = {&x.a(), &x.f(), &x.nuf(), &x.tr(), &x.s()};
    for (int k = 0; k < 6; ++k) {
      int const delta = d.geti(3) - 1;
      good = good && delta == 0;
      w += mc::fmt(" %s %+d", arrays[k], delta);
      if (k < 5) {
        *v[k] = ng + delta > 0 ? um2::Vector<Float>(ng + delta, 0.0) : um2::Vector<Float>();
      } else if (ng + delta > 0) {
        x.ss() = um2::Matrix<Float>(ng + delta, ng + delta, 0.0);
      } else {
        x.ss() = um2::Matrix<Float>(ng + 1, ng, 0.0);
      }
    }
    mc::state(mc::hashStr(w));
    checkValid(x, good, w);
    mc::trace(1);
  });
  // a set without groups is not consistent
  mc::space("validate-empty", 1, [](u64) {
    XSec x;
    mc::state(1);
    checkValid(x, false, "no groups");
    mc::trace(1);
  });
}

// Benchmark materials ----------------------------------------------------------------------------------

void
benchmark()
{
  mc::space("benchmark", 7, [](u64 i) {
    auto const xs = um2::getC5G7XSecs();
    auto const mats = um2::getC5G7Materials();
    MC_REQUIRE(xs.size() == 7 && mats.size() == 7, "benchmark-count", "%d %d", int(xs.size()), int(mats.size()));
    C5G7 const & b = BENCHMARK[i];
    mc::state(mc::hash(i, 5));
    for (int which = 0; which < 2; ++which) {
      XSec const & x = which == 0 ? xs[Int(i)] : mats[Int(i)].xsec();
      std::string const w = mc::fmt("%s (%s)", b.name, which == 0 ? "cross section" : "material");
      MC_REQUIRE(x.numGroups() == 7 && x.isMacro(), "benchmark-groups", "%s", w.c_str());
      bool fissile = false;
      for (Int g = 0; g < 7; ++g) {
        fissile = fissile || b.g[g][4] > 0;
        MC_CHECK(eq(x.a()[g], b.g[g][2]) && eq(x.f()[g], b.g[g][4]) && eq(x.nuf()[g], LD(b.g[g][4]) * b.g[g][5]) && eq(x.tr()[g], b.g[g][1]), "benchmark-value",
                 "%s group %d: a %.12g f %.12g nuf %.12g tr %.12g", w.c_str(), int(g), x.a()[g], x.f()[g], x.nuf()[g], x.tr()[g]);
        LD out = 0;
        for (Int h = 0; h < 7; ++h) {
          out += b.s[g][h];
          MC_CHECK(eq(x.ss()(h, g), b.s[g][h]), "benchmark-scatter", "%s from %d to %d: %.12g", w.c_str(), int(g), int(h), x.ss()(h, g));
        }
        MC_CHECK(eq(x.s()[g], out) && eq(x.t(g), out + b.g[g][2]), "benchmark-total", "%s group %d: s %.12g t %.12g", w.c_str(), int(g), x.s()[g], x.t(g));
        // the scattering data are transport corrected
        MC_CHECK(std::abs(x.t(g) - x.tr()[g]) < 2e-5, "benchmark-transport", "%s group %d: %.12g %.12g", w.c_str(), int(g), x.t(g), x.tr()[g]);
      }
      MC_CHECK(x.isFissile() == fissile, "benchmark-fissile", "%s", w.c_str());
      checkValid(x, true, w);
      checkCollapse(x, w);
    }
    static char const * const names[7] = {"UO2", "MOX_4.3", "MOX_7.0", "MOX_8.7", "Fission_Chamber", "Guide_Tube", "Moderator"};
    MC_CHECK(std::string(mats[Int(i)].getName().data()) == names[i], "benchmark-name", "%s", mats[Int(i)].getName().data());
    mc::trace(1);
  });
}

// Homogenising ----------------------------------------------------------------------------------------

void
homogenise()
{
  int const groups = static_cast<int>(mc::pick(4, 8));
  mc::space("homogenise", 4 * 4 * 81 * u64(groups), [groups](u64 i) {
    mc::Dec d(i);
    int const ng = 1 + d.geti(groups);
    Cell c;
    c.type = d.geti(4);
    c.nx = 1 + d.geti(2);
    c.ny = 1 + d.geti(2);
    c.diag = 6;
    int const n = 4;
    for (int k = 0; k < n; ++k) {
      c.mats.push_back(d.geti(3));
    }
    std::string w = mc::fmt("%d groups, mesh %d %dx%d, materials", ng, c.type, c.nx, c.ny);
    for (int k : c.mats) {
      w += mc::fmt(" %d", k);
    }
    mc::state(mc::hashStr(w));
    Spec s;
    s.cells = {c};
    s.mats = 0;
    Model m;
    static int const pat[3] = {0, 2, 4};
    for (int k = 0; k < 3; ++k) {
      um2::Material mat;
      mat.setName(um2::String(mc::fmt("m%d", k).c_str()));
      mat.xsec() = make(ng, pat[k]);
      m.addMaterial(mat, false);
    }
    Mesh const g = meshOf(c);
    Int id = -1;
    switch (c.type) {
    case 0:
      id = m.addTriMesh(libMesh<0>(g));
      break;
    case 1:
      id = m.addQuadMesh(libMesh<1>(g));
      break;
    case 2:
      id = m.addTri6Mesh(libMesh<2>(g));
      break;
    default:
      id = m.addQuad8Mesh(libMesh<3>(g));
      break;
    }
    um2::Vector<MatID> ids;
    for (size_t k = 0; k < g.f.size(); ++k) {
      ids.push_back(static_cast<MatID>(matOf(c, k)));
    }
    um2::Vec2F e;
    e[0] = double(widthOf(c));
    e[1] = double(heightOf(c));
    MC_REQUIRE(m.addCoarseCell(e, TYPES[c.type], id, ids) == 0, "rejected", "%s", w.c_str());
    long const before = mc::outputSize();
    XSec const x = m.getCoarseCellHomogenizedXSec(0);
    mc::transition(1);
    MC_CHECK(mc::outputSize() == before, "message", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
    MC_REQUIRE(x.numGroups() == ng && x.isMacro(), "homogenise-groups", "%s", w.c_str());
    LD frac[3] = {0, 0, 0};
    LD area = 0;
    for (size_t k = 0; k < g.f.size(); ++k) {
      frac[matOf(c, k)] += gen::faceArea(g, k);
      area += gen::faceArea(g, k);
    }
    Ref const r[3] = {refOf(m.materials()[0].xsec()), refOf(m.materials()[1].xsec()), refOf(m.materials()[2].xsec())};
    auto const avg = [&](auto const & get) {
      LD sum = 0;
      for (int k = 0; k < 3; ++k) {
        sum += frac[k] * get(r[k]);
      }
      return sum / area;
    };
    bool fissile = false;
    for (size_t q = 0; q < size_t(ng); ++q) {
      Int const gq = Int(q);
      LD const f = avg([q](Ref const & y) { return y.f[q]; });
      LD const a = avg([q](Ref const & y) { return y.a[q]; });
      LD const sc = avg([q](Ref const & y) { return y.s[q]; });
      fissile = fissile || f > 0;
      MC_CHECK(eq(x.a()[gq], a) && eq(x.f()[gq], f) && eq(x.nuf()[gq], avg([q](Ref const & y) { return y.nuf[q]; })) &&
                   eq(x.tr()[gq], avg([q](Ref const & y) { return y.tr[q]; })) && eq(x.s()[gq], sc) && eq(x.t(gq), a + sc),
               "homogenise-value", "%s group %zu: %.12g %.12g %.12g %.12g %.12g", w.c_str(), q, x.a()[gq], x.f()[gq], x.nuf()[gq], x.tr()[gq], x.s()[gq]);
      for (size_t h = 0; h < size_t(ng); ++h) {
        MC_CHECK(eq(x.ss()(Int(h), gq), avg([q, h](Ref const & y) { return y.ss[h][q]; })), "homogenise-scatter", "%s from %zu to %zu: %.12g", w.c_str(), q, h,
                 x.ss()(Int(h), gq));
      }
    }
    MC_CHECK(x.isFissile() == fissile, "homogenise-fissile", "%s", w.c_str());
    mc::trace(1);
  });
}

void
setup()
{
  um2::logger::level = 2;
  um2::logger::exit_on_error = false;
  collapse();
  validation();
  benchmark();
  homogenise();
}
} // namespace

MC_MAIN(setup)
