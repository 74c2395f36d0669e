// C26: powered regions of a mesh, and scattering and fission sources.
#include "soupref.hpp"
#include "tiling.hpp"

#include <numeric>

#include <um2/mpact/powers.hpp>
#include <um2/mpact/source.hpp>
#include <um2/physics/material.hpp>

using mc::u64;
using gen::Mesh;
using ref::LD;
using ref::P;

namespace
{
um2::VTKElemType
elemType(int type)
{
  using um2::VTKElemType;
  return type == gen::tri ? VTKElemType::Triangle : type == gen::quad ? VTKElemType::Quad : type == gen::tri6 ? VTKElemType::QuadraticTriangle : VTKElemType::QuadraticQuad;
}

// Every face with vertices of its own, displaced by at most gap
Mesh
split(Mesh const & m, LD gap)
{
  Mesh r;
  r.type = m.type;
  r.name = m.name + mc::fmt(" split %Lg", gap);
  for (size_t i = 0; i < m.f.size(); ++i) {
    P const d = {gap * LD(int(i % 3) - 1), gap * LD(int((i / 3) % 3) - 1)};
    std::vector<int> f;
    for (int k : m.f[i]) {
      f.push_back(int(r.v.size()));
      r.v.push_back(m.v[size_t(k)] + d);
    }
    r.f.push_back(f);
  }
  return r;
}

void
fill(um2::PolytopeSoup & s, Mesh const & m)
{
  for (auto const & p : m.v) {
    s.addVertex(Float(p.x), Float(p.y));
  }
  for (auto const & f : m.f) {
    s.addElement(elemType(m.type), soupref::ints(f));
  }
}

struct Region {
  LD power = 0;
  P centroid{};
};

// Groups of powered faces joined by common points
std::vector<Region>
regions(Mesh const & m, std::vector<double> const & power)
{
  size_t const n = m.f.size();
  std::vector<size_t> root(n);
  std::iota(root.begin(), root.end(), size_t(0));
  auto const find = [&](size_t i) {
    while (root[i] != i) {
      i = root[i];
    }
    return i;
  };
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < i; ++j) {
      if (power[i] <= 0 || power[j] <= 0) {
        continue;
      }
      bool joined = false;
      for (int a : m.f[i]) {
        for (int b : m.f[j]) {
          P const d = m.v[size_t(a)] - m.v[size_t(b)];
          joined = joined || std::sqrt(ref::dot(d, d)) < 1e-5L;
        }
      }
      if (joined) {
        root[find(i)] = find(j);
      }
    }
  }
  std::map<size_t, Region> out;
  std::map<size_t, LD> area;
  for (size_t i = 0; i < n; ++i) {
    if (power[i] > 0) {
      P c{};
      LD const a = gen::faceArea(m, i, &c);
      auto & r = out[find(i)];
      r.power += a * power[i];
      r.centroid = r.centroid + a * c;
      area[find(i)] += a;
    }
  }
  std::vector<Region> v;
  for (auto & [k, r] : out) {
    r.centroid = (1 / area[k]) * r.centroid;
    v.push_back(r);
  }
  return v;
}

void
check(Mesh const & m, std::vector<double> const & power, std::string const & w)
{
  um2::PolytopeSoup s;
  fill(s, m);
  std::vector<int> ids(m.f.size());
  std::iota(ids.begin(), ids.end(), 0);
  s.addElset("power", soupref::ints(ids), soupref::floats(power));
  std::string const file = mc::scratch() + "/fsr.xdmf";
  s.write(um2::String(file.c_str()));
  mc::state(mc::hashStr(w));
  long const before = mc::outputSize();
  auto const got = um2::mpact::getPowers(um2::String(file.c_str()));
  mc::transition(1);
  MC_CHECK(mc::outputSize() == before, "message", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
  auto const want = regions(m, power);
  MC_REQUIRE(got.size() == Int(want.size()), "regions", "%s: %d regions, expected %zu", w.c_str(), int(got.size()), want.size());
  std::vector<bool> used(want.size());
  for (Int i = 0; i < got.size(); ++i) {
    auto const & g = got[i];
    bool found = false;
    for (size_t k = 0; k < want.size() && !found; ++k) {
      LD const tol = 1e-9L * (1 + std::abs(want[k].power));
      if (!used[k] && std::abs(g.first - want[k].power) <= tol && std::abs(g.second[0] - want[k].centroid.x) <= 1e-9L * (1 + std::abs(want[k].centroid.x)) &&
          std::abs(g.second[1] - want[k].centroid.y) <= 1e-9L * (1 + std::abs(want[k].centroid.y))) {
        used[k] = true;
        found = true;
      }
    }
    MC_CHECK(found, "region", "%s: power %.12g at (%.12g, %.12g) is not one of the regions", w.c_str(), g.first, g.second[0], g.second[1]);
  }
  mc::trace(1);
}

void
patterns(std::string const & name, int type, int nx, int ny, int diag, int curve, std::vector<int> orders, std::vector<double> gaps)
{
  size_t const n = gen::make(type, nx, ny, diag, curve, 0).f.size();
  u64 const no = orders.size();
  u64 const ngap = gaps.size();
  mc::space(name, ((u64(1) << n) - 1) * no * ngap, [=](u64 i) {
    mc::Dec d(i);
    u64 const order = d.get(no);
    u64 const gap = d.get(ngap);
    u64 const pat = d.get((u64(1) << n) - 1) + 1;
    Mesh m = gen::renumber(gen::make(type, nx, ny, diag, curve, int(order) % 3), orders[order] % 5, orders[order]);
    if (gaps[gap] >= 0) {
      m = split(m, LD(gaps[gap]));
    }
    std::vector<double> power(n);
    for (size_t k = 0; k < n; ++k) {
      power[k] = ((pat >> k) & 1) != 0 ? 0.5 + double((k * 5) % 7) : 0;
    }
    check(m, power, mc::fmt("%s pattern %llx", m.name.c_str(), (unsigned long long)pat));
  });
}

void
powers()
{
  patterns("power-quad", gen::quad, 3, 3, 0, 0, {0, 1, 2, 3, 4}, {-1});
  patterns("power-quad-wide", gen::quad, 4, 3, 0, 0, {0}, {-1});
  patterns("power-tri", gen::tri, 2, 2, 5, 0, {0, 1, 2}, {-1, 0});
  patterns("power-tri-wide", gen::tri, 5, 1, 9, 0, {0}, {-1});
  patterns("power-tri6", gen::tri6, 2, 2, 6, 2, {0, 2}, {-1, 1e-6});
  patterns("power-quad8", gen::quad8, 3, 3, 0, 1, {0, 1}, {-1});
  patterns("power-split", gen::quad, 3, 3, 0, 0, {0, 2}, {0, 1e-6, 1e-3});
  patterns("power-quad-large", gen::quad, 4, 4, 0, 0, {0}, {-1});
  if (mc::thorough()) {
    patterns("power-quad-reordered", gen::quad, 4, 4, 0, 0, {1, 2}, {-1});
    patterns("power-tri-large", gen::tri, 3, 2, 9, 0, {0, 1, 2}, {-1, 0});
    patterns("power-strip", gen::quad, 14, 1, 0, 0, {0, 1, 2}, {-1});
  }
  // long winding regions: rings, combs and spirals on larger grids, every face order
  mc::space("power-winding", 4 * 6 * 5 * 2, [](u64 i) {
    mc::Dec d(i);
    int const kind = d.geti(4);
    int const n = 5 + d.geti(6);
    int const order = d.geti(5);
    int const type = d.geti(2) == 0 ? gen::quad : gen::quad8;
    Mesh const base = gen::make(type, n, n, 0, 0, 1);
    auto const fp = gen::permutation(int(base.f.size()), order);
    Mesh const m = gen::renumber(base, 0, order);
    std::vector<double> grid(size_t(n * n), 0.0);
    for (int y = 0; y < n; ++y) {
      for (int x = 0; x < n; ++x) {
        int const ring = std::min(std::min(x, y), std::min(n - 1 - x, n - 1 - y));
        bool on = false;
        if (kind == 0) {
          on = ring % 2 == 0;
        } else if (kind == 1) {
          on = x % 2 == 0 || y == n - 1; // comb joined at the top
        } else if (kind == 2) {
          on = y % 2 == 0 || (y % 4 == 1 ? x == n - 1 : x == 0); // snake
        } else {
          on = (x + y) % 4 == 0; // diagonals
        }
        grid[size_t(y * n + x)] = on ? 1 + 0.125 * ((x * 3 + y) % 5) : 0;
      }
    }
    std::vector<double> power;
    for (int f : fp) {
      power.push_back(grid[size_t(f)]);
    }
    check(m, power, mc::fmt("%s kind %d", m.name.c_str(), kind));
  });
  // a mesh without power is reported
  mc::space("power-none", 8, [](u64 i) {
    Mesh const m = gen::make(int(i % 4), 2, 1, 0, 0, 0);
    um2::PolytopeSoup s;
    fill(s, m);
    std::vector<int> ids(m.f.size());
    std::iota(ids.begin(), ids.end(), 0);
    s.addElset("power", soupref::ints(ids), soupref::floats(std::vector<double>(m.f.size(), i < 4 ? 0.0 : -1.0)));
    std::string const file = mc::scratch() + "/none.xdmf";
    s.write(um2::String(file.c_str()));
    mc::state(mc::hash(i, 3));
    long const before = mc::outputSize();
    auto const got = um2::mpact::getPowers(um2::String(file.c_str()));
    mc::transition(1);
    MC_CHECK(got.empty() && mc::outputSize() > before, "power-none", "case %llu: %d regions", (unsigned long long)i, int(got.size()));
    mc::trace(1);
  });
}

void
source(Mesh const & m, int ng, std::vector<int> const & mat, int nmat, int flux_kind, std::string const & w)
{
  um2::Vector<um2::Material> mats(static_cast<Int>(nmat));
  std::vector<std::vector<std::pair<double, double>>> xs;
  for (int k = 0; k < nmat; ++k) {
    um2::XSec x(ng);
    xs.emplace_back();
    for (int g = 0; g < ng; ++g) {
      xs.back().emplace_back(0.5 + k + 0.01 * g, k == 1 ? 0 : 0.25 * (k + 1) + 0.001 * g * g);
      x.s()[g] = xs.back().back().first;
      x.nuf()[g] = xs.back().back().second;
      x.a()[g] = 9;
      x.f()[g] = 7;
      x.tr()[g] = 11;
      for (int h = 0; h < ng; ++h) {
        x.ss()(h, g) = 13;
      }
    }
    mats[k].xsec() = x;
  }
  um2::PolytopeSoup s;
  fill(s, m);
  std::vector<int> ids(m.f.size());
  std::iota(ids.begin(), ids.end(), 0);
  std::vector<double> mv;
  for (int k : mat) {
    mv.push_back(k + 1);
  }
  s.addElset("material", soupref::ints(ids), soupref::floats(mv));
  std::vector<std::vector<double>> flux;
  for (int g = 0; g < ng; ++g) {
    flux.emplace_back();
    for (size_t f = 0; f < m.f.size(); ++f) {
      flux.back().push_back(flux_kind == 0 ? 1 : flux_kind == 1 ? 0.5 * double(f) + g : double((f + 3 * size_t(g)) % 4));
    }
    s.addElset(um2::String(mc::fmt("flux_%03d", g + 1).c_str()), soupref::ints(ids), soupref::floats(flux.back()));
  }
  // other data must not matter
  s.addElset("power", soupref::ints(ids), soupref::floats(std::vector<double>(m.f.size(), 3.0)));
  mc::state(mc::hashStr(w));
  long const before = mc::outputSize();
  auto const got = um2::mpact::getSource(s, mats);
  mc::transition(1);
  MC_CHECK(mc::outputSize() == before, "source-message", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
  MC_REQUIRE(got.size() == Int(m.f.size()), "source-size", "%s: %d", w.c_str(), int(got.size()));
  for (size_t f = 0; f < m.f.size(); ++f) {
    LD a = 0;
    LD b = 0;
    for (int g = 0; g < ng; ++g) {
      a += LD(flux[size_t(g)][f]) * xs[size_t(mat[f])][size_t(g)].first;
      b += LD(flux[size_t(g)][f]) * xs[size_t(mat[f])][size_t(g)].second;
    }
    MC_CHECK(std::abs(got[Int(f)][0] - a) <= 1e-11L * (1 + a) && std::abs(got[Int(f)][1] - b) <= 1e-11L * (1 + b), "source-value",
             "%s: face %zu (%.12g, %.12g) expected (%.12Lg, %.12Lg)", w.c_str(), f, got[Int(f)][0], got[Int(f)][1], a, b);
  }
  mc::trace(1);
}

void
sources()
{
  for (int type = 0; type < 4; ++type) {
    // all material maps of a small mesh
    int const nx = type % 2 == 0 ? 2 : 4;
    mc::space(mc::fmt("source-materials-%d", type), 81 * 3 * 5, [=](u64 i) {
      mc::Dec d(i);
      int const flux = d.geti(3);
      int const ng = 1 + d.geti(5);
      Mesh const m = gen::make(type, nx, 1, 1, 0, 1);
      std::vector<int> mat;
      for (size_t f = 0; f < m.f.size(); ++f) {
        mat.push_back(d.geti(3));
      }
      source(m, ng, mat, 3, flux, mc::fmt("%s case %llu", m.name.c_str(), (unsigned long long)i));
    });
  }
  // number of groups, across the digits of the group names
  mc::space("source-groups", 130, [](u64 i) {
    int const ng = int(i) + 1;
    Mesh const m = gen::make(gen::quad, 2, 2, 0, 0, 0);
    source(m, ng, {0, 1, 2, 1}, 3, 1, mc::fmt("%d groups", ng));
  });
  // number of faces and materials
  mc::space("source-faces", 40 * 3, [](u64 i) {
    mc::Dec d(i);
    int const n = 1 + d.geti(40);
    int const nmat = d.geti(3);
    static int const counts[] = {1, 5, 40};
    Mesh const m = gen::make(gen::tri, n, 1, 0x33, 0, 0);
    std::vector<int> mat;
    for (size_t f = 0; f < m.f.size(); ++f) {
      mat.push_back(int(f * 7) % counts[nmat]);
    }
    source(m, 2, mat, counts[nmat], 2, mc::fmt("%d cells, %d materials", n, counts[nmat]));
  });
}

void
mixed()
{
  // meshes of several element types are refused
  mc::space("mixed", 12, [](u64 i) {
    int const a = int(i / 3);
    int const b = (a + 1 + int(i % 3)) % 4;
    Mesh const m = gen::make(a, 1, 1, 0, 0, 0);
    Mesh const n = gen::make(b, 1, 1, 0, 0, 0);
    um2::PolytopeSoup s;
    fill(s, m);
    Int const off = s.numVertices();
    for (auto const & p : n.v) {
      s.addVertex(Float(p.x + 5), Float(p.y));
    }
    for (auto f : n.f) {
      for (int & k : f) {
        k += int(off);
      }
      s.addElement(elemType(n.type), soupref::ints(f));
    }
    std::vector<int> ids(m.f.size() + n.f.size());
    std::iota(ids.begin(), ids.end(), 0);
    std::vector<double> const ones(ids.size(), 1.0);
    s.addElset("power", soupref::ints(ids), soupref::floats(ones));
    s.addElset("material", soupref::ints(ids), soupref::floats(ones));
    s.addElset("flux_001", soupref::ints(ids), soupref::floats(ones));
    std::string const file = mc::scratch() + "/mixed.xdmf";
    s.write(um2::String(file.c_str()));
    um2::Vector<um2::Material> mats(1);
    mats[0].xsec() = um2::XSec(1);
    mc::state(mc::hash(i, 17));
    long before = mc::outputSize();
    auto const p = um2::mpact::getPowers(um2::String(file.c_str()));
    MC_CHECK(p.empty() && mc::outputSize() > before, "mixed-power", "types %d %d", a, b);
    before = mc::outputSize();
    auto const q = um2::mpact::getSource(s, mats);
    MC_CHECK(q.empty() && mc::outputSize() > before, "mixed-source", "types %d %d", a, b);
    mc::transition(2);
    mc::trace(1);
  });
}

void
setup()
{
  um2::logger::level = 2;
  um2::logger::exit_on_error = false;
  powers();
  sources();
  mixed();
}
} // namespace

MC_MAIN(setup)
