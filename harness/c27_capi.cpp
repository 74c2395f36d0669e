// C27: the C interface to a model, against the description of the model and the C++ objects.
#include "modelgen.hpp"

#include <cstring>

#include <um2c.h>

using namespace mg;

namespace
{
template <int T>
typename gen::Lib<T>::Fvm const &
meshIn(Model const & m, Int id)
{
  if constexpr (T == 0) {
    return m.getTriMesh(id);
  } else if constexpr (T == 1) {
    return m.getQuadMesh(id);
  } else if constexpr (T == 2) {
    return m.getTri6Mesh(id);
  } else {
    return m.getQuad8Mesh(id);
  }
}

template <int T>
void
checkCell(void * h, Model const & m, Int id, Cell const & c, std::string const & w)
{
  auto const & cc = m.getCoarseCell(id);
  auto const & fvm = meshIn<T>(m, cc.mesh_id);
  Mesh const g = meshOf(c);
  Int const n = Int(g.f.size());
  Int nf = -1;
  um2MPACTCoarseCellNumFaces(h, id, &nf);
  MC_REQUIRE(nf == n, "faces", "%s: cell %d has %d faces", w.c_str(), int(id), int(nf));
  Float a = -1;
  Float b = -1;
  um2MPACTCoarseCellWidth(h, id, &a);
  um2MPACTCoarseCellHeight(h, id, &b);
  MC_CHECK(std::abs(a - double(widthOf(c))) < 1e-9 && std::abs(b - double(heightOf(c))) < 1e-9, "cell-size", "%s: cell %d %g x %g", w.c_str(), int(id), a, b);
  std::vector<Float> areas(static_cast<size_t>(n));
  um2MPACTCoarseCellFaceAreas(h, id, areas.data());
  std::vector<MatID> mats(static_cast<size_t>(n));
  um2MPACTCoarseCellMaterialIDs(h, id, mats.data());
  mc::transition(5);
  for (Int f = 0; f < n; ++f) {
    P centroid{};
    LD const area = gen::faceArea(g, size_t(f), &centroid);
    MC_CHECK(std::abs(areas[size_t(f)] - area) < 1e-9L, "area", "%s: cell %d face %d %.12g", w.c_str(), int(id), int(f), areas[size_t(f)]);
    MC_CHECK(mats[size_t(f)] == matOf(c, size_t(f)), "material", "%s: cell %d face %d", w.c_str(), int(id), int(f));
    Float x = -9;
    Float y = -9;
    um2MPACTCoarseCellFaceCentroid(h, id, f, &x, &y);
    MC_CHECK(std::abs(x - centroid.x) < 1e-9L && std::abs(y - centroid.y) < 1e-9L, "centroid", "%s: cell %d face %d (%.12g, %.12g)", w.c_str(), int(id), int(f), x, y);
    Int in = -7;
    um2MPACTCoarseCellFaceContaining(h, id, Float(centroid.x), Float(centroid.y), &in);
    MC_CHECK(in == f, "containing", "%s: cell %d face %d is said to be %d", w.c_str(), int(id), int(f), int(in));
    mc::transition(2);
  }
  // points in and around the cell
  for (int i = -1; i <= 5; ++i) {
    for (int j = -1; j <= 5; ++j) {
      Float const x = double(widthOf(c)) * (i + 0.31) / 5;
      Float const y = double(heightOf(c)) * (j + 0.27) / 5;
      Int in = -7;
      um2MPACTCoarseCellFaceContaining(h, id, x, y, &in);
      MC_CHECK(in == fvm.faceContaining(um2::Point2F(x, y)), "containing", "%s: cell %d point (%g, %g) in %d", w.c_str(), int(id), x, y, int(in));
      mc::transition(1);
    }
  }
  // rays
  for (int k = 0; k < 16; ++k) {
    double const t = 0.1 + 6.283185307179586 * k / 16;
    um2::Point2F o;
    o[0] = double(widthOf(c)) * (0.5 - 0.6 * std::cos(t) + 0.03 * (k % 3));
    o[1] = double(heightOf(c)) * (0.5 - 0.6 * std::sin(t) - 0.02 * (k % 5));
    um2::Vec2F d;
    d[0] = std::cos(t);
    d[1] = std::sin(t);
    std::vector<Float> got(1000, -1.0);
    std::vector<Float> want(1000, -1.0);
    Int ng = -1;
    um2MPACTIntersectCoarseCell(h, id, o[0], o[1], d[0], d[1], got.data(), &ng);
    mc::transition(1);
    um2::Vec2F e;
    e[0] = d[0];
    e[1] = d[1];
    Int const nw = fvm.intersect(um2::Ray2F(o, e), want.data());
    std::sort(want.begin(), want.begin() + nw);
    bool same = ng == nw;
    for (Int i = 0; same && i < ng; ++i) {
      same = std::abs(got[size_t(i)] - want[size_t(i)]) < 1e-12;
    }
    MC_CHECK(same, "ray", "%s: cell %d ray %d: %d intersections, expected %d", w.c_str(), int(id), k, int(ng), int(nw));
  }
  // mesh data
  Int type = -1;
  Int nv = -1;
  Float * v = nullptr;
  Int * fv = nullptr;
  nf = -1;
  um2MPACTCoarseCellFaceData(h, id, &type, &nv, &nf, &v, &fv);
  mc::transition(1);
  int const N = gen::nodes(T);
  MC_REQUIRE(type == Int(TYPES[T]) && nv == Int(g.v.size()) && nf == n && v != nullptr && fv != nullptr, "mesh-size", "%s: cell %d", w.c_str(), int(id));
  for (Int f = 0; f < n; ++f) {
    std::vector<P> got;
    std::vector<P> want;
    for (int k = 0; k < N; ++k) {
      Int const q = fv[f * N + k];
      MC_REQUIRE(q >= 0 && q < nv, "mesh-vertex", "%s: cell %d face %d", w.c_str(), int(id), int(f));
      got.push_back({v[2 * q], v[2 * q + 1]});
      want.push_back(g.v[size_t(g.f[size_t(f)][size_t(k)])]);
    }
    MC_CHECK(gen::canon(got, T) == gen::canon(want, T), "mesh-face", "%s: cell %d face %d", w.c_str(), int(id), int(f));
  }
  // the buffers are the caller's to change and free
  for (Int i = 0; i < 2 * nv; ++i) {
    v[i] = -99;
  }
  for (Int i = 0; i < N * n; ++i) {
    fv[i] = -99;
  }
  Float x = 0;
  Float y = 0;
  P centroid{};
  gen::faceArea(g, 0, &centroid);
  um2MPACTCoarseCellFaceCentroid(h, id, 0, &x, &y);
  MC_CHECK(std::abs(x - centroid.x) < 1e-9L && std::abs(y - centroid.y) < 1e-9L, "buffer", "%s: cell %d changed with the caller's buffer", w.c_str(), int(id));
  um2Free(v);
  um2Free(fv);
}

using Heights = std::vector<std::pair<int, double>>;
void
checkHeights(void * h, void (*query)(void *, Int *, Int **, Float **), Heights used, char const * what, std::string const & w)
{
  // distinct pairs ordered by height, then number
  std::sort(used.begin(), used.end(), [](auto const & a, auto const & b) {
    return std::abs(a.second - b.second) < 1e-4 ? a.first < b.first : a.second < b.second;
  });
  used.erase(std::unique(used.begin(), used.end(), [](auto const & a, auto const & b) { return a.first == b.first && std::abs(a.second - b.second) < 1e-4; }),
             used.end());
  Int n = -1;
  Int * ids = nullptr;
  Float * dz = nullptr;
  query(h, &n, &ids, &dz);
  mc::transition(1);
  bool same = n == Int(used.size());
  for (size_t i = 0; same && i < used.size(); ++i) {
    same = ids[i] == used[i].first && std::abs(dz[i] - used[i].second) < 1e-9;
  }
  MC_CHECK(same, "heights", "%s: %s heights: %d pairs, expected %zu", w.c_str(), what, int(n), used.size());
  um2Free(ids);
  um2Free(dz);
}

void
check(void * h, Spec const & s, std::string const & w)
{
  Model const & m = *static_cast<Model *>(h);
  Int n[4] = {-1, -1, -1, -1};
  um2MPACTNumCoarseCells(h, n);
  um2MPACTNumRTMs(h, n + 1);
  um2MPACTNumLattices(h, n + 2);
  um2MPACTNumAssemblies(h, n + 3);
  mc::transition(4);
  MC_REQUIRE(n[0] == Int(s.cells.size()) && n[1] == Int(s.rtms.size()) && n[2] == Int(s.lats.size()) && n[3] == Int(s.asys.size()), "counts",
             "%s: %d %d %d %d", w.c_str(), int(n[0]), int(n[1]), int(n[2]), int(n[3]));
  auto const sameMap = [&](Ids const & ids, Int nx, Int ny, auto && child, char const * what, int id) {
    MC_REQUIRE(nx == Int(ids[0].size()) && ny == Int(ids.size()), "cells", "%s: %s %d is %d x %d", w.c_str(), what, id, int(nx), int(ny));
    for (Int j = 0; j < ny; ++j) {
      for (Int i = 0; i < nx; ++i) {
        Int c = -1;
        child(i, j, &c);
        mc::transition(1);
        MC_CHECK(c == ids[size_t(ny - 1 - j)][size_t(i)], "child", "%s: %s %d position (%d, %d) is %d", w.c_str(), what, id, int(i), int(j), int(c));
      }
    }
  };
  Int nx = -1;
  Int ny = -1;
  um2MPACTCoreNumCells(h, &nx, &ny);
  sameMap(s.core, nx, ny, [&](Int i, Int j, Int * c) { um2MPACTCoreGetChild(h, i, j, c); }, "core", 0);
  for (Int k = 0; k < n[2]; ++k) {
    um2MPACTLatticeNumCells(h, k, &nx, &ny);
    sameMap(s.lats[size_t(k)], nx, ny, [&](Int i, Int j, Int * c) { um2MPACTLatticeGetChild(h, k, i, j, c); }, "lattice", int(k));
  }
  for (Int k = 0; k < n[1]; ++k) {
    um2MPACTRTMNumCells(h, k, &nx, &ny);
    sameMap(s.rtms[size_t(k)], nx, ny, [&](Int i, Int j, Int * c) { um2MPACTRTMGetChild(h, k, i, j, c); }, "module", int(k));
    LD rw = 0;
    LD rh = 0;
    for (int c : s.rtms[size_t(k)][0]) {
      rw += widthOf(s.cells[size_t(c)]);
    }
    for (auto const & row : s.rtms[size_t(k)]) {
      rh += heightOf(s.cells[size_t(row[0])]);
    }
    Float a = -1;
    Float b = -1;
    um2MPACTRTMWidth(h, k, &a);
    um2MPACTRTMHeight(h, k, &b);
    MC_CHECK(std::abs(a - rw) < 1e-9L && std::abs(b - rh) < 1e-9L, "module-size", "%s: module %d %g x %g", w.c_str(), int(k), a, b);
  }
  Heights hc;
  Heights hr;
  Heights hl;
  for (Int k = 0; k < n[3]; ++k) {
    auto const & asy = s.asys[size_t(k)];
    Int nz = -1;
    um2MPACTAssemblyNumCells(h, k, &nz);
    MC_REQUIRE(nz == Int(asy.lats.size()), "layers", "%s: assembly %d has %d", w.c_str(), int(k), int(nz));
    std::vector<Float> dz(size_t(nz), -1.0);
    um2MPACTAssemblyHeights(h, k, dz.data());
    for (Int i = 0; i < nz; ++i) {
      Int c = -1;
      um2MPACTAssemblyGetChild(h, k, i, &c);
      double const want = asy.z.empty() ? 1 : asy.z[size_t(i) + 1] - asy.z[size_t(i)];
      MC_CHECK(c == asy.lats[size_t(i)] && std::abs(dz[size_t(i)] - want) < 1e-9, "layer", "%s: assembly %d layer %d: %d height %g", w.c_str(), int(k), int(i),
               int(c), dz[size_t(i)]);
      hl.emplace_back(asy.lats[size_t(i)], want);
      for (auto const & row : s.lats[size_t(asy.lats[size_t(i)])]) {
        for (int t : row) {
          hr.emplace_back(t, want);
          for (auto const & r : s.rtms[size_t(t)]) {
            for (int cell : r) {
              hc.emplace_back(cell, want);
            }
          }
        }
      }
    }
    mc::transition(1);
  }
  checkHeights(h, um2MPACTCoarseCellHeights, hc, "cell", w);
  checkHeights(h, um2MPACTRTMHeights, hr, "module", w);
  checkHeights(h, um2MPACTLatticeHeights, hl, "lattice", w);
  for (Int k = 0; k < n[0]; ++k) {
    Cell const & c = s.cells[size_t(k)];
    switch (c.type) {
    case 0:
      checkCell<0>(h, m, k, c, w);
      break;
    case 1:
      checkCell<1>(h, m, k, c, w);
      break;
    case 2:
      checkCell<2>(h, m, k, c, w);
      break;
    default:
      checkCell<3>(h, m, k, c, w);
      break;
    }
  }
}

void *
fresh(Spec const & s, std::string const & w)
{
  void * h = nullptr;
  um2NewMPACTModel(&h);
  int const bad = build(s, *static_cast<Model *>(h));
  if (bad != 0) {
    mc::fail("build", w + " was not accepted");
  }
  return h;
}

void *
reread(Spec const & s, std::string const & file, std::string const & w)
{
  void * a = fresh(s, w);
  static_cast<Model *>(a)->write(um2::String(file.c_str()));
  um2DeleteMPACTModel(a);
  void * h = nullptr;
  um2ReadMPACTModel(file.c_str(), &h);
  return h;
}

void
models()
{
  for (auto const & f : families()) {
    if (f.name == "odd-heights") {
      continue; // heights closer than the interface distinguishes
    }
    mc::space(f.name, f.n, [f](u64 i) {
      Spec const s = f.make(i);
      std::string const w = mc::fmt("%s %llu", f.name.c_str(), (unsigned long long)i);
      mc::state(mc::hashStr(w));
      void * h = fresh(s, w);
      check(h, s, w);
      um2DeleteMPACTModel(h);
      mc::trace(1);
    });
  }
  // heights shared between assemblies, all choices from four heights for up to five layers
  mc::space("heights", 4 * 4 * 4 * 4 * 4, [](u64 i) {
    mc::Dec d(i);
    static double const step[] = {0.5, 1, 1.001, 3};
    Spec s = base();
    s.lats = {{{0, 1}}, {{2, 3}}};
    s.asys = {{{0, 1}, {0}}, {{1, 0, 1}, {0}}};
    for (auto & a : s.asys) {
      for (size_t k = 0; k < a.lats.size(); ++k) {
        a.z.push_back(a.z.back() + step[d.geti(4)]);
      }
    }
    // assemblies of a core have the same height
    double const top = 10;
    for (auto & a : s.asys) {
      a.lats.push_back(0);
      a.z.push_back(top);
    }
    s.core = {{0, 1}};
    std::string const w = mc::fmt("heights %llu", (unsigned long long)i);
    mc::state(mc::hashStr(w));
    void * h = fresh(s, w);
    check(h, s, w);
    um2DeleteMPACTModel(h);
    mc::trace(1);
  });
  // models read from files
  for (auto const & f : families()) {
    if (f.name != "permuted-ids" && f.name != "uneven-module" && f.name != "core-2x2") {
      continue;
    }
    u64 const step = mc::pick(4, 1);
    mc::space("read-" + f.name, f.n / step, [f, step](u64 i) {
      Spec s = f.make(i * step);
      prune(s);
      std::string const w = mc::fmt("read %s %llu", f.name.c_str(), (unsigned long long)(i * step));
      mc::state(mc::hashStr(w));
      um2::logger::level = 1;
      void * h = reread(s, mc::scratch() + "/model.xdmf", w);
      check(h, s, w);
      um2DeleteMPACTModel(h);
      mc::trace(1);
    });
  }
  // all orders of opening, querying twice and closing two models
  mc::space("two-models", 70 * 6 * 2, [](u64 i) {
    mc::Dec d(i);
    int const order = d.geti(70);
    int const pair = d.geti(6);
    bool const read = d.geti(2) == 1;
    Spec s[2] = {base(), base()};
    auto const fam = families();
    for (int k = 0; k < 2; ++k) {
      for (auto const & f : fam) {
        static char const * const names[] = {"permuted-ids", "uneven-module", "core-2x2"};
        if (f.name == names[(pair + k * (1 + pair / 3)) % 3]) {
          s[k] = f.make((u64(pair) * 37 + u64(k) * 11) % f.n);
        }
      }
      prune(s[k]);
    }
    // the order-th word with four steps of each model
    int word = 0;
    for (int seen = 0, x = 0; x < 256; ++x) {
      if (__builtin_popcount(unsigned(x)) == 4) {
        if (seen++ == order) {
          word = x;
        }
      }
    }
    std::string const w = mc::fmt("two models, order %02x, pair %d, read %d", unsigned(word), pair, read);
    mc::state(mc::hashStr(w));
    um2::logger::level = 1;
    void * h[2] = {nullptr, nullptr};
    int at[2] = {0, 0};
    Int nv = 0;
    Int nf = 0;
    Int type = 0;
    Float * kept[2] = {nullptr, nullptr};
    Int * kept_fv[2] = {nullptr, nullptr};
    Int kept_n[2] = {0, 0};
    for (int k = 0; k < 8; ++k) {
      int const q = (word >> k) & 1;
      switch (at[q]++) {
      case 0:
        h[q] = read ? reread(s[q], mc::scratch() + mc::fmt("/m%d.xdmf", q), w) : fresh(s[q], w);
        break;
      case 1:
        check(h[q], s[q], w);
        um2MPACTCoarseCellFaceData(h[q], 0, &type, &nv, &nf, &kept[q], &kept_fv[q]);
        kept_n[q] = nv;
        break;
      case 2:
        check(h[q], s[q], w);
        break;
      default:
        um2DeleteMPACTModel(h[q]);
        break;
      }
    }
    // buffers outlive their model
    for (int q = 0; q < 2; ++q) {
      double sum = 0;
      for (Int k = 0; k < 2 * kept_n[q]; ++k) {
        sum += kept[q][k];
      }
      LD want = 0;
      for (auto const & p : meshOf(s[q].cells[0]).v) {
        want += p.x + p.y;
      }
      MC_CHECK(std::abs(sum - want) < 1e-9L, "kept-buffer", "%s: model %d", w.c_str(), q);
      um2Free(kept[q]);
      um2Free(kept_fv[q]);
    }
    mc::trace(1);
  });
  mc::space("sizes", 64, [](u64 i) {
    mc::state(mc::hash(i, 1));
    int a = 0;
    int b = 0;
    um2SizeOfInt(&a);
    um2SizeOfFloat(&b);
    MC_CHECK(a == int(sizeof(Int)) && b == int(sizeof(Float)), "sizes", "%d %d", a, b);
    void * p = nullptr;
    um2Malloc(&p, Int(i) * 16 + 1);
    std::memset(p, 7, size_t(i) * 16 + 1);
    um2Free(p);
    mc::transition(4);
    mc::trace(1);
  });
}

void
setup()
{
  um2::logger::level = 2;
  um2::logger::exit_on_error = false;
  models();
}
} // namespace

MC_MAIN(setup)
