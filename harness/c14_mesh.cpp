// C14: face-vertex meshes: construction, renumbering, adjacency, lookup, conversion, validation.
#include "fvmlib.hpp"

#include <um2/common/logger.hpp>

namespace
{
using gen::Lib;
using gen::build;
using gen::Mesh;
using mc::u64;
using ref::LD;
using ref::P;

template <int T>
std::multiset<std::string>
polygonsOf(typename Lib<T>::Fvm const & m)
{
  std::multiset<std::string> r;
  for (Int i = 0; i < m.numFaces(); ++i) {
    std::vector<P> p;
    std::vector<P> q;
    auto const face = m.getFace(i);
    for (Int k = 0; k < Lib<T>::N; ++k) {
      Int const id = m.getFaceConn(i)[k];
      MC_CHECK(id >= 0 && id < m.numVertices(), "conn-range", "face %d: %d", int(i), int(id));
      if (id < 0 || id >= m.numVertices()) {
        return r;
      }
      p.push_back({LD(m.getVertex(id)[0]), LD(m.getVertex(id)[1])});
      q.push_back({LD(face[k][0]), LD(face[k][1])});
    }
    r.insert(gen::canon(p, T));
    MC_CHECK(gen::canon(p, T) == gen::canon(q, T), "face-access", "face %d", int(i));
  }
  return r;
}

std::string
diff(std::multiset<std::string> const & a, std::multiset<std::string> const & b)
{
  for (auto const & s : a) {
    if (b.count(s) != a.count(s)) {
      return "unexpected " + s;
    }
  }
  for (auto const & s : b) {
    if (b.count(s) != a.count(s)) {
      return "missing " + s;
    }
  }
  return "";
}

// Vertex-to-face adjacency against a direct scan
template <int T>
void
checkVF(typename Lib<T>::Fvm const & m, std::string const & w)
{
  auto const & off = m.vertexFaceOffsets();
  auto const & vf = m.vertexFaceConn();
  MC_REQUIRE(off.size() == m.numVertices() + 1 && off[0] == 0 && off.back() == vf.size(), "adjacency-size", "%s", w.c_str());
  for (Int v = 0; v < m.numVertices(); ++v) {
    std::vector<Int> want;
    for (Int i = 0; i < m.numFaces(); ++i) {
      for (Int k = 0; k < Lib<T>::N; ++k) {
        if (m.getFaceConn(i)[k] == v) {
          want.push_back(i);
        }
      }
    }
    std::vector<Int> got;
    for (Int k = off[v]; k < off[v + 1]; ++k) {
      got.push_back(vf[k]);
    }
    MC_CHECK(got == want, "adjacency", "%s vertex %d", w.c_str(), int(v));
  }
  mc::transition(u64(m.numVertices()));
}

template <int T>
void
checkGeometry(typename Lib<T>::Fvm & fvm, Mesh const & m, std::string const & w, bool points)
{
  auto const want = gen::polygons(m);
  auto const got = polygonsOf<T>(fvm);
  MC_REQUIRE(got == want, "polygons", "%s: %s", w.c_str(), diff(got, want).c_str());
  LD area = 0;
  for (Int i = 0; i < fvm.numFaces(); ++i) {
    auto const face = fvm.getFace(i);
    MC_CHECK(face.isCCW(), "ccw", "%s face %d", w.c_str(), int(i));
    area += face.area();
    for (Int e = 0; e < gen::corners(T); ++e) {
      auto const c = fvm.getEdgeConn(i, e);
      auto const g = fvm.getEdge(i, e);
      auto const h = face.getEdge(e);
      for (Int k = 0; k < (T < 2 ? 2 : 3); ++k) {
        MC_CHECK(fvm.getVertex(c[k])[0] == g[k][0] && fvm.getVertex(c[k])[1] == g[k][1] && g[k][0] == h[k][0] && g[k][1] == h[k][1], "edge-access",
                 "%s face %d edge %d", w.c_str(), int(i), int(e));
      }
    }
  }
  LD const ref_area = gen::area(m);
  MC_CHECK(std::abs(area - ref_area) < 1e-10L * ref_area, "area", "%s: %.12Lg expected %.12Lg", w.c_str(), area, ref_area);
  P lo = {1e30L, 1e30L};
  P hi = {-1e30L, -1e30L};
  for (size_t i = 0; i < m.f.size(); ++i) {
    for (auto const & e : m.edges(i)) {
      ref::extend(e, lo, hi);
    }
  }
  auto const box = fvm.boundingBox();
  MC_CHECK(std::abs(box.minima(0) - lo.x) < 1e-10L && std::abs(box.minima(1) - lo.y) < 1e-10L && std::abs(box.maxima(0) - hi.x) < 1e-10L &&
               std::abs(box.maxima(1) - hi.y) < 1e-10L,
           "bounding-box", "%s", w.c_str());
  if (points) {
    // which polygon contains each lattice point
    int const n = 12;
    for (int iy = -1; iy <= n; ++iy) {
      for (int ix = -1; ix <= n; ++ix) {
        P const x = {lo.x + (hi.x - lo.x) * (ix + 0.4375L) / n, lo.y + (hi.y - lo.y) * (iy + 0.40625L) / n};
        int in = -1;
        bool near = false;
        for (size_t i = 0; i < m.f.size(); ++i) {
          auto const es = m.edges(i);
          if (ref::inside(es, x)) {
            in = int(i);
          }
        }
        um2::Point2<Float> p;
        p[0] = double(x.x);
        p[1] = double(x.y);
        Int const got_face = fvm.faceContaining(p);
        bool ok = in < 0 ? got_face == -1 : got_face >= 0 && got_face < fvm.numFaces();
        if (ok && in >= 0) {
          std::vector<P> a;
          std::vector<P> b;
          for (int k : m.f[size_t(in)]) {
            a.push_back(m.v[size_t(k)]);
          }
          auto const face = fvm.getFace(got_face);
          for (Int k = 0; k < Lib<T>::N; ++k) {
            b.push_back({LD(face[k][0]), LD(face[k][1])});
          }
          ok = gen::canon(a, T) == gen::canon(b, T);
        }
        if (!ok) {
          for (size_t i = 0; i < m.f.size(); ++i) {
            near = near || ref::distance(m.edges(i), x) < 1e-6L;
          }
        }
        MC_CHECK(ok || near, "face-containing", "%s point (%.9Lg,%.9Lg): %d", w.c_str(), x.x, x.y, int(got_face));
        mc::transition();
      }
    }
  }
}

// Grid sizes per index
int const NX[] = {1, 2, 1, 2, 3, 3};
int const NY[] = {1, 1, 2, 2, 1, 2};

template <int T>
int
diagonals()
{
  return T % 2 == 1 ? 1 : (T == 2 && !mc::thorough() ? 4 : (mc::thorough() ? 64 : 16));
}

template <int T>
void
construct(u64 idx, int sizes)
{
  mc::Dec q(idx);
  int const g = q.geti(sizes);
  int const curve = T < 2 ? 0 : q.geti(3);
  int const at = q.geti(3);
  int const idiag = q.geti(diagonals<T>());
  int const diag = T == 2 && !mc::thorough() ? (idiag * 5) % 16 : idiag;
  if (diag >= (1 << (NX[g] * NY[g]))) {
    return;
  }
  int const vkind = q.geti(5);
  int const fkind = q.geti(3);
  int const rot = q.geti(gen::corners(T));
  int const flip = q.geti(6);
  int const how = q.geti(3); // from arrays, from a planar soup, from a soup with varying z
  Mesh const base = gen::make(T, NX[g], NY[g], diag, curve, at);
  Mesh const m = gen::renumber(base, vkind, fkind);
  std::vector<std::vector<int>> conn;
  bool any = false;
  for (size_t i = 0; i < m.f.size(); ++i) {
    static unsigned const masks[] = {0, 1, 0xffffffffU, 0xaaaaaaaaU, 0x6db6db6dU, 0x80000001U << 1};
    bool const rev = ((masks[flip] >> (i % 31)) & 1) != 0;
    any = any || rev;
    conn.push_back(gen::rewrite(m.f[i], T, rot + int(i) * (rot > 0 ? 1 : 0), rev));
  }
  std::string const w = m.name + mc::fmt(" rotation %d flips %d how %d", rot, flip, how);
  long warned = 0;
  auto fvm = build<T>(m, conn, how > 0, how == 2 ? 3.0 : 1.5, &warned);
  MC_REQUIRE(fvm.numVertices() == Int(m.v.size()) && fvm.numFaces() == Int(m.f.size()), "counts", "%s", w.c_str());
  for (Int i = 0; i < fvm.numVertices(); ++i) {
    MC_CHECK(fvm.getVertex(i)[0] == double(m.v[size_t(i)].x) && fvm.getVertex(i)[1] == double(m.v[size_t(i)].y), "vertices", "%s vertex %d", w.c_str(),
             int(i));
  }
  MC_CHECK((warned > 0) == (any || how == 2), "warning", "%s: %ld bytes logged", w.c_str(), warned);
  // faces in the given order
  for (Int i = 0; i < fvm.numFaces(); ++i) {
    std::vector<P> a;
    std::vector<P> b;
    for (int k : m.f[size_t(i)]) {
      a.push_back(m.v[size_t(k)]);
    }
    for (Int k = 0; k < Lib<T>::N; ++k) {
      b.push_back(m.v[size_t(fvm.getFaceConn(i)[k])]);
    }
    MC_CHECK(gen::canon(a, T) == gen::canon(b, T), "face-order", "%s face %d", w.c_str(), int(i));
  }
  checkGeometry<T>(fvm, m, w, rot == 0 && fkind == 0 && how == 0);
  fvm.populateVF();
  checkVF<T>(fvm, w);
  // and back to a soup
  um2::PolytopeSoup const soup = fvm;
  MC_REQUIRE(soup.numVertices() == fvm.numVertices() && soup.numElements() == fvm.numFaces(), "to-soup", "%s", w.c_str());
  for (Int i = 0; i < soup.numVertices(); ++i) {
    auto const p = soup.getVertex(i);
    MC_CHECK(p[0] == fvm.getVertex(i)[0] && p[1] == fvm.getVertex(i)[1] && p[2] == 0, "to-soup-vertex", "%s vertex %d", w.c_str(), int(i));
  }
  for (Int i = 0; i < soup.numElements(); ++i) {
    um2::VTKElemType t{};
    um2::Vector<Int> c;
    soup.getElement(i, t, c);
    bool same = t == Lib<T>::vtk && c.size() == Lib<T>::N;
    for (Int k = 0; same && k < Lib<T>::N; ++k) {
      same = c[k] == fvm.getFaceConn(i)[k];
    }
    MC_CHECK(same, "to-soup-element", "%s element %d", w.c_str(), int(i));
  }
  mc::state(mc::hashStr(w));
  mc::trace();
  mc::transition(6);
  if (idx > 300) {
    mc::sample(w);
  }
}

// Histories of renumbering, adjacency, flips and additions
template <int T>
void
history(u64 idx, int sizes, int depth)
{
  mc::Dec q(idx);
  int const g = q.geti(sizes);
  int const curve = T < 2 ? 0 : q.geti(2) * 2;
  int const at = q.geti(2);
  int const diag = T % 2 == 0 ? (q.geti(2) * 5) % (1 << (NX[g] * NY[g])) : 0;
  int const vkind = q.geti(3);
  Mesh m = gen::renumber(gen::make(T, NX[g], NY[g], diag, curve, at), vkind, vkind);
  std::string w = m.name;
  long warned = 0;
  auto fvm = build<T>(m, m.f, false, 0, &warned);
  bool fresh = false; // adjacency known to be current
  bool grown = false;
  for (int step = 0; step < depth; ++step) {
    int const op = q.geti(7);
    switch (op) {
    case 0:
      w += " sort";
      fvm.mortonSort();
      break;
    case 1:
      w += " sortVertices";
      fvm.mortonSortVertices();
      fresh = false;
      break;
    case 2:
      w += " sortFaces";
      fvm.mortonSortFaces();
      fresh = false;
      break;
    case 3:
      w += " populate";
      fvm.populateVF();
      fresh = true;
      break;
    case 4: {
      w += " flip+validate";
      Int const i = fvm.numFaces() - 1;
      auto const before = fvm.getFace(i).centroid();
      fvm.flipFace(i);
      MC_CHECK(T >= 2 || !fvm.getFace(i).isCCW(), "flip", "%s", w.c_str());
      fvm.validate();
      auto const after = fvm.getFace(i).centroid();
      MC_CHECK(std::abs(before[0] - after[0]) + std::abs(before[1] - after[1]) < 1e-10, "flip-region", "%s", w.c_str());
      fresh = false;
      break;
    }
    case 5: {
      w += " flip twice";
      auto const before = fvm.getFace(0);
      fvm.flipFace(0);
      fvm.flipFace(0);
      auto const after = fvm.getFace(0);
      for (Int k = 0; k < Lib<T>::N; ++k) {
        MC_CHECK(before[k][0] == after[k][0] && before[k][1] == after[k][1], "flip-twice", "%s", w.c_str());
      }
      fresh = false;
      break;
    }
    default: {
      if (grown) {
        break;
      }
      w += " grow";
      grown = true;
      // a new cell of the same kind to the right of the bounding box, sharing the lower right edge
      // is not needed: a separate face stays a valid set of polygons for everything but validate
      auto const box = fvm.boundingBox();
      Mesh const extra = gen::make(T, 1, 1, 0, curve, 0);
      Int const base = fvm.numVertices();
      for (auto const & p : extra.v) {
        um2::Point2<Float> v;
        v[0] = double(p.x) + box.maxima(0) + 0.5;
        v[1] = double(p.y) + box.minima(1);
        m.v.push_back({LD(v[0]), LD(v[1])});
        fvm.addVertex(v);
      }
      int const old = int(m.v.size() - extra.v.size());
      for (auto const & f : extra.f) {
        typename Lib<T>::Fvm::FaceConn c;
        std::vector<int> r;
        for (size_t k = 0; k < f.size(); ++k) {
          c[Int(k)] = Int(f[k]) + base;
          r.push_back(f[k] + old);
        }
        fvm.addFace(c);
        m.f.push_back(r);
      }
      fresh = false;
      break;
    }
    }
    if (grown && op == 4) {
      return; // two components are not a valid mesh to validate
    }
    auto const want = gen::polygons(m);
    auto const got = polygonsOf<T>(fvm);
    MC_REQUIRE(got == want, "renumbered-polygons", "%s: %s", w.c_str(), diff(got, want).c_str());
    MC_CHECK(fvm.numVertices() == Int(m.v.size()), "renumbered-count", "%s", w.c_str());
    // vertices are the same set
    std::multiset<std::pair<double, double>> a;
    std::multiset<std::pair<double, double>> b;
    for (Int i = 0; i < fvm.numVertices(); ++i) {
      a.insert({fvm.getVertex(i)[0], fvm.getVertex(i)[1]});
      b.insert({double(m.v[size_t(i)].x), double(m.v[size_t(i)].y)});
    }
    MC_CHECK(a == b, "renumbered-vertices", "%s", w.c_str());
    if (fresh) {
      checkVF<T>(fvm, w);
    }
    mc::transition();
    mc::state(mc::hashStr(w));
  }
  checkGeometry<T>(fvm, m, w, false);
  mc::trace();
}

// Larger grids, one per size, through every operation
template <int T>
void
large(u64 idx)
{
  mc::Dec q(idx);
  int const nx = 1 + q.geti(10);
  int const ny = 1 + q.geti(10);
  int const vkind = q.geti(3);
  Mesh const m = gen::renumber(gen::make(T, nx, ny, 0x2b5d, T < 2 ? 0 : 2, 1), vkind, vkind);
  std::vector<std::vector<int>> conn;
  for (size_t i = 0; i < m.f.size(); ++i) {
    conn.push_back(gen::rewrite(m.f[i], T, int(i % 3), i % 5 == 2));
  }
  long warned = 0;
  auto fvm = build<T>(m, conn, vkind == 1, 0, &warned);
  checkGeometry<T>(fvm, m, m.name + " built", false);
  fvm.populateVF();
  checkVF<T>(fvm, m.name);
  fvm.mortonSort();
  checkVF<T>(fvm, m.name + " sorted");
  checkGeometry<T>(fvm, m, m.name + " sorted", idx % 11 == 0);
  mc::state(mc::hashStr(m.name));
  mc::transition(4);
  mc::trace();
}

// Meshes that are not valid are reported
template <int T>
void
invalid(u64 idx)
{
  mc::Dec q(idx);
  int const kind = q.geti(3);
  int const vkind = q.geti(5);
  int const fkind = q.geti(3);
  Mesh m;
  if (kind == 0) { // a face listed twice
    m = gen::make(T, 2, 1, 1, 0, 0);
    m.f.push_back(m.f[0]);
  } else if (kind == 1) { // a hole in the interior
    m = gen::make(T, 3, 3, 0, 0, 0);
    if (T % 2 == 0) {
      m.f.erase(m.f.begin() + 8, m.f.begin() + 10);
    } else {
      m.f.erase(m.f.begin() + 4);
    }
  } else { // two components
    m = gen::make(T, 3, 1, 0, 0, 0);
    if (T % 2 == 0) {
      m.f.erase(m.f.begin() + 2, m.f.begin() + 4);
    } else {
      m.f.erase(m.f.begin() + 1);
    }
  }
  m = gen::renumber(m, vkind, fkind);
  std::string const w = m.name + mc::fmt(" invalid %d", kind);
  long warned = 0;
  auto const fvm = build<T>(m, m.f, false, 0, &warned);
  MC_CHECK(warned > 0, "reports-invalid", "%s", w.c_str());
  MC_CHECK(fvm.numFaces() == Int(m.f.size()), "reports-invalid", "%s", w.c_str());
  mc::state(mc::hashStr(w));
  mc::transition();
  mc::trace();
}

template <int T>
void
spaces(char const * name)
{
  int const sizes = static_cast<int>(mc::pick(4, 6));
  u64 const per = u64(T < 2 ? 1 : 3) * 3 * u64(diagonals<T>()) * 5 * 3 * u64(gen::corners(T)) * 6 * 3;
  mc::space(std::string("construct-") + name, u64(sizes) * per, [=](u64 i) { construct<T>(i, sizes); });
  int const depth = static_cast<int>(mc::pick(3, 4));
  mc::space(std::string("history-") + name, u64(sizes) * (T < 2 ? 1 : 2) * 2 * (T % 2 == 0 ? 2 : 1) * 3 * mc::ipow(7, depth),
            [=](u64 i) { history<T>(i, sizes, depth); });
  mc::space(std::string("large-") + name, 300, [=](u64 i) { large<T>(i); });
  mc::space(std::string("invalid-") + name, 45, [=](u64 i) { invalid<T>(i); });
}

void
setup()
{
  um2::logger::exit_on_error = false;
  um2::logger::level = 2;
  spaces<0>("tri");
  spaces<1>("quad");
  spaces<2>("tri6");
  spaces<3>("quad8");
}

} // namespace

MC_MAIN(setup)
