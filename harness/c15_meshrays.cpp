// C15: rays through meshes: per-face crossings and their ordering along the ray.
#include "fvmlib.hpp"

#include <memory>

#include <um2/common/logger.hpp>

namespace
{
using gen::Lib;
using gen::Mesh;
using mc::u64;
using ref::Edge;
using ref::LD;
using ref::P;

int const NX[] = {1, 2, 1, 2, 3, 3, 4, 5};
int const NY[] = {1, 1, 2, 2, 1, 2, 4, 5};

struct Query {
  P o;
  P d;
};

std::vector<Query>
rays(Mesh const & m, int side, int ndir)
{
  P lo = {1e30L, 1e30L};
  P hi = {-1e30L, -1e30L};
  for (auto const & p : m.v) {
    lo = {std::min(lo.x, p.x), std::min(lo.y, p.y)};
    hi = {std::max(hi.x, p.x), std::max(hi.y, p.y)};
  }
  P const w = hi - lo;
  std::vector<P> origins;
  for (int j = 0; j <= side; ++j) {
    for (int i = 0; i <= side; ++i) {
      // lattice reaching a third of the size beyond the box, off the mesh lines
      P const f = {(LD(i) + 0.0123L) / side, (LD(j) + 0.0077L) / side};
      origins.push_back({lo.x + w.x * (f.x * 1.66L - 0.33L), lo.y + w.y * (f.y * 1.66L - 0.33L)});
    }
  }
  LD const pi = std::acos(LD(-1));
  std::vector<Query> r;
  for (auto const & o : origins) {
    for (int k = 0; k < ndir; ++k) {
      LD const a = 2 * pi * k / ndir;
      P d = {std::cos(a), std::sin(a)};
      d.x = std::abs(d.x) < 1e-15L ? 0 : d.x;
      d.y = std::abs(d.y) < 1e-15L ? 0 : d.y;
      r.push_back({o, d});
    }
  }
  return r;
}

std::string
text(std::vector<LD> const & v)
{
  std::string s = "{";
  for (LD x : v) {
    s += mc::fmt(" %.9Lg", x);
  }
  return s + " }";
}

template <int T>
void
trace(typename Lib<T>::Fvm const & fvm, Mesh const & m, std::vector<std::vector<Edge>> const & es, Query const & q0, std::string const & w)
{
  P const o = {LD(double(q0.o.x)), LD(double(q0.o.y))};
  P const d = {LD(double(q0.d.x)), LD(double(q0.d.y))};
  size_t const nf = es.size();
  std::vector<std::vector<LD>> want(nf);
  size_t total = 0;
  size_t faces_hit = 0;
  for (size_t i = 0; i < nf; ++i) {
    for (auto const & e : es[i]) {
      if (!ref::crossings(e, T < 2, o, d, 1e-6L, want[i])) {
        return;
      }
    }
    std::sort(want[i].begin(), want[i].end());
    total += want[i].size();
    faces_hit += want[i].empty() ? 0 : 1;
  }
  std::string const r = w + mc::fmt(" ray (%.6Lg,%.6Lg)+(%.6Lg,%.6Lg)", o.x, o.y, d.x, d.y);
  um2::Point2<Float> po;
  po[0] = double(o.x);
  po[1] = double(o.y);
  um2::Vec2<Float> pd;
  pd[0] = double(d.x);
  pd[1] = double(d.y);
  um2::Ray2<Float> const ray(po, pd);
  // every face may use its full number of candidate crossings as working space
  static thread_local std::vector<double> coords;
  static thread_local std::vector<Int> offsets;
  static thread_local std::vector<Int> faces;
  size_t const cap = total + 16;
  coords.assign(cap, -777);
  offsets.assign(nf + 1, -777);
  faces.assign(nf, -777);
  Int const n1 = fvm.intersect(ray, coords.data());
  std::vector<LD> all;
  for (Int i = 0; i < n1 && i < Int(cap); ++i) {
    all.push_back(coords[size_t(i)]);
  }
  std::vector<LD> want_all;
  for (auto const & x : want) {
    want_all.insert(want_all.end(), x.begin(), x.end());
  }
  auto const same = [](std::vector<LD> a, std::vector<LD> b) {
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    bool ok = a.size() == b.size();
    for (size_t i = 0; ok && i < a.size(); ++i) {
      ok = std::abs(a[i] - b[i]) < 1e-8L * (1 + std::abs(b[i]));
    }
    return ok;
  };
  MC_REQUIRE(same(all, want_all), "crossings", "%s: %s expected %s", r.c_str(), text(all).c_str(), text(want_all).c_str());
  coords.assign(cap, -777);
  auto const hf = fvm.intersect(ray, coords.data(), offsets.data(), faces.data());
  MC_REQUIRE(hf[0] == Int(total) && hf[1] == Int(faces_hit), "face-hits", "%s: %d hits %d faces", r.c_str(), int(hf[0]), int(hf[1]));
  MC_REQUIRE(offsets[0] == 0 && offsets[faces_hit] == Int(total), "offsets", "%s", r.c_str());
  std::set<Int> seen;
  for (size_t k = 0; k < faces_hit; ++k) {
    Int const f = faces[k];
    MC_REQUIRE(f >= 0 && f < Int(nf) && seen.insert(f).second, "face-ids", "%s: face %d", r.c_str(), int(f));
    MC_REQUIRE(offsets[k + 1] >= offsets[k], "offsets", "%s", r.c_str());
    std::vector<LD> got(coords.begin() + offsets[k], coords.begin() + offsets[k + 1]);
    MC_REQUIRE(same(got, want[size_t(f)]), "face-crossings", "%s face %d: %s expected %s", r.c_str(), int(f), text(got).c_str(),
               text(want[size_t(f)]).c_str());
  }
  mc::transition(2);
  if (total == 0) {
    return;
  }
  // buffers of exactly the documented sizes
  auto const sc = std::make_unique<double[]>(total);
  auto const so = std::make_unique<Int[]>(faces_hit + 1);
  auto const sf = std::make_unique<Int[]>(faces_hit);
  auto const perm = std::make_unique<Int[]>(faces_hit);
  um2::sortRayMeshIntersections(coords.data(), offsets.data(), faces.data(), sc.get(), so.get(), sf.get(), perm.get(), hf);
  MC_REQUIRE(so[0] == 0 && so[faces_hit] == Int(total), "sorted-offsets", "%s", r.c_str());
  std::vector<std::pair<LD, LD>> intervals;
  seen.clear();
  LD previous = -1;
  bool odd = false;
  for (size_t k = 0; k < faces_hit; ++k) {
    Int const f = sf[k];
    MC_REQUIRE(f >= 0 && f < Int(nf) && seen.insert(f).second && so[k + 1] >= so[k], "sorted-faces", "%s: face %d", r.c_str(), int(f));
    std::vector<LD> got(sc.get() + so[k], sc.get() + so[k + 1]);
    MC_CHECK(std::is_sorted(got.begin(), got.end()), "sorted-coords", "%s face %d: %s", r.c_str(), int(f), text(got).c_str());
    MC_REQUIRE(same(got, want[size_t(f)]), "sorted-crossings", "%s face %d: %s expected %s", r.c_str(), int(f), text(got).c_str(),
               text(want[size_t(f)]).c_str());
    size_t first = 0;
    if (got.size() % 2 == 1) {
      odd = true;
      first = 1; // the ray starts inside this face
      MC_CHECK(ref::inside(es[size_t(f)], o), "parity", "%s face %d: %s", r.c_str(), int(f), text(got).c_str());
      MC_CHECK(k == 0 || got.size() > 1, "start-face-first", "%s face %d is number %zu", r.c_str(), int(f), k);
      intervals.push_back({0, got[0]});
    }
    for (size_t i = first; i + 1 < got.size(); i += 2) {
      intervals.push_back({got[i], got[i + 1]});
      LD const mid = (got[i] + got[i + 1]) / 2;
      MC_CHECK(got[i + 1] - got[i] < 1e-6L || ref::inside(es[size_t(f)], o + mid * d), "interval-inside", "%s face %d: %s", r.c_str(), int(f),
               text(got).c_str());
    }
    // order in which the faces are entered
    LD const entry = got.size() % 2 == 1 ? 0 : got[0];
    if (got.size() % 2 == 0 || got.size() == 1) {
      MC_CHECK(entry > previous - 1e-9L, "face-order", "%s: face %d entered at %.9Lg listed after %.9Lg", r.c_str(), int(f), entry, previous);
      previous = entry;
    }
  }
  (void)odd;
  std::sort(intervals.begin(), intervals.end());
  LD length = 0;
  for (size_t k = 0; k < intervals.size(); ++k) {
    length += intervals[k].second - intervals[k].first;
    MC_CHECK(k == 0 || intervals[k].first > intervals[k - 1].second - 1e-7L, "intervals-overlap", "%s at %.9Lg", r.c_str(), intervals[k].first);
  }
  // length inside the mesh from its boundary only
  std::map<std::pair<int, int>, std::pair<int, Edge>> count;
  for (size_t i = 0; i < nf; ++i) {
    size_t const c = es[i].size();
    for (size_t k = 0; k < c; ++k) {
      int const a = m.f[i][k];
      int const b = m.f[i][(k + 1) % c];
      auto & x = count[{std::min(a, b), std::max(a, b)}];
      ++x.first;
      x.second = es[i][k];
    }
  }
  std::vector<LD> boundary;
  for (auto const & [id, x] : count) {
    if (x.first == 1) {
      ref::crossings(x.second, T < 2, o, d, 1e-6L, boundary);
    }
  }
  if (boundary.size() % 2 == 1) {
    boundary.push_back(0);
  }
  std::sort(boundary.begin(), boundary.end());
  LD expect = 0;
  for (size_t k = 0; k + 1 < boundary.size(); k += 2) {
    expect += boundary[k + 1] - boundary[k];
  }
  MC_CHECK(std::abs(length - expect) < 1e-7L, "length", "%s: %.9Lg expected %.9Lg", r.c_str(), length, expect);
  mc::transition();
  mc::trace();
  u64 h = mc::hashStr(m.name);
  for (size_t k = 0; k < faces_hit; ++k) {
    h = mc::hash(h, u64(sf[k]));
  }
  mc::state(h);
}

template <int T>
void
run(u64 idx, int sizes, int ndiag, int side, int ndir)
{
  mc::Dec q(idx);
  int const g = q.geti(sizes);
  int const curve = T < 2 ? 0 : 1 + q.geti(2);
  int const at = q.geti(2);
  static int const diags[] = {0, 0xffff, 0x5a5a, 0x2b5d, 0x0001, 0x0003, 0x1248, 0xc3a5};
  int const diag = T % 2 == 0 ? diags[q.geti(ndiag)] : 0;
  int const vkind = q.geti(3);
  int const fkind = q.geti(3);
  bool const sorted = q.get(2) == 1;
  if (NX[g] * NY[g] < 4 && diag > 3 && diag != 0xffff) {
    return;
  }
  Mesh m = gen::renumber(gen::make(T, NX[g], NY[g], diag, curve, at), vkind, fkind);
  long warned = 0;
  auto fvm = gen::build<T>(m, m.f, false, 0, &warned);
  if (sorted) {
    fvm.mortonSort();
    m.name += " sorted";
    for (size_t i = 0; i < m.v.size(); ++i) {
      m.v[i] = {LD(fvm.getVertex(Int(i))[0]), LD(fvm.getVertex(Int(i))[1])};
    }
    for (size_t i = 0; i < m.f.size(); ++i) {
      for (size_t k = 0; k < m.f[i].size(); ++k) {
        m.f[i][k] = int(fvm.getFaceConn(Int(i))[Int(k)]);
      }
    }
  }
  std::vector<std::vector<Edge>> es;
  for (size_t i = 0; i < m.f.size(); ++i) {
    es.push_back(m.edges(i));
  }
  for (auto const & r : rays(m, side, ndir)) {
    trace<T>(fvm, m, es, r, m.name);
  }
  if (idx > 20) {
    mc::sample(m.name);
  }
}

template <int T>
void
spaces(char const * name)
{
  int const sizes = static_cast<int>(mc::pick(6, 8));
  int const ndiag = T % 2 == 0 ? static_cast<int>(mc::pick(3, 8)) : 1;
  int const side = static_cast<int>(mc::pick(6, 9));
  int const ndir = static_cast<int>(mc::pick(32, 64));
  mc::space(std::string("rays-") + name, u64(sizes) * (T < 2 ? 1 : 2) * 2 * u64(ndiag) * 3 * 3 * 2,
            [=](u64 i) { run<T>(i, sizes, ndiag, side, ndir); });
  // one larger mesh with a coarse set of rays
  mc::space(std::string("large-") + name, 12, [=](u64 i) {
    Mesh const m = gen::renumber(gen::make(T, 6 + int(i % 3), 5 + int(i / 3), 0x2b5d, T < 2 ? 0 : 2, 1), int(i % 4), int(i % 3));
    long warned = 0;
    auto const fvm = gen::build<T>(m, m.f, false, 0, &warned);
    std::vector<std::vector<Edge>> es;
    for (size_t k = 0; k < m.f.size(); ++k) {
      es.push_back(m.edges(k));
    }
    for (auto const & r : rays(m, 6, 32)) {
      trace<T>(fvm, m, es, r, m.name);
    }
  });
}

void
setup()
{
  um2::logger::exit_on_error = false;
  um2::logger::level = 2;
  spaces<0>("tri");
  spaces<1>("quad");
  spaces<2>("tri6");
  spaces<3>("quad8");
}

} // namespace

MC_MAIN(setup)
