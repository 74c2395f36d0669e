// Reference description of a polytope soup and comparison with the library's.
#pragma once
#include "mc.hpp"

#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>

#include <um2/common/logger.hpp>
#include <um2/mesh/polytope_soup.hpp>

namespace soupref
{
using mc::u64;
using um2::PolytopeSoup;
using um2::VTKElemType;

inline VTKElemType const TYPES[] = {VTKElemType::Vertex,        VTKElemType::Line,
                             VTKElemType::Triangle,      VTKElemType::Quad,
                             VTKElemType::QuadraticEdge, VTKElemType::QuadraticTriangle,
                             VTKElemType::QuadraticQuad};
inline int const COUNT[] = {1, 2, 3, 4, 3, 6, 8};

struct Set {
  std::string name;
  std::vector<int> ids;
  std::vector<double> data;
  bool operator==(Set const &) const = default;
};

struct Ref {
  std::vector<std::array<double, 3>> v;
  std::vector<std::pair<VTKElemType, std::vector<int>>> e;
  std::vector<Set> s;
  bool operator==(Ref const &) const = default;

  bool
  sorted() const
  {
    return std::is_sorted(s.begin(), s.end(), [](Set const & a, Set const & b) { return a.name < b.name; });
  }
};

inline um2::String
str(std::string const & s)
{
  return um2::String(s.c_str());
}

inline um2::Vector<Int>
ints(std::vector<int> const & v)
{
  um2::Vector<Int> r;
  for (int x : v) {
    r.push_back(x);
  }
  return r;
}

inline um2::Vector<Float>
floats(std::vector<double> const & v)
{
  um2::Vector<Float> r;
  for (double x : v) {
    r.push_back(x);
  }
  return r;
}

// Everything observable about a soup
inline void
compare(PolytopeSoup const & a, Ref const & r, std::string const & w)
{
  MC_REQUIRE(a.numVertices() == Int(r.v.size()) && a.numElements() == Int(r.e.size()) && a.numElsets() == Int(r.s.size()), "counts",
             "%s: %d vertices %d elements %d sets expected %zu %zu %zu", w.c_str(), int(a.numVertices()), int(a.numElements()), int(a.numElsets()),
             r.v.size(), r.e.size(), r.s.size());
  for (size_t i = 0; i < r.v.size(); ++i) {
    auto const & p = a.getVertex(Int(i));
    MC_CHECK(std::abs(p[0] - r.v[i][0]) + std::abs(p[1] - r.v[i][1]) + std::abs(p[2] - r.v[i][2]) < 1e-12, "vertex", "%s vertex %zu", w.c_str(), i);
    auto const & q = a.vertices()[Int(i)];
    MC_CHECK(p[0] == q[0] && p[1] == q[1] && p[2] == q[2], "vertex", "%s vertex %zu", w.c_str(), i);
  }
  std::vector<VTKElemType> kinds;
  int offset = 0;
  if (!r.e.empty()) {
    MC_REQUIRE(a.elementOffsets().size() == a.numElements() + 1 && a.elementTypes().size() == a.numElements(), "element-arrays", "%s", w.c_str());
  }
  VTKElemType t{};
  um2::Vector<Int> conn;
  conn.push_back(-5); // stale content from an earlier query
  for (size_t i = 0; i < r.e.size(); ++i) {
    a.getElement(Int(i), t, conn);
    bool same = t == r.e[i].first && conn.size() == Int(r.e[i].second.size());
    for (size_t k = 0; same && k < r.e[i].second.size(); ++k) {
      same = conn[Int(k)] == r.e[i].second[k] && a.elementConnectivity()[offset + Int(k)] == conn[Int(k)];
    }
    same = same && a.elementOffsets()[Int(i)] == offset;
    offset += int(r.e[i].second.size());
    MC_CHECK(same, "element", "%s element %zu", w.c_str(), i);
    if (std::find(kinds.begin(), kinds.end(), t) == kinds.end()) {
      kinds.push_back(t);
    }
  }
  MC_CHECK(a.elementConnectivity().size() == offset, "element-arrays", "%s", w.c_str());
  auto const got_kinds = a.getElemTypes();
  std::set<int> ka;
  std::set<int> kb;
  for (auto const k : kinds) {
    ka.insert(int(k));
  }
  for (auto const k : got_kinds) {
    kb.insert(int(k));
  }
  MC_CHECK(ka == kb && got_kinds.size() == Int(kinds.size()), "element-types", "%s", w.c_str());
  um2::String name;
  um2::Vector<Int> ids;
  um2::Vector<Float> data;
  for (size_t i = 0; i < r.s.size(); ++i) {
    for (int by = 0; by < 2; ++by) {
      if (by == 0) {
        a.getElset(Int(i), name, ids, data);
        MC_CHECK(std::string(name.data(), size_t(name.size())) == r.s[i].name, "set-name", "%s set %zu", w.c_str(), i);
      } else {
        a.getElset(str(r.s[i].name), ids, data);
      }
      bool same = ids.size() == Int(r.s[i].ids.size());
      for (size_t k = 0; same && k < r.s[i].ids.size(); ++k) {
        same = ids[Int(k)] == r.s[i].ids[k];
      }
      MC_CHECK(same, "set-ids", "%s set %s", w.c_str(), r.s[i].name.c_str());
      same = data.size() == Int(r.s[i].data.size());
      for (size_t k = 0; same && k < r.s[i].data.size(); ++k) {
        same = data[Int(k)] == r.s[i].data[k];
      }
      MC_CHECK(same, "set-data", "%s set %s: %d values expected %zu", w.c_str(), r.s[i].name.c_str(), int(data.size()), r.s[i].data.size());
    }
  }
}

inline void
addVertices(PolytopeSoup & a, Ref & r, int n, bool point)
{
  for (int i = 0; i < n; ++i) {
    double const k = double(r.v.size());
    std::array<double, 3> const p = {1 + k, -2 * k, 0.25 * k * k};
    Int id = 0;
    if (point) {
      um2::Point3<Float> q;
      q[0] = p[0];
      q[1] = p[1];
      q[2] = p[2];
      id = a.addVertex(q);
    } else if (k < 1) {
      id = a.addVertex(p[0], p[1]);
    } else {
      id = a.addVertex(p[0], p[1], p[2]);
    }
    r.v.push_back(p);
    MC_CHECK(id == Int(r.v.size()) - 1, "vertex-id", "%d", int(id));
  }
}

inline void
addElement(PolytopeSoup & a, Ref & r, int type)
{
  std::vector<int> c;
  int const n = int(r.v.size());
  for (int k = 0; k < COUNT[type]; ++k) {
    c.push_back((n - 1 - k * 2 + 8 * n) % n);
  }
  Int const id = a.addElement(TYPES[type], ints(c));
  r.e.push_back({TYPES[type], c});
  MC_CHECK(id == Int(r.e.size()) - 1, "element-id", "%d", int(id));
}

inline void
addSet(PolytopeSoup & a, Ref & r, std::string const & name, std::vector<int> const & ids, std::vector<double> const & data, std::string const & w)
{
  bool const exists = std::any_of(r.s.begin(), r.s.end(), [&](Set const & s) { return s.name == name; });
  bool const ok = !exists && !ids.empty() && (data.empty() || data.size() == ids.size());
  u64 const before = mc::outputSize();
  Int const id = data.empty() ? a.addElset(str(name), ints(ids)) : a.addElset(str(name), ints(ids), floats(data));
  bool const logged = mc::outputSize() > before;
  if (ok) {
    r.s.push_back({name, ids, data});
    MC_CHECK(id == Int(r.s.size()) - 1 && !logged, "set-id", "%s: %d", w.c_str(), int(id));
  } else {
    MC_CHECK(id == -1 && logged, "set-rejected", "%s: %d", w.c_str(), int(id));
  }
}

} // namespace soupref
