// Does a mesh tile a rectangle?  Decided on the reference description of the mesh.
#pragma once
#include "fvmlib.hpp"

namespace gen
{
template <int T>
Mesh
fromLib(typename Lib<T>::Fvm const & m)
{
  Mesh r;
  r.type = T;
  for (Int i = 0; i < m.numVertices(); ++i) {
    r.v.push_back({LD(m.getVertex(i)[0]), LD(m.getVertex(i)[1])});
  }
  for (Int i = 0; i < m.numFaces(); ++i) {
    std::vector<int> f;
    for (Int k = 0; k < Lib<T>::N; ++k) {
      f.push_back(int(m.getFaceConn(i)[k]));
    }
    r.f.push_back(f);
  }
  return r;
}

inline LD
faceArea(Mesh const & m, size_t i, P * centroid = nullptr)
{
  LD a = 0;
  P c = {0, 0};
  P const o = m.v[size_t(m.f[i][0])];
  for (auto e : m.edges(i)) {
    e = {e.a - o, e.b - o, e.m - o};
    ref::moments(e, a, c);
  }
  if (centroid != nullptr) {
    *centroid = o + (1 / a) * c;
  }
  return a;
}

// Empty if the faces are positively oriented, share each inner edge (and its mid node) exactly, and their
// free edges run exactly once around [0,w]x[0,h]; together with equal areas this means a tiling.
inline std::string
tilingDefect(Mesh const & m, LD w, LD h, LD tol)
{
  std::map<std::pair<int, int>, int> seen; // directed edge -> mid node
  LD sum = 0;
  for (size_t i = 0; i < m.f.size(); ++i) {
    for (int k : m.f[i]) {
      if (k < 0 || k >= int(m.v.size())) {
        return mc::fmt("face %zu has vertex %d", i, k);
      }
    }
    LD const a = faceArea(m, i);
    if (!(a > 0)) {
      return mc::fmt("face %zu has area %Lg", i, a);
    }
    sum += a;
    size_t const n = size_t(corners(m.type));
    for (size_t k = 0; k < n; ++k) {
      int const p = m.f[i][k];
      int const q = m.f[i][(k + 1) % n];
      int const mid = m.type < 2 ? -1 : m.f[i][n + k];
      if (!seen.emplace(std::make_pair(p, q), mid).second) {
        return mc::fmt("edge %d-%d is used twice in the same direction", p, q);
      }
    }
  }
  LD border = 0;
  for (auto const & [e, mid] : seen) {
    auto const it = seen.find({e.second, e.first});
    if (it != seen.end()) {
      if (it->second != mid) {
        return mc::fmt("edge %d-%d has two mid nodes", e.first, e.second);
      }
      continue;
    }
    P const a = m.v[size_t(e.first)];
    P const b = m.v[size_t(e.second)];
    P const c = mid < 0 ? LD(0.5) * (a + b) : m.v[size_t(mid)];
    auto const on = [&](P p, int side) {
      LD const d = side == 0 ? p.y : side == 1 ? p.x - w : side == 2 ? p.y - h : p.x;
      return std::abs(d) <= tol;
    };
    bool ok = false;
    for (int side = 0; side < 4; ++side) {
      if (on(a, side) && on(b, side) && on(c, side)) {
        LD const len = side == 0 ? b.x - a.x : side == 1 ? b.y - a.y : side == 2 ? a.x - b.x : a.y - b.y;
        ok = ok || len > 0;
        border += len;
        break;
      }
    }
    if (!ok) {
      return mc::fmt("free edge %d-%d at (%Lg, %Lg)-(%Lg, %Lg) is not on the box", e.first, e.second, a.x, a.y, b.x, b.y);
    }
  }
  if (std::abs(border - 2 * (w + h)) > 16 * tol) {
    return mc::fmt("free edges have length %.12Lg of %.12Lg", border, 2 * (w + h));
  }
  if (std::abs(sum - w * h) > 16 * tol * (w + h)) {
    return mc::fmt("areas add up to %.12Lg of %.12Lg", sum, w * h);
  }
  return "";
}
} // namespace gen
