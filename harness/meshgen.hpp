// Small conforming plane meshes with a reference description, used by several harnesses.
#pragma once
#include "geom.hpp"
#include "mc.hpp"

#include <map>
#include <set>

namespace gen
{
using mc::u64;
using ref::Edge;
using ref::LD;
using ref::P;

enum Type { tri = 0, quad = 1, tri6 = 2, quad8 = 3 };
inline int
corners(int type)
{
  return type % 2 == 0 ? 3 : 4;
}
inline int
nodes(int type)
{
  return type < 2 ? corners(type) : 2 * corners(type);
}

struct Mesh {
  int type = 0;
  std::vector<P> v;
  std::vector<std::vector<int>> f; // counter-clockwise
  std::string name;

  std::vector<Edge>
  edges(size_t i) const
  {
    auto const & c = f[i];
    size_t const n = size_t(corners(type));
    std::vector<Edge> es;
    for (size_t k = 0; k < n; ++k) {
      P const a = v[size_t(c[k])];
      P const b = v[size_t(c[(k + 1) % n])];
      es.push_back(type < 2 ? Edge::line(a, b) : Edge{a, b, v[size_t(c[n + k])]});
    }
    return es;
  }
};

// nx x ny cells; diag: bit per cell (triangles); curve: 0 straight, 1 interior edges bowed, 2 all edges
// bowed; at: 0 origin, 1 shifted to negative and positive coordinates
inline Mesh
make(int type, int nx, int ny, int diag, int curve, int at)
{
  static LD const x4[] = {0, 1, 2.5L, 3.25L};
  static LD const y4[] = {0, 1, 1.75L, 3};
  auto const xs = [](int i) { return x4[i % 4] + 5 * LD(i / 4); };
  auto const ys = [](int i) { return y4[i % 4] + 4.5L * LD(i / 4); };
  Mesh m;
  m.type = type;
  m.name = mc::fmt("%s %dx%d diagonals %x curve %d at %d", type == tri ? "tri" : type == quad ? "quad" : type == tri6 ? "tri6" : "quad8", nx, ny,
                   unsigned(diag), curve, at);
  P const o = at == 0 ? P{0, 0} : (at == 1 ? P{-1.75L, 2.5L} : P{10, -20});
  for (int j = 0; j <= ny; ++j) {
    for (int i = 0; i <= nx; ++i) {
      P p = {xs(i), ys(j)};
      if (i > 0 && i < nx && j > 0 && j < ny) {
        p = p + P{0.125L, -0.0625L};
      }
      m.v.push_back(o + p);
    }
  }
  auto const id = [&](int i, int j) { return j * (nx + 1) + i; };
  for (int j = 0; j < ny; ++j) {
    for (int i = 0; i < nx; ++i) {
      int const a = id(i, j);
      int const b = id(i + 1, j);
      int const c = id(i + 1, j + 1);
      int const d = id(i, j + 1);
      if (corners(type) == 4) {
        m.f.push_back({a, b, c, d});
      } else if (((diag >> ((j * nx + i) % 16)) & 1) != 0) {
        m.f.push_back({a, b, d});
        m.f.push_back({b, c, d});
      } else {
        m.f.push_back({a, b, c});
        m.f.push_back({a, c, d});
      }
    }
  }
  if (type >= 2) {
    std::map<std::pair<int, int>, int> count;
    for (auto const & f : m.f) {
      for (size_t k = 0; k < f.size(); ++k) {
        int const a = f[k];
        int const b = f[(k + 1) % f.size()];
        ++count[{std::min(a, b), std::max(a, b)}];
      }
    }
    std::map<std::pair<int, int>, int> mid;
    int n = 0;
    for (auto const & [e, c] : count) {
      P const a = m.v[size_t(e.first)];
      P const b = m.v[size_t(e.second)];
      P p = LD(0.5) * (a + b);
      if (curve == 2 || (curve == 1 && c == 2)) {
        P const d = b - a;
        LD const s = n % 3 == 0 ? 0.0390625L : (n % 3 == 1 ? -0.0390625L : 0.015625L);
        p = p + s * P{-d.y, d.x};
      }
      ++n;
      mid[e] = int(m.v.size());
      m.v.push_back({LD(double(p.x)), LD(double(p.y))});
    }
    for (auto & f : m.f) {
      size_t const c = f.size();
      for (size_t k = 0; k < c; ++k) {
        int const a = f[k];
        int const b = f[(k + 1) % c];
        f.push_back(mid[{std::min(a, b), std::max(a, b)}]);
      }
    }
  }
  return m;
}

// Permutations of 0..n-1: identity, reversed, stride, rotated, swapped halves
inline std::vector<int>
permutation(int n, int kind)
{
  std::vector<int> p;
  for (int i = 0; i < n; ++i) {
    p.push_back(i);
  }
  if (kind == 1) {
    std::reverse(p.begin(), p.end());
  } else if (kind == 2) {
    p.clear();
    for (int s = 0; s < 3; ++s) {
      for (int i = s; i < n; i += 3) {
        p.push_back(i);
      }
    }
  } else if (kind == 3) {
    std::rotate(p.begin(), p.begin() + (n > 1 ? 1 : 0), p.end());
  } else if (kind == 4) {
    for (int i = 0; i + 1 < n; i += 2) {
      std::swap(p[size_t(i)], p[size_t(i) + 1]);
    }
  }
  return p;
}

// One face written differently: rotated start corner, optionally reversed
inline std::vector<int>
rewrite(std::vector<int> const & f, int type, int rot, bool reverse)
{
  int const c = corners(type);
  std::vector<int> r;
  for (int k = 0; k < c; ++k) {
    r.push_back(f[size_t((k + rot) % c)]);
  }
  if (type >= 2) {
    for (int k = 0; k < c; ++k) {
      r.push_back(f[size_t(c + (k + rot) % c)]);
    }
  }
  if (reverse) {
    std::vector<int> q;
    q.push_back(r[0]);
    for (int k = c - 1; k > 0; --k) {
      q.push_back(r[size_t(k)]);
    }
    if (type >= 2) {
      for (int k = c - 1; k >= 0; --k) {
        q.push_back(r[size_t(c + k)]);
      }
    }
    r = q;
  }
  return r;
}

// Renumbered and rewritten copy.  The result's f is what is handed to the library; faces stay
// counter-clockwise in the reference (see clockwise).
inline Mesh
renumber(Mesh const & m, int vkind, int fkind)
{
  Mesh r;
  r.type = m.type;
  r.name = m.name + mc::fmt(" vertices %d faces %d", vkind, fkind);
  auto const vp = permutation(int(m.v.size()), vkind);
  auto const fp = permutation(int(m.f.size()), fkind);
  std::vector<int> inv(vp.size());
  for (size_t i = 0; i < vp.size(); ++i) {
    r.v.push_back(m.v[size_t(vp[i])]);
    inv[size_t(vp[i])] = int(i);
  }
  for (int i : fp) {
    std::vector<int> f;
    for (int k : m.f[size_t(i)]) {
      f.push_back(inv[size_t(k)]);
    }
    r.f.push_back(f);
  }
  return r;
}

// Canonical text of a polygon given by coordinates: independent of start corner, not of orientation
inline std::string
canon(std::vector<P> const & p, int type)
{
  int const c = corners(type);
  std::string best;
  for (int r = 0; r < c; ++r) {
    std::string s;
    for (int k = 0; k < c; ++k) {
      s += mc::fmt("(%.10Lg,%.10Lg)", p[size_t((k + r) % c)].x + 0.0L, p[size_t((k + r) % c)].y + 0.0L);
      if (type >= 2) {
        s += mc::fmt("[%.10Lg,%.10Lg]", p[size_t(c + (k + r) % c)].x + 0.0L, p[size_t(c + (k + r) % c)].y + 0.0L);
      }
    }
    if (best.empty() || s < best) {
      best = s;
    }
  }
  return best;
}

inline std::multiset<std::string>
polygons(Mesh const & m)
{
  std::multiset<std::string> r;
  for (auto const & f : m.f) {
    std::vector<P> p;
    for (int k : f) {
      p.push_back(m.v[size_t(k)]);
    }
    r.insert(canon(p, m.type));
  }
  return r;
}

inline LD
area(Mesh const & m)
{
  LD a = 0;
  P first;
  for (size_t i = 0; i < m.f.size(); ++i) {
    for (auto const & e : m.edges(i)) {
      ref::moments(e, a, first);
    }
  }
  return a;
}

} // namespace gen
