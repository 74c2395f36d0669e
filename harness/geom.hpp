// Reference geometry in extended precision, independent of the library.
#pragma once
#include <algorithm>
#include <cmath>
#include <string>
#include <vector>

namespace ref
{
using LD = long double;

struct P {
  LD x = 0;
  LD y = 0;
};
inline P
operator+(P a, P b)
{
  return {a.x + b.x, a.y + b.y};
}
inline P
operator-(P a, P b)
{
  return {a.x - b.x, a.y - b.y};
}
inline P
operator*(LD s, P a)
{
  return {s * a.x, s * a.y};
}
inline LD
cross(P a, P b)
{
  return a.x * b.y - a.y * b.x;
}
inline LD
dot(P a, P b)
{
  return a.x * b.x + a.y * b.y;
}
inline LD
norm(P a)
{
  return std::sqrt(dot(a, a));
}

// A parabolic (or straight) edge from a to b; m is the point at parameter 1/2
struct Edge {
  P a, b, m;
  static Edge
  line(P a, P b)
  {
    return {a, b, LD(0.5) * (a + b)};
  }
  // c0 + c1 t + c2 t^2
  P
  c1() const
  {
    return 4 * m - b - 3 * a;
  }
  P
  c2() const
  {
    return 2 * (a + b) - 4 * m;
  }
  P
  at(LD t) const
  {
    return a + t * (c1() + t * c2());
  }
  P
  d(LD t) const
  {
    return c1() + 2 * t * c2();
  }
};

inline LD const gx3[3] = {-0.774596669241483377035853079956480L, 0, 0.774596669241483377035853079956480L};
inline LD const gw3[3] = {5 / 9.0L, 8 / 9.0L, 5 / 9.0L};

// Signed contributions of an edge to area and first moments (Green's theorem); exact for parabolas
inline void
moments(Edge const & e, LD & area, P & first)
{
  for (int i = 0; i < 3; ++i) {
    LD const t = (gx3[i] + 1) / 2;
    LD const w = gw3[i] / 2;
    P const p = e.at(t);
    P const d = e.d(t);
    area += w * cross(p, d) / 2;
    first.x += w * p.x * p.x * d.y / 2;
    first.y -= w * p.y * p.y * d.x / 2;
  }
}

inline LD
lengthRec(Edge const & e, LD a, LD b, LD whole, int depth)
{
  auto const g = [&](LD lo, LD hi) {
    static LD const x5[5] = {-0.906179845938663992797626878299393L, -0.538469310105683091036314420700209L, 0,
                             0.538469310105683091036314420700209L, 0.906179845938663992797626878299393L};
    static LD const w5[5] = {0.236926885056189087514264040719917L, 0.478628670499366468041291514835638L,
                             0.568888888888888888888888888888889L, 0.478628670499366468041291514835638L,
                             0.236926885056189087514264040719917L};
    LD s = 0;
    for (int i = 0; i < 5; ++i) {
      s += w5[i] * norm(e.d((lo + hi) / 2 + (hi - lo) / 2 * x5[i]));
    }
    return s * (hi - lo) / 2;
  };
  LD const m = (a + b) / 2;
  LD const l = g(a, m);
  LD const r = g(m, b);
  if (depth > 24 || std::abs(l + r - whole) < 1e-16L * (1 + l + r)) {
    return l + r;
  }
  return lengthRec(e, a, m, l, depth + 1) + lengthRec(e, m, b, r, depth + 1);
}

inline LD
length(Edge const & e)
{
  return lengthRec(e, 0, 1, 1e30L, 0);
}

inline void
extend(Edge const & e, P & lo, P & hi)
{
  auto const add = [&](P p) {
    lo.x = std::min(lo.x, p.x);
    lo.y = std::min(lo.y, p.y);
    hi.x = std::max(hi.x, p.x);
    hi.y = std::max(hi.y, p.y);
  };
  add(e.a);
  add(e.b);
  P const c1 = e.c1();
  P const c2 = e.c2();
  for (int k = 0; k < 2; ++k) {
    LD const b = k == 0 ? c1.x : c1.y;
    LD const c = k == 0 ? c2.x : c2.y;
    if (c != 0) {
      LD const t = -b / (2 * c);
      if (t > 0 && t < 1) {
        add(e.at(t));
      }
    }
  }
}

// Smallest distance of p to the edge and where it is attained
inline LD
distance(Edge const & e, P p, LD * where = nullptr)
{
  auto const f = [&](LD t) {
    P const q = e.at(t) - p;
    return dot(q, q);
  };
  int const n = 48;
  LD best = 1e30L;
  LD arg = 0;
  LD v[n + 1];
  for (int i = 0; i <= n; ++i) {
    v[i] = f(LD(i) / n);
    if (v[i] < best) {
      best = v[i];
      arg = LD(i) / n;
    }
  }
  for (int i = 0; i <= n; ++i) {
    bool const lowl = i == 0 || v[i] <= v[i - 1];
    bool const lowr = i == n || v[i] <= v[i + 1];
    if (!lowl || !lowr) {
      continue;
    }
    LD lo = std::max(LD(0), LD(i - 1) / n);
    LD hi = std::min(LD(1), LD(i + 1) / n);
    for (int k = 0; k < 90; ++k) {
      LD const a = lo + (hi - lo) * LD(0.381966011250105151795L);
      LD const b = lo + (hi - lo) * LD(0.618033988749894848205L);
      if (f(a) < f(b)) {
        hi = b;
      } else {
        lo = a;
      }
    }
    LD const t = (lo + hi) / 2;
    if (f(t) < best) {
      best = f(t);
      arg = t;
    }
  }
  if (where != nullptr) {
    *where = arg;
  }
  return std::sqrt(best);
}

// Real roots of a t^2 + b t + c (extended precision, stable form)
inline std::vector<LD>
roots(LD a, LD b, LD c)
{
  LD const scale = std::max({std::abs(a), std::abs(b), std::abs(c)});
  if (scale == 0) {
    return {};
  }
  if (std::abs(a) < 1e-18L * scale) {
    if (std::abs(b) < 1e-18L * scale) {
      return {};
    }
    return {-c / b};
  }
  LD const disc = b * b - 4 * a * c;
  if (disc < 0) {
    return {};
  }
  LD const q = -(b + (b < 0 ? -1 : 1) * std::sqrt(disc)) / 2;
  std::vector<LD> r;
  r.push_back(q / a);
  r.push_back(q != 0 ? c / q : LD(0));
  std::sort(r.begin(), r.end());
  return r;
}

// Even-odd containment in the region bounded by the edges; p must not be on the boundary.  The
// direction of the test ray avoids the end points of the edges in all enumerated cases.
inline bool
inside(std::vector<Edge> const & es, P p)
{
  P const dir = {1, 0.000137192847561L};
  int n = 0;
  for (auto const & e : es) {
    // cross(e.at(t) - p, dir) = 0
    LD const c = cross(e.a - p, dir);
    LD const b = cross(e.c1(), dir);
    LD const a = cross(e.c2(), dir);
    for (LD t : roots(a, b, c)) {
      if (t >= 0 && t < 1 && dot(e.at(t) - p, dir) > 0) {
        ++n;
      }
    }
  }
  return n % 2 == 1;
}

inline LD
distance(std::vector<Edge> const & es, P p)
{
  LD best = 1e30L;
  for (auto const & e : es) {
    best = std::min(best, distance(e, p));
  }
  return best;
}

// Crossings of the ray with the edge; false if the case is degenerate within the margin
inline bool
crossings(Edge const & e, bool straight, P o, P d, LD margin, std::vector<LD> & out)
{
  LD const a = straight ? 0 : cross(e.c2(), d);
  LD const b = straight ? cross(e.b - e.a, d) : cross(e.c1(), d);
  LD const c = cross(e.a - o, d);
  if (std::abs(a) < 1e-12L && std::abs(b) < margin) {
    return std::abs(c) > margin; // parallel: no crossing unless collinear
  }
  LD const disc = b * b - 4 * a * c;
  if (std::abs(disc) < margin && std::abs(a) > 1e-12L) {
    return false; // tangential
  }
  for (LD s : roots(std::abs(a) < 1e-12L ? 0 : a, b, c)) {
    P const x = straight ? e.a + s * (e.b - e.a) : e.at(s);
    LD const r = dot(x - o, d);
    if (norm(e.a - x) < margin || norm(e.b - x) < margin) {
      return false; // through an end point
    }
    if (s <= -margin || s >= 1 + margin) {
      continue;
    }
    if (std::abs(s) < margin || std::abs(s - 1) < margin || std::abs(r) < margin) {
      return false;
    }
    if (s > 0 && s < 1 && r > 0) {
      out.push_back(r);
    }
  }
  return true;
}

} // namespace ref
