// C06: quadratic and cubic root finders on every polynomial of a coefficient/root lattice.
#include "mc.hpp"

#include <um2/math/cubic_equation.hpp>
#include <um2/math/quadratic_equation.hpp>

#include <algorithm>
#include <cmath>
#include <vector>

namespace
{
using LD = long double;

double const sentinel = 1e16;

bool
invalid(LD x)
{
  return x == static_cast<LD>(sentinel) || x == static_cast<LD>(1e16F);
}

// Real roots of a2 x^2 + a1 x + a0 given the exact sign of the discriminant
std::vector<LD>
quadRoots(LD a, LD b, LD c, int disc_sign)
{
  if (a == 0) {
    if (b == 0) {
      return {};
    }
    return {-c / b};
  }
  if (disc_sign < 0) {
    return {};
  }
  if (disc_sign == 0) {
    return {-b / (2 * a), -b / (2 * a)};
  }
  LD const d = std::sqrt(b * b - 4 * a * c);
  LD const q = -(b + (b >= 0 ? d : -d)) / 2;
  std::vector<LD> r = {q / a, q == 0 ? -b / a : c / q};
  std::sort(r.begin(), r.end());
  return r;
}

template <class V>
std::string
list(V const & v, int n)
{
  std::string s;
  for (int i = 0; i < n; ++i) {
    s += mc::fmt(" %.17g", static_cast<double>(v[i]));
  }
  return s;
}

// roots: n of the finder; expect: the real roots with multiplicity, ascending
template <class T, class V>
void
compare(V const & got, int n, std::vector<LD> expect, LD tol, std::string const & what)
{
  // Rounding can make a repeated root of a cubic complex: then the pair is missing as a whole.
  if (n == 3 && expect.size() == 3) {
    int real = 0;
    for (int i = 0; i < n; ++i) {
      real += invalid(static_cast<LD>(got[i])) ? 0 : 1;
    }
    if (real == 1 && (expect[0] == expect[1] || expect[1] == expect[2])) {
      LD const single = expect[0] == expect[1] ? expect[2] : expect[0];
      LD const t = expect[0] == expect[2] ? std::cbrt(tol) * 8 : tol * 1000;
      MC_CHECK(std::abs(static_cast<LD>(got[0]) - single) <= t * (std::abs(expect[0]) + std::abs(expect[2])), "root",
               "%s: returned%s, expected simple root %.17Lg", what.c_str(), list(got, n).c_str(), single);
      mc::transition();
      return;
    }
  }
  for (int i = 0; i < n; ++i) {
    MC_REQUIRE(std::isfinite(static_cast<double>(got[i])), "finite", "%s: root %d", what.c_str(), i);
    MC_CHECK(i == 0 || got[i - 1] <= got[i], "ascending", "%s:%s", what.c_str(), list(got, n).c_str());
  }
  size_t k = 0;
  LD scale = 0;
  for (LD e : expect) {
    scale = std::max(scale, std::abs(e));
  }
  for (int i = 0; i < n; ++i) {
    if (!invalid(static_cast<LD>(got[i]))) {
      MC_REQUIRE(k < expect.size(), "extra-root", "%s: returned%s, %zu real roots exist", what.c_str(),
                 list(got, n).c_str(), expect.size());
      LD const e = expect[k];
      // multiple roots are only determined to a fractional power of the precision
      LD gap = 1e30L;
      for (size_t j = 0; j < expect.size(); ++j) {
        if (j != k) {
          gap = std::min(gap, std::abs(expect[j] - e));
        }
      }
      LD t = tol;
      if (gap == 0) {
        int mult = 0;
        for (LD x : expect) {
          mult += x == e ? 1 : 0;
        }
        t = mult == 2 ? std::sqrt(tol) * 4 : std::cbrt(tol) * 8;
      } else if (gap < scale) {
        t = tol * (1 + scale / gap) * (1 + scale / gap);
      }
      MC_CHECK(std::abs(static_cast<LD>(got[i]) - e) <= t * std::max(std::abs(e), static_cast<LD>(0.1) * scale) + 1e-30L,
               "root", "%s: root %zu is %.17g, expected %.17Lg", what.c_str(), k, static_cast<double>(got[i]), e);
      ++k;
    }
  }
  MC_CHECK(k == expect.size(), "missing-root", "%s: returned%s, but %zu real roots exist", what.c_str(),
           list(got, n).c_str(), expect.size());
  mc::transition();
}

template <class T>
LD
tolOf()
{
  return std::is_same_v<T, float> ? 2e-6L : 1e-13L;
}

LD const scales[] = {1, 1.0L / 64, 1024, 1.0L / 1048576, 4096.0L * 4096.0L};

// All integer quadratics, times powers of two (so that coefficients stay exact)
constexpr int qr = 12;
void
quadCase(mc::u64 idx)
{
  mc::Dec q(idx);
  int const a = q.geti(2 * qr + 1) - qr;
  int const b = q.geti(2 * qr + 1) - qr;
  int const c = q.geti(2 * qr + 1) - qr;
  int const disc = b * b - 4 * a * c;
  auto const e = quadRoots(a, b, c, disc > 0 ? 1 : (disc < 0 ? -1 : 0));
  for (LD s : scales) {
    auto const r = um2::solveQuadratic<double>(static_cast<double>(a * s), static_cast<double>(b * s),
                                               static_cast<double>(c * s));
    compare<double>(r, 2, e, tolOf<double>(), mc::fmt("%Lg*(%d,%d,%d)", s, a, b, c));
    auto const f =
        um2::solveQuadratic<float>(static_cast<float>(a * s), static_cast<float>(b * s), static_cast<float>(c * s));
    compare<float>(f, 2, e, tolOf<float>(), mc::fmt("float %Lg*(%d,%d,%d)", s, a, b, c));
  }
  // stretched variable: roots times 2^k
  for (int k : {-20, 20}) {
    auto const A = std::ldexp(static_cast<double>(a), -2 * k);
    auto const B = std::ldexp(static_cast<double>(b), -k);
    auto x = e;
    for (auto & v : x) {
      v = std::ldexp(v, k);
    }
    compare<double>(um2::solveQuadratic<double>(A, B, c), 2, x, tolOf<double>(),
                    mc::fmt("(%d,%d,%d) stretched by 2^%d", a, b, c, k));
  }
  mc::state(idx);
  mc::trace();
  if (idx > 900) {
    mc::sample(mc::fmt("quadratic (%d,%d,%d) has %zu real roots", a, b, c, e.size()));
  }
}

// Quadratics with roots of very different size
void
spreadCase(mc::u64 idx)
{
  static LD const rs[] = {-4096, -1000, -37, -3, -1, -0.5L, -0.0009765625L, 0, 0.0009765625L, 0.25L, 1, 2, 7, 100, 65536};
  constexpr int n = 15;
  mc::Dec q(idx);
  LD const r1 = rs[q.geti(n)];
  LD const r2 = rs[q.geti(n)];
  LD const a = q.geti(2) == 0 ? 1 : -2;
  // exact in double: products of short numbers
  auto const A = static_cast<double>(a);
  auto const B = static_cast<double>(-a * (r1 + r2));
  auto const C = static_cast<double>(a * r1 * r2);
  if (static_cast<LD>(B) != -a * (r1 + r2) || static_cast<LD>(C) != a * r1 * r2) {
    return;
  }
  compare<double>(um2::solveQuadratic<double>(A, B, C), 2, {std::min(r1, r2), std::max(r1, r2)}, tolOf<double>(),
                  mc::fmt("roots %Lg, %Lg", r1, r2));
  mc::state(idx);
  mc::trace();
}

// Cubics with small integer coefficients; the number of real roots follows from the exact discriminant
constexpr int cr = 6;

LD
evalp(LD a, LD b, LD c, LD d, LD x)
{
  return ((a * x + b) * x + c) * x + d;
}

std::vector<LD>
cubicRoots(int a, int b, int c, int d)
{
  // a != 0; integer discriminant; isolate the roots between the critical points and bisect
  int64_t const A = a;
  int64_t const B = b;
  int64_t const C = c;
  int64_t const D = d;
  int64_t const disc = 18 * A * B * C * D - 4 * B * B * B * D + B * B * C * C - 4 * A * C * C * C - 27 * A * A * D * D;
  LD const bound = 2 + (std::abs(b) + std::abs(c) + std::abs(d)) / static_cast<LD>(std::abs(a));
  LD const s = a > 0 ? 1 : -1;
  auto const f = [&](LD x) { return s * evalp(a, b, c, d, x); };
  auto const bisect = [&](LD lo, LD hi, bool rising) {
    for (int i = 0; i < 200; ++i) {
      LD const m = (lo + hi) / 2;
      if ((f(m) > 0) == rising) {
        hi = m;
      } else {
        lo = m;
      }
    }
    LD const x = (lo + hi) / 2;
    return x;
  };
  int64_t const d2 = B * B - 3 * A * C; // critical points exist if positive
  if (disc == 0) {
    // repeated root: rational.  d2 == 0 -> triple root -b/(3a)
    if (d2 == 0) {
      LD const r = -static_cast<LD>(b) / (3 * static_cast<LD>(a));
      return {r, r, r};
    }
    // double root: (9ad - bc) / (2 (b^2 - 3ac)); simple: (4abc - 9a^2 d - b^3) / (a (b^2 - 3ac))
    LD const dbl = static_cast<LD>(9 * A * D - B * C) / static_cast<LD>(2 * d2);
    LD const sim = static_cast<LD>(4 * A * B * C - 9 * A * A * D - B * B * B) / static_cast<LD>(A * d2);
    std::vector<LD> r = {dbl, dbl, sim};
    std::sort(r.begin(), r.end());
    return r;
  }
  if (disc > 0) {
    LD const q = std::sqrt(static_cast<LD>(d2));
    LD c1 = (-b - q) / (3 * static_cast<LD>(a));
    LD c2 = (-b + q) / (3 * static_cast<LD>(a));
    if (c1 > c2) {
      std::swap(c1, c2);
    }
    return {bisect(-bound, c1, true), bisect(c1, c2, false), bisect(c2, bound, true)};
  }
  return {bisect(-bound, bound, true)};
}

void
cubicCase(mc::u64 idx)
{
  mc::Dec q(idx);
  int const a = q.geti(2 * cr + 1) - cr;
  int const b = q.geti(2 * cr + 1) - cr;
  int const c = q.geti(2 * cr + 1) - cr;
  int const d = q.geti(2 * cr + 1) - cr;
  std::vector<LD> e;
  if (a == 0) {
    int const disc = c * c - 4 * b * d;
    e = quadRoots(b, c, d, disc > 0 ? 1 : (disc < 0 ? -1 : 0));
  } else {
    e = cubicRoots(a, b, c, d);
  }
  for (LD s : {LD(1), LD(1) / 64, LD(1024)}) {
    auto const r = um2::solveCubic<double>(static_cast<double>(a * s), static_cast<double>(b * s),
                                           static_cast<double>(c * s), static_cast<double>(d * s));
    compare<double>(r, 3, e, tolOf<double>() * 10, mc::fmt("%Lg*(%d,%d,%d,%d)", s, a, b, c, d));
  }
  auto const f =
      um2::solveCubic<float>(static_cast<float>(a), static_cast<float>(b), static_cast<float>(c), static_cast<float>(d));
  compare<float>(f, 3, e, tolOf<float>() * 10, mc::fmt("float (%d,%d,%d,%d)", a, b, c, d));
  mc::state(idx);
  mc::trace();
  if (idx > 900) {
    mc::sample(mc::fmt("cubic (%d,%d,%d,%d) has %zu real roots", a, b, c, d, e.size()));
  }
}

// Cubics from every triple of roots
void
cubicFromRoots(mc::u64 idx)
{
  static LD const rs[] = {-64, -10, -5, -3, -2, -1, -0.5L, 0, 0.25L, 1, 2, 3, 4.5L, 7, 16, 100};
  constexpr int n = 16;
  mc::Dec q(idx);
  std::vector<LD> e = {rs[q.geti(n)], rs[q.geti(n)], rs[q.geti(n)]};
  static LD const as[] = {1, -1, 3, 0.125L};
  LD const a = as[q.geti(4)];
  LD const b = -a * (e[0] + e[1] + e[2]);
  LD const c = a * (e[0] * e[1] + e[1] * e[2] + e[0] * e[2]);
  LD const d = -a * e[0] * e[1] * e[2];
  auto const B = static_cast<double>(b);
  auto const C = static_cast<double>(c);
  auto const D = static_cast<double>(d);
  std::sort(e.begin(), e.end());
  compare<double>(um2::solveCubic<double>(static_cast<double>(a), B, C, D), 3, e, tolOf<double>() * 100,
                  mc::fmt("%Lg (x-%Lg)(x-%Lg)(x-%Lg)", a, e[0], e[1], e[2]));
  mc::state(idx);
  mc::trace();
}

// One real root and a complex pair
void
cubicOneRoot(mc::u64 idx)
{
  static LD const rs[] = {-64, -10, -3, -1, -0.5L, 0, 0.25L, 1, 3, 7, 100};
  mc::Dec q(idx);
  LD const r = rs[q.geti(11)];
  LD const u = rs[q.geti(11)];
  static LD const vs[] = {0.25L, 1, 3, 50};
  LD const v = vs[q.geti(4)];
  static LD const as[] = {1, -1, 3, 0.125L};
  LD const a = as[q.geti(4)];
  // a (x - r) (x^2 - 2 u x + u^2 + v^2)
  LD const p = -2 * u;
  LD const s = u * u + v * v;
  auto const g = um2::solveCubic<double>(static_cast<double>(a), static_cast<double>(a * (p - r)),
                                         static_cast<double>(a * (s - p * r)), static_cast<double>(-a * s * r));
  // conditioning: distance of the pair from the real root
  LD const dist = std::hypot(r - u, v);
  LD const big = std::max({std::abs(r), std::abs(u), v, LD(1)});
  compare<double>(g, 3, {r}, tolOf<double>() * 100 * (1 + (big / dist) * (big / dist)) * (r == 0 ? 1 : 1 + big / std::abs(r)),
                  mc::fmt("%Lg (x-%Lg)((x-%Lg)^2+%Lg^2)", a, r, u, v));
  mc::state(idx);
  mc::trace();
}

// (x - n)(x - n - g) with n so large that b^2 and 4c agree to nearly all digits
void
closeRoots(mc::u64 idx)
{
  mc::Dec q(idx);
  int const g = 1 + q.geti(4);
  double const n = 60000000.0 + 1234567.0 * q.geti(10) + q.geti(10);
  double const sg = q.geti(2) == 0 ? 1 : -1;
  double const sc = std::ldexp(1.0, -10 * q.geti(3));
  double const b = -sg * (2 * n + g); // exact
  double const c = n * (n + g);       // exact when below 2^53
  if (static_cast<LD>(n) * static_cast<LD>(n + g) != static_cast<LD>(c)) {
    return;
  }
  auto const r = um2::solveQuadratic<double>(sc, b * sc, c * sc);
  double const lo = sg > 0 ? n : -(n + g);
  double const hi = sg > 0 ? n + g : -n;
  MC_CHECK(std::abs(r[0] - lo) <= 1e-12 * n && std::abs(r[1] - hi) <= 1e-12 * n, "close-roots",
           "roots %.17g %.17g, expected %.17g %.17g", r[0], r[1], lo, hi);
  mc::transition();
  mc::state(idx);
  mc::trace();
}

// Quadratics whose roots differ much in size: both of them to nearly full relative precision
template <class T>
void
quadraticSpread(mc::u64 idx)
{
  mc::Dec q(idx);
  int const k0 = q.geti(21) - 10;
  int const k1 = k0 + 2 + q.geti(16);
  int const signs = q.geti(4);
  static LD const as[] = {1, -1, 3, -0.125L, 1.7L};
  LD const a = as[q.geti(5)];
  std::vector<LD> e = {std::ldexp(LD((signs & 1) != 0 ? -1.3L : 1.9L), k0), std::ldexp(LD((signs & 2) != 0 ? -1.7L : 1.1L), k1)};
  auto const g = um2::solveQuadratic<T>(static_cast<T>(a), static_cast<T>(-a * (e[0] + e[1])), static_cast<T>(a * e[0] * e[1]));
  std::sort(e.begin(), e.end());
  for (Int i = 0; i < 2; ++i) {
    LD const x = e[static_cast<size_t>(i)];
    MC_CHECK(std::abs(static_cast<LD>(g[i]) - x) <= 30 * LD(std::numeric_limits<T>::epsilon()) * std::abs(x), "spread-root",
             "%Lg (x-%Lg)(x-%Lg): returned%s", a, e[0], e[1], list(g, 2).c_str());
  }
  mc::transition();
  mc::state(idx);
  mc::trace();
}

// Cubics whose roots differ much in size: each of them to nearly full relative precision
template <class T>
void
cubicSpread(mc::u64 idx)
{
  mc::Dec q(idx);
  int const k0 = q.geti(13) - 6;
  int const k1 = k0 + 2 + q.geti(10);
  int const k2 = k1 + 2 + q.geti(10);
  int const signs = q.geti(8);
  static LD const as[] = {1, -1, 3, -0.125L};
  LD const a = as[q.geti(4)];
  std::vector<LD> e = {std::ldexp(LD((signs & 1) != 0 ? -1.3L : 1), k0), std::ldexp(LD((signs & 2) != 0 ? -1 : 1.1L), k1),
                       std::ldexp(LD((signs & 4) != 0 ? -1.4L : 1), k2)};
  LD const b = -a * (e[0] + e[1] + e[2]);
  LD const c = a * (e[0] * e[1] + e[1] * e[2] + e[0] * e[2]);
  LD const d = -a * e[0] * e[1] * e[2];
  auto const g = um2::solveCubic<T>(static_cast<T>(a), static_cast<T>(b), static_cast<T>(c), static_cast<T>(d));
  std::sort(e.begin(), e.end());
  for (Int i = 0; i < 3; ++i) {
    LD const x = e[static_cast<size_t>(i)];
    MC_CHECK(std::abs(static_cast<LD>(g[i]) - x) <= 30 * LD(std::numeric_limits<T>::epsilon()) * std::abs(x), "spread-root",
             "%Lg (x-%Lg)(x-%Lg)(x-%Lg): returned%s", a, e[0], e[1], e[2], list(g, 3).c_str());
  }
  mc::transition();
  mc::state(idx);
  mc::trace();
}

void
setup()
{
  mc::space("quadratics-close-roots", 4 * 10 * 10 * 2 * 3, closeRoots);
  mc::space("quadratics", mc::ipow(2 * qr + 1, 3), quadCase);
  mc::space("quadratics-spread", 15 * 15 * 2, spreadCase);
  mc::space("cubics", mc::ipow(2 * cr + 1, 4), cubicCase);
  mc::space("cubics-from-roots", 16 * 16 * 16 * 4, cubicFromRoots);
  mc::space("quadratics-precise", 21 * 16 * 4 * 5, quadraticSpread<double>);
  mc::space("quadratics-precise-float", 21 * 16 * 4 * 5, quadraticSpread<float>);
  mc::space("cubics-spread", 13 * 10 * 10 * 8 * 4, cubicSpread<double>);
  mc::space("cubics-spread-float", 13 * 10 * 10 * 8 * 4, cubicSpread<float>);
  mc::space("cubics-one-root", 11 * 11 * 4 * 4, cubicOneRoot);
}

} // namespace

MC_MAIN(setup)
