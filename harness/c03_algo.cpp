// C03: sorting, permutation, range and statistics helpers on every small array.
#include "mc.hpp"

#include <um2/common/branchless_sort.hpp>
#include <um2/common/insertion_sort.hpp>
#include <um2/common/permutation.hpp>
#include <um2/math/stats.hpp>
#include <um2/stdlib/algorithm/clamp.hpp>
#include <um2/stdlib/algorithm/copy.hpp>
#include <um2/stdlib/algorithm/equal.hpp>
#include <um2/stdlib/algorithm/fill.hpp>
#include <um2/stdlib/algorithm/is_sorted.hpp>
#include <um2/stdlib/algorithm/lexicographical_compare.hpp>
#include <um2/stdlib/algorithm/max.hpp>
#include <um2/stdlib/algorithm/max_element.hpp>
#include <um2/stdlib/algorithm/min.hpp>
#include <um2/stdlib/numeric/iota.hpp>
#include <um2/stdlib/string.hpp>
#include <um2/stdlib/utility/pair.hpp>
#include <um2/stdlib/utility/swap.hpp>
#include <um2/stdlib/vector.hpp>

#include <algorithm>
#include <cmath>
#include <numeric>
#include <string>
#include <vector>

namespace
{

// idx -> length and digits; all arrays of length 0..max over k values
std::vector<int>
array(mc::u64 idx, mc::u64 k)
{
  mc::u64 l = 0;
  while (idx >= mc::ipow(k, l)) {
    idx -= mc::ipow(k, l);
    ++l;
  }
  std::vector<int> a(l);
  for (auto & x : a) {
    x = static_cast<int>(idx % k);
    idx /= k;
  }
  return a;
}

mc::u64
arrays(mc::u64 k, mc::u64 max)
{
  mc::u64 n = 0;
  for (mc::u64 l = 0; l <= max; ++l) {
    n += mc::ipow(k, l);
  }
  return n;
}

mc::u64
hashv(std::vector<int> const & a)
{
  return mc::hashBytes(a.data(), a.size() * sizeof(int), a.size() + 77);
}

// A digit as a value of T: distinct, ordered, some negative
template <class T>
T
val(int d)
{
  return static_cast<T>(d - 1);
}
template <>
double
val<double>(int d)
{
  return (d - 1) * 0.37 - 1e-3;
}
template <>
um2::String
val<um2::String>(int d)
{
  static char const * const t[] = {"", "a string that is longer than in place", "b", "ba", "c", "d", "e", "f"};
  return um2::String(t[d]);
}

template <class T>
std::string
show(T const & x)
{
  return std::to_string(x);
}
template <>
std::string
show(um2::String const & x)
{
  return x.data();
}

template <class T>
void
sortOne(std::vector<int> const & a)
{
  size_t const n = a.size();
  std::vector<int> s = a;
  std::sort(s.begin(), s.end());
  {
    // guarded by one element on each side
    std::vector<T> b(n + 2, val<T>(3));
    for (size_t i = 0; i < n; ++i) {
      b[i + 1] = val<T>(a[i]);
    }
    um2::insertionSort(b.data() + 1, b.data() + 1 + n);
    bool ok = b[0] == val<T>(3) && b[n + 1] == val<T>(3);
    for (size_t i = 0; i < n; ++i) {
      ok = ok && b[i + 1] == val<T>(s[i]);
    }
    MC_CHECK(ok, "insertionSort", "array of %zu elements not sorted", n);
    mc::transition();
  }
  std::vector<T> x;
  for (int d : a) {
    x.push_back(val<T>(d));
  }
  std::vector<T> const x0 = x;
  std::vector<Int> p(n + 1, -7);
  um2::sortPermutation(x.data(), x.data() + n, p.data());
  MC_CHECK(x == x0, "sortPermutation", "input changed");
  std::vector<bool> seen(n, false);
  for (size_t i = 0; i < n; ++i) {
    MC_REQUIRE(p[i] >= 0 && p[i] < static_cast<Int>(n) && !seen[static_cast<size_t>(p[i])], "sortPermutation",
               "not a permutation");
    seen[static_cast<size_t>(p[i])] = true;
    MC_CHECK(x[static_cast<size_t>(p[i])] == val<T>(s[i]), "sortPermutation", "position %zu", i);
  }
  MC_CHECK(p[n] == -7, "sortPermutation", "wrote past the permutation");
  mc::transition();
  if constexpr (std::is_trivially_copyable_v<T>) {
    um2::applyPermutation(x.data(), x.data() + n, p.data());
    for (size_t i = 0; i < n; ++i) {
      MC_CHECK(x[i] == val<T>(s[i]), "sort-apply", "position %zu", i);
    }
    mc::transition();
    std::vector<Int> inv(n + 1, -7);
    um2::invertPermutation(p.data(), p.data() + n, inv.data());
    um2::applyPermutation(x.data(), x.data() + n, inv.data());
    MC_CHECK(x == x0, "invert-apply", "original order not restored");
    mc::transition();
  }
}

void
sortCase(mc::u64 idx)
{
  auto const a = array(idx, 4);
  sortOne<int>(a);
  sortOne<double>(a);
  sortOne<int8_t>(a);
  if (a.size() <= 5) {
    sortOne<um2::String>(a);
  }
  mc::state(hashv(a));
  mc::trace();
  mc::sample(mc::fmt("array of %zu values", a.size()));
}

template <class T>
void
sort34(int const * d)
{
  T a[5] = {val<T>(d[0]), val<T>(d[1]), val<T>(d[2]), val<T>(d[3]), val<T>(d[4])};
  T b[5];
  T e[5];
  std::copy(a, a + 5, b);
  um2::sort3(a, a + 1, a + 2);
  std::copy(b, b + 5, e);
  std::sort(e, e + 3);
  MC_CHECK(std::equal(a, a + 5, e), "sort3", "%d %d %d", d[0], d[1], d[2]);
  // arguments need not be adjacent or in order
  T c[4] = {b[0], b[1], b[2], b[3]};
  um2::sort3(c + 3, c + 1, c + 0);
  T f[3] = {b[3], b[1], b[0]};
  std::sort(f, f + 3);
  MC_CHECK(c[3] == f[0] && c[1] == f[1] && c[0] == f[2] && c[2] == b[2], "sort3-scattered", "%d %d %d", d[3], d[1],
           d[0]);
  std::copy(b, b + 5, a);
  um2::sort4(a, a + 1, a + 2, a + 3);
  std::copy(b, b + 5, e);
  std::sort(e, e + 4);
  MC_CHECK(std::equal(a, a + 5, e), "sort4", "%d %d %d %d", d[0], d[1], d[2], d[3]);
  mc::transition(3);
}

void
sort34Case(mc::u64 idx)
{
  mc::Dec q(idx);
  int d[5] = {q.geti(6), q.geti(6), q.geti(6), q.geti(6), 3};
  sort34<int>(d);
  sort34<double>(d);
  sort34<float>(d);
  sort34<int8_t>(d);
  mc::state(idx);
  mc::trace();
}

// Every length with a set of patterns, so that no size-dependent strategy escapes
template <class T>
void
longSort(size_t n, int pattern)
{
  std::vector<T> x(n);
  for (size_t i = 0; i < n; ++i) {
    size_t const k = pattern == 0   ? i
                     : pattern == 1 ? n - i
                     : pattern == 2 ? (i * 7919 + 13) % 10007
                     : pattern == 3 ? (i % 2 == 0 ? i : n - i)
                     : pattern == 4 ? (i * 31) % 5
                                    : (i + 1 == n ? 0 : i + 1);
    x[i] = static_cast<T>(k);
  }
  std::vector<T> s = x;
  std::sort(s.begin(), s.end());
  std::vector<Int> p(n);
  std::vector<Int> inv(n);
  um2::sortPermutation(x.data(), x.data() + n, p.data());
  um2::invertPermutation(p.data(), p.data() + n, inv.data());
  std::vector<T> y = x;
  um2::applyPermutation(y.data(), y.data() + n, p.data());
  MC_CHECK(y == s, "sort-apply", "length %zu pattern %d", n, pattern);
  um2::applyPermutation(y.data(), y.data() + n, inv.data());
  MC_CHECK(y == x, "invert-apply", "length %zu pattern %d", n, pattern);
  um2::insertionSort(y.data(), y.data() + n);
  MC_CHECK(y == s, "insertionSort", "length %zu pattern %d", n, pattern);
  MC_CHECK(um2::is_sorted(s.data(), s.data() + n) && um2::is_sorted(x.data(), x.data() + n) == (x == s), "is_sorted",
           "length %zu pattern %d", n, pattern);
  MC_CHECK(n == 0 || *um2::max_element(x.data(), x.data() + n) == s.back(), "max_element", "length %zu pattern %d", n,
           pattern);
  std::vector<T> c(n + 1, static_cast<T>(-1));
  um2::copy(x.data(), x.data() + n, c.data());
  MC_CHECK(std::equal(x.begin(), x.end(), c.begin()) && c[n] == static_cast<T>(-1), "copy", "length %zu", n);
  mc::transition(8);
}

void
longCase(mc::u64 idx)
{
  mc::Dec q(idx);
  int const pattern = q.geti(6);
  auto const n = static_cast<size_t>(q.v);
  longSort<int>(n, pattern);
  longSort<double>(n, pattern);
  mc::state(idx);
  mc::trace();
}

// Every permutation of n elements
void
permCase(mc::u64 idx)
{
  int n = 0;
  mc::u64 f = 1;
  while (idx >= f) {
    idx -= f;
    ++n;
    f *= static_cast<mc::u64>(n);
  }
  std::vector<Int> p;
  std::vector<Int> pool(static_cast<size_t>(n));
  std::iota(pool.begin(), pool.end(), 0);
  for (int i = n; i > 0; --i) {
    auto const k = static_cast<size_t>(idx % static_cast<mc::u64>(i));
    idx /= static_cast<mc::u64>(i);
    p.push_back(pool[k]);
    pool.erase(pool.begin() + static_cast<long>(k));
  }
  auto const N = static_cast<size_t>(n);
  std::vector<double> x(N + 1, -1);
  for (size_t i = 0; i < N; ++i) {
    x[i] = 10.0 * static_cast<double>(i) + 0.5;
  }
  auto const x0 = x;
  auto const p0 = p;
  um2::applyPermutation(x.data(), x.data() + N, p.data());
  for (size_t i = 0; i < N; ++i) {
    MC_CHECK(x[i] == x0[static_cast<size_t>(p[i])], "apply", "n %d position %zu", n, i);
  }
  MC_CHECK(x[N] == -1 && p == p0, "apply", "wrote elsewhere");
  std::vector<Int> inv(N + 1, -9);
  um2::invertPermutation(p.data(), p.data() + N, inv.data());
  for (size_t i = 0; i < N; ++i) {
    MC_REQUIRE(inv[static_cast<size_t>(p[i])] == static_cast<Int>(i), "invert", "n %d position %zu", n, i);
  }
  MC_CHECK(inv[N] == -9, "invert", "wrote past the end");
  um2::applyPermutation(x.data(), x.data() + N, inv.data());
  MC_CHECK(x == x0, "invert-apply", "original order not restored, n %d", n);
  mc::transition(3);
  mc::state(mc::hashBytes(p.data(), N * sizeof(Int), N));
  mc::trace();
}

template <class T>
void
copyOne(std::vector<int> const & a)
{
  // copy every [f, l) to every non-overlapping place of one buffer and to another buffer
  size_t const n = a.size();
  for (size_t f = 0; f <= n; ++f) {
    for (size_t l = f; l <= n; ++l) {
      for (size_t d = 0; d + (l - f) <= n; ++d) {
        if (d < l && f < d + (l - f)) {
          continue; // overlap
        }
        std::vector<T> b;
        for (int v : a) {
          b.push_back(val<T>(v));
        }
        std::vector<T> e = b;
        for (size_t i = 0; i < l - f; ++i) {
          e[d + i] = e[f + i];
        }
        T * r = um2::copy(b.data() + f, b.data() + l, b.data() + d);
        MC_CHECK(b == e && r == b.data() + d + (l - f), "copy", "[%zu,%zu) to %zu of %zu", f, l, d, n);
        mc::transition();
      }
      std::vector<T> src;
      for (int v : a) {
        src.push_back(val<T>(v));
      }
      std::vector<T> dst(n + 1, val<T>(0));
      T const * cs = src.data();
      T * r = um2::copy(cs + f, cs + l, dst.data());
      bool ok = r == dst.data() + (l - f);
      for (size_t i = 0; i < n + 1; ++i) {
        ok = ok && dst[i] == (i < l - f ? src[f + i] : val<T>(0));
      }
      MC_CHECK(ok, "copy-other", "[%zu,%zu) of %zu", f, l, n);
      mc::transition();
    }
  }
}

void
rangeCase(mc::u64 idx)
{
  auto const a = array(idx, 3);
  size_t const n = a.size();
  copyOne<int>(a);
  copyOne<char>(a);
  if (n <= 4) {
    copyOne<double>(a);
    copyOne<um2::String>(a);
  }
  int const * p = a.data();
  for (size_t f = 0; f <= n; ++f) {
    for (size_t l = f; l <= n; ++l) {
      MC_CHECK(um2::is_sorted(p + f, p + l) == std::is_sorted(p + f, p + l), "is_sorted", "[%zu,%zu)", f, l);
      auto const * m = um2::max_element(p + f, p + l);
      MC_CHECK(m == std::max_element(p + f, p + l), "max_element", "[%zu,%zu)", f, l);
      std::vector<int> b = a;
      std::vector<int> e = a;
      um2::fill(b.data() + f, b.data() + l, 9);
      std::fill(e.begin() + static_cast<long>(f), e.begin() + static_cast<long>(l), 9);
      MC_CHECK(b == e, "fill", "[%zu,%zu)", f, l);
      um2::iota(b.data() + f, b.data() + l, -3);
      std::iota(e.begin() + static_cast<long>(f), e.begin() + static_cast<long>(l), -3);
      MC_CHECK(b == e, "iota", "[%zu,%zu)", f, l);
      for (size_t g = 0; g <= n; ++g) {
        if (g + (l - f) <= n) {
          MC_CHECK(um2::equal(p + f, p + l, p + g) == std::equal(p + f, p + l, p + g), "equal", "[%zu,%zu) %zu", f, l,
                   g);
        }
        MC_CHECK(um2::lexicographical_compare(p + f, p + l, p + g, p + n) ==
                     std::lexicographical_compare(p + f, p + l, p + g, p + n),
                 "lexicographical", "[%zu,%zu) %zu", f, l, g);
        MC_CHECK(um2::lexicographical_compare(p + g, p + n, p + f, p + l) ==
                     std::lexicographical_compare(p + g, p + n, p + f, p + l),
                 "lexicographical", "%zu [%zu,%zu)", g, f, l);
        mc::transition(3);
      }
      mc::transition(4);
    }
  }
  mc::state(hashv(a));
  mc::trace();
  mc::sample(mc::fmt("ranges of an array of %zu values", n));
}

template <class T>
void
scalars(int a, int b, int c)
{
  T const x = val<T>(a);
  T const y = val<T>(b);
  T const z = val<T>(c);
  T const & mn = um2::min(x, y);
  T const & mx = um2::max(x, y);
  MC_CHECK(mn == std::min(x, y) && mx == std::max(x, y), "minmax", "%d %d", a, b);
  if (!(z < y)) {
    MC_CHECK(um2::clamp(x, y, z) == (x < y ? y : (z < x ? z : x)), "clamp", "%d in %d %d", a, b, c);
  }
  T s = x;
  T t = y;
  if constexpr (std::is_trivially_copyable_v<T>) {
    um2::swap(s, t);
    MC_CHECK(s == y && t == x, "swap", "%d %d", a, b);
    T u[2] = {x, y};
    T v[2] = {z, x};
    um2::swap(u, v);
    MC_CHECK(u[0] == z && u[1] == x && v[0] == x && v[1] == y, "swap-array", "%d %d %d", a, b, c);
  }
  mc::transition(4);
}

void
scalarCase(mc::u64 idx)
{
  mc::Dec q(idx);
  int const a = q.geti(5);
  int const b = q.geti(5);
  int const c = q.geti(5);
  int const d = q.geti(5);
  scalars<int>(a, b, c);
  scalars<double>(a, b, c);
  scalars<int8_t>(a, b, c);
  scalars<um2::String>(a, b, c);
  um2::Pair<int, double> const p(a, val<double>(b));
  um2::Pair<int, double> const r(c, val<double>(d));
  auto const e = std::make_pair(a, val<double>(b)) <=> std::make_pair(c, val<double>(d));
  MC_CHECK((p == r) == (e == 0) && (p != r) == (e != 0) && (p < r) == (e < 0) && (p <= r) == (e <= 0) &&
               (p > r) == (e > 0) && (p >= r) == (e >= 0),
           "pair", "(%d,%d) (%d,%d)", a, b, c, d);
  mc::transition(6);
  mc::state(idx);
  mc::trace();
}

// Statistics: for every length, several value patterns (all exactly summable) and every one-hot position
template <class T>
void
stats(std::vector<T> const & x, char const * what, double tol)
{
  auto const n = x.size();
  long double s = 0;
  for (T v : x) {
    s += static_cast<long double>(v);
  }
  long double const m = s / static_cast<long double>(n);
  long double s2 = 0;
  long double mag = 0;
  for (T v : x) {
    long double const d = static_cast<long double>(v) - m;
    s2 += d * d;
    mag = std::max(mag, std::abs(static_cast<long double>(v)));
  }
  auto const close = [&](T got, long double e, long double scale) {
    return std::abs(static_cast<long double>(got) - e) <= static_cast<long double>(tol) * (std::abs(e) + scale);
  };
  T const * b = x.data();
  MC_CHECK(close(um2::sum(b, b + n), s, mag), "sum", "%s n=%zu: %g, expected %Lg", what, n,
           static_cast<double>(um2::sum(b, b + n)), s);
  mc::transition();
  if constexpr (std::is_floating_point_v<T>) {
    MC_CHECK(close(um2::mean(b, b + n), m, mag), "mean", "%s n=%zu", what, n);
    mc::transition();
    if (n > 1) {
      long double const var = s2 / static_cast<long double>(n - 1);
      MC_CHECK(close(um2::variance(b, b + n), var, mag * mag), "variance", "%s n=%zu: %g, expected %Lg", what, n,
               static_cast<double>(um2::variance(b, b + n)), var);
      MC_CHECK(std::abs(static_cast<long double>(um2::stdDev(b, b + n)) - std::sqrt(var)) <=
                   static_cast<long double>(std::sqrt(tol)) * (mag + 1),
               "stdDev", "%s n=%zu", what, n);
      mc::transition(2);
    }
  }
  std::vector<T> y = x;
  std::sort(y.begin(), y.end());
  if constexpr (std::is_floating_point_v<T>) {
    long double const e = n % 2 == 1 ? static_cast<long double>(y[n / 2])
                                     : (static_cast<long double>(y[n / 2]) + static_cast<long double>(y[n / 2 - 1])) / 2;
    MC_CHECK(close(um2::median(y.data(), y.data() + n), e, mag), "median", "%s n=%zu", what, n);
    mc::transition();
  }
}

template <class T>
void
patterns(size_t n, double tol)
{
  std::vector<T> x(n);
  for (size_t i = 0; i < n; ++i) {
    x[i] = static_cast<T>(i % 97);
  }
  stats(x, "ramp", tol);
  for (size_t i = 0; i < n; ++i) {
    x[i] = static_cast<T>(static_cast<int>((i * 37 + 11) % 101) - 50);
  }
  stats(x, "scatter", tol);
  for (size_t i = 0; i < n; ++i) {
    x[i] = static_cast<T>(i % 2 == 0 ? 3 : -2);
  }
  stats(x, "alternating", tol);
  std::fill(x.begin(), x.end(), static_cast<T>(5));
  stats(x, "constant", tol);
}

void
statCase(mc::u64 idx)
{
  auto const n = static_cast<size_t>(idx + 1);
  patterns<double>(n, 1e-12);
  patterns<float>(n, 2e-5);
  patterns<int>(n, 0);
  // every position counts exactly once
  if (n <= 400) {
    std::vector<int64_t> x(n, 0);
    for (size_t i = 0; i < n; ++i) {
      x[i] = 1 + static_cast<int64_t>(i);
      MC_CHECK(um2::sum(x.data(), x.data() + n) == 1 + static_cast<int64_t>(i), "sum-one-hot", "n=%zu position %zu", n,
               i);
      x[i] = 0;
      mc::transition();
    }
  }
  mc::state(n);
  mc::trace();
  mc::sample(mc::fmt("statistics of %zu values", n));
}

// Arrays of every length up to 6 over 3 values, floating-point: order-insensitive statistics
void
smallStatCase(mc::u64 idx)
{
  auto const a = array(idx, 4);
  if (a.empty()) {
    return;
  }
  std::vector<double> x;
  for (int d : a) {
    x.push_back(val<double>(d) * 3);
  }
  stats(x, "small", 1e-12);
  mc::state(hashv(a) ^ 5);
  mc::trace();
}

void
bigSumCase(mc::u64 idx)
{
  size_t const n = size_t(1) << (14 + idx);
  std::vector<float> x(n, 0.1F);
  long double const e = static_cast<long double>(0.1F) * static_cast<long double>(n);
  auto const s = static_cast<long double>(um2::sum(x.data(), x.data() + n));
  MC_CHECK(std::abs(s - e) <= 2e-4L * e, "sum-accuracy", "n=%zu: %Lg, expected %Lg", n, s, e);
  auto const m = static_cast<long double>(um2::mean(x.data(), x.data() + n));
  MC_CHECK(std::abs(m - 0.1L) <= 2e-5L, "mean-accuracy", "n=%zu: %Lg", n, m);
  mc::transition(2);
  mc::state(n);
  mc::trace();
}

void
setup()
{
  mc::space("sort", arrays(4, mc::pick(8, 10)), sortCase);
  mc::space("lengths", 6 * mc::pick(300, 1200), longCase);
  mc::space("sort3-sort4", mc::ipow(6, 4), sort34Case);
  mc::u64 np = 0;
  mc::u64 f = 1;
  for (mc::u64 i = 0; i <= mc::pick(8, 9); ++i) {
    np += f;
    f *= i + 1;
  }
  mc::space("permutations", np, permCase);
  mc::space("ranges", arrays(3, mc::pick(7, 9)), rangeCase);
  mc::space("scalars", 625, scalarCase);
  mc::space("statistics", mc::pick(1100, 4000), statCase);
  mc::space("small-statistics", arrays(4, mc::pick(8, 10)), smallStatCase);
  mc::space("large-sums", mc::pick(8, 10), bigSumCase);
}

} // namespace

MC_MAIN(setup)
