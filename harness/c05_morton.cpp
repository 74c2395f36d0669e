// C05: Morton codes, decided for every 32-bit code and for the bit structure of 64-bit codes.
// Runs in builds with and without bit-manipulation instructions; both are compared with one reference.
#include "mc.hpp"

#include <um2/geometry/morton_sort_points.hpp>
#include <um2/math/morton.hpp>

#include <algorithm>
#include <cmath>
#include <vector>

namespace
{
using u32 = uint32_t;
using mc::u64;

// Reference: spread bit i to bit i*d, by definition
u64
spread(u64 x, int d)
{
  u64 r = 0;
  for (int i = 0; i * d < 64; ++i) {
    r |= ((x >> i) & 1U) << (i * d);
  }
  return r;
}

u64 t2[256]; // spread of a byte
u64 t3[256];

u64
ref2(u64 x, u64 y)
{
  u64 a = 0;
  u64 b = 0;
  for (int k = 0; k < 4; ++k) {
    a |= t2[(x >> (8 * k)) & 255] << (16 * k);
    b |= t2[(y >> (8 * k)) & 255] << (16 * k);
  }
  return a | (b << 1);
}

u64
ref3(u64 x, u64 y, u64 z)
{
  u64 a = 0;
  u64 b = 0;
  u64 c = 0;
  for (int k = 0; k < 3; ++k) {
    a |= t3[(x >> (8 * k)) & 255] << (24 * k);
    b |= t3[(y >> (8 * k)) & 255] << (24 * k);
    c |= t3[(z >> (8 * k)) & 255] << (24 * k);
  }
  return a | (b << 1) | (c << 2);
}

void
two32(u32 x, u32 y)
{
  u32 const e = static_cast<u32>(ref2(x, y));
  u32 const g = um2::mortonEncode(x, y);
  u32 a = 1;
  u32 b = 1;
  um2::mortonDecode(g, a, b);
  if (g != e) {
    mc::fail("encode-2d-32", mc::fmt("(%u,%u): %u, expected %u", x, y, g, e));
  }
  if (a != x || b != y) {
    mc::fail("decode-2d-32", mc::fmt("(%u,%u): (%u,%u)", x, y, a, b));
  }
}

void
three32(u32 x, u32 y, u32 z)
{
  u32 const e = static_cast<u32>(ref3(x, y, z));
  u32 const g = um2::mortonEncode(x, y, z);
  u32 a = 1;
  u32 b = 1;
  u32 c = 1;
  um2::mortonDecode(g, a, b, c);
  if (g != e) {
    mc::fail("encode-3d-32", mc::fmt("(%u,%u,%u): %u, expected %u", x, y, z, g, e));
  }
  if (a != x || b != y || c != z) {
    mc::fail("decode-3d-32", mc::fmt("(%u,%u,%u): (%u,%u,%u)", x, y, z, a, b, c));
  }
}

void
two64(u64 x, u64 y)
{
  u64 const e = ref2(x, y);
  u64 const g = um2::mortonEncode(x, y);
  u64 a = 1;
  u64 b = 1;
  um2::mortonDecode(g, a, b);
  if (g != e) {
    mc::fail("encode-2d-64", mc::fmt("(%lu,%lu): %lu, expected %lu", x, y, g, e));
  }
  if (a != x || b != y) {
    mc::fail("decode-2d-64", mc::fmt("(%lu,%lu): (%lu,%lu)", x, y, a, b));
  }
}

void
three64(u64 x, u64 y, u64 z)
{
  u64 const e = ref3(x, y, z);
  u64 const g = um2::mortonEncode(x, y, z);
  u64 a = 1;
  u64 b = 1;
  u64 c = 1;
  um2::mortonDecode(g, a, b, c);
  if (g != e) {
    mc::fail("encode-3d-64", mc::fmt("(%lu,%lu,%lu): %lu, expected %lu", x, y, z, g, e));
  }
  if (a != x || b != y || c != z) {
    mc::fail("decode-3d-64", mc::fmt("(%lu,%lu,%lu): (%lu,%lu,%lu)", x, y, z, a, b, c));
  }
}

// Structured values of a coordinate of `bits` bits
std::vector<u64>
values(int bits)
{
  std::vector<u64> v;
  u64 const max = (u64(1) << bits) - 1;
  for (int k = 0; k < bits; ++k) {
    v.push_back(u64(1) << k);
    v.push_back((u64(1) << k) - 1);
    v.push_back(max - (u64(1) << k));
    if (k > 0) {
      v.push_back((u64(3) << (k - 1)) & max);
    }
  }
  for (u64 p : {0x5555555555555555UL, 0xAAAAAAAAAAAAAAAAUL, 0x0F0F0F0F0F0F0F0FUL, 0x00FF00FF00FF00FFUL,
                0x123456789ABCDEFUL, 0xFEDCBA9876543210UL, ~0UL}) {
    v.push_back(p & max);
  }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}

std::vector<u64> v32;
std::vector<u64> v21;

template <class T, class U>
void
floatRoundTrip2(T x, T y)
{
  U const code = um2::mortonEncode<U, T>(x, y);
  T a = -1;
  T b = -1;
  um2::mortonDecode(code, a, b);
  T const cell = static_cast<T>(1) / static_cast<T>(um2::max_2d_morton_coord<U>);
  T const tol = cell * static_cast<T>(1.01);
  MC_CHECK(std::abs(a - x) <= tol && std::abs(b - y) <= tol, "float-2d", "(%.17g,%.17g) -> (%.17g,%.17g)",
           static_cast<double>(x), static_cast<double>(y), static_cast<double>(a), static_cast<double>(b));
  mc::transition();
}

template <class T, class U>
void
floatRoundTrip3(T x, T y, T z)
{
  U const code = um2::mortonEncode<U, T>(x, y, z);
  T a = -1;
  T b = -1;
  T c = -1;
  um2::mortonDecode(code, a, b, c);
  T const cell = static_cast<T>(1) / static_cast<T>(um2::max_3d_morton_coord<U>);
  T const tol = cell * static_cast<T>(1.01);
  MC_CHECK(std::abs(a - x) <= tol && std::abs(b - y) <= tol && std::abs(c - z) <= tol, "float-3d",
           "(%.17g,%.17g,%.17g) -> (%.17g,%.17g,%.17g)", static_cast<double>(x), static_cast<double>(y),
           static_cast<double>(z), static_cast<double>(a), static_cast<double>(b), static_cast<double>(c));
  mc::transition();
}

template <class T>
T
unit(u64 k, u64 n)
{
  return static_cast<T>(k) / static_cast<T>(n);
}

// Coordinates of the form k/n, k = 0..n
void
floatCase(u64 idx)
{
  u64 const n = 4096;
  auto const x = unit<double>(idx, n);
  auto const xf = unit<float>(idx, n);
  double const ys[] = {0.0, 1.0, 0.5, 0.3333333333333333, 1e-9, 0.999999999};
  for (double y : ys) {
    floatRoundTrip2<double, u32>(x, y);
    floatRoundTrip2<double, u32>(y, x);
    floatRoundTrip2<double, u64>(x, y);
    floatRoundTrip2<double, u64>(y, x);
    floatRoundTrip2<float, u32>(xf, static_cast<float>(y));
    floatRoundTrip2<float, u32>(static_cast<float>(y), xf);
    for (double z : ys) {
      floatRoundTrip3<double, u32>(x, y, z);
      floatRoundTrip3<double, u32>(y, x, z);
      floatRoundTrip3<double, u32>(y, z, x);
      floatRoundTrip3<double, u64>(x, y, z);
      floatRoundTrip3<double, u64>(y, x, z);
      floatRoundTrip3<double, u64>(y, z, x);
      floatRoundTrip3<float, u32>(xf, static_cast<float>(y), static_cast<float>(z));
    }
  }
  // monotone in each coordinate
  if (idx > 0) {
    auto const w = unit<double>(idx - 1, n);
    MC_CHECK((um2::mortonEncode<u32, double>(w, 0.25) <= um2::mortonEncode<u32, double>(x, 0.25)), "order", "x %g", x);
    MC_CHECK((um2::mortonEncode<u64, double>(0.75, w) <= um2::mortonEncode<u64, double>(0.75, x)), "order", "y %g", x);
    MC_CHECK((um2::mortonEncode<u32, double>(w, 0.25, 0.5) <= um2::mortonEncode<u32, double>(x, 0.25, 0.5)), "order",
             "3d x %g", x);
    // points through the point interface
    um2::Point2<double> const p(x, w);
    MC_CHECK(um2::mortonEncode(p) == (um2::mortonEncode<u32, double>(x, w)), "point-2d", "%g %g", x, w);
    um2::Point2<double> q(0, 0);
    um2::mortonDecode(um2::mortonEncode(p), q);
    MC_CHECK(std::abs(q[0] - x) < 2e-5 && std::abs(q[1] - w) < 2e-5, "point-2d", "%g %g", x, w);
    um2::Point3<double> const p3(x, w, 0.25);
    um2::Point3<double> q3(0, 0, 0);
    um2::mortonDecode(um2::mortonEncode(p3), q3);
    MC_CHECK(std::abs(q3[0] - x) < 1e-3 && std::abs(q3[1] - w) < 1e-3 && std::abs(q3[2] - 0.25) < 1e-3, "point-3d",
             "%g %g", x, w);
  }
  mc::state(idx);
  mc::trace();
  mc::sample(mc::fmt("coordinate %llu/4096", static_cast<unsigned long long>(idx)));
}

u64
code(um2::Point2<double> const & p)
{
  return ref2(static_cast<u64>(p[0] * 65535.0), static_cast<u64>(p[1] * 65535.0));
}
u64
code(um2::Point3<double> const & p)
{
  return ref3(static_cast<u64>(p[0] * 1023.0), static_cast<u64>(p[1] * 1023.0), static_cast<u64>(p[2] * 1023.0));
}

template <Int D>
void
checkSort(std::vector<um2::Point<D, double>> const & pts, double scale)
{
  using P = um2::Point<D, double>;
  size_t const n = pts.size();
  auto const less = [](P const & a, P const & b) {
    for (Int i = 0; i < D; ++i) {
      if (a[i] != b[i]) {
        return a[i] < b[i];
      }
    }
    return false;
  };
  auto const same = [&](std::vector<P> a, std::vector<P> b) {
    std::sort(a.begin(), a.end(), less);
    std::sort(b.begin(), b.end(), less);
    for (size_t i = 0; i < a.size(); ++i) {
      if (less(a[i], b[i]) || less(b[i], a[i])) {
        return false;
      }
    }
    return true;
  };
  std::vector<P> s = pts;
  um2::mortonSort(s.data(), s.data() + n);
  MC_CHECK(same(s, pts), "sort-points", "points changed (%zu points, %dD)", n, D);
  for (size_t i = 1; i < n; ++i) {
    MC_CHECK(code(s[i - 1]) <= code(s[i]), "sort-points", "not ordered at %zu of %zu, %dD", i, n, D);
  }
  std::vector<Int> perm(n + 1, -5);
  um2::mortonSortPermutation(pts.data(), pts.data() + n, perm.data());
  std::vector<bool> seen(n, false);
  for (size_t i = 0; i < n; ++i) {
    MC_REQUIRE(perm[i] >= 0 && perm[i] < static_cast<Int>(n) && !seen[static_cast<size_t>(perm[i])],
               "sort-permutation", "not a permutation");
    seen[static_cast<size_t>(perm[i])] = true;
    MC_CHECK(i == 0 || code(pts[static_cast<size_t>(perm[i - 1])]) <= code(pts[static_cast<size_t>(perm[i])]),
             "sort-permutation", "not ordered at %zu of %zu, %dD", i, n, D);
  }
  MC_CHECK(perm[n] == -5, "sort-permutation", "wrote past the end");
  // scaled points
  std::vector<P> big = pts;
  um2::Vec<D, double> sc;
  for (Int i = 0; i < D; ++i) {
    sc[i] = scale * (1.0 + 0.5 * static_cast<double>(i));
  }
  for (auto & p : big) {
    for (Int i = 0; i < D; ++i) {
      p[i] /= sc[i];
    }
  }
  um2::mortonSortPermutation(big.data(), big.data() + n, perm.data(), sc);
  std::vector<bool> seen2(n, false);
  for (size_t i = 0; i < n; ++i) {
    MC_REQUIRE(perm[i] >= 0 && perm[i] < static_cast<Int>(n) && !seen2[static_cast<size_t>(perm[i])],
               "sort-permutation-scaled", "not a permutation");
    seen2[static_cast<size_t>(perm[i])] = true;
    if (i > 0) {
      P a = big[static_cast<size_t>(perm[i - 1])];
      P b = big[static_cast<size_t>(perm[i])];
      for (Int k = 0; k < D; ++k) {
        a[k] *= sc[k];
        b[k] *= sc[k];
      }
      MC_CHECK(code(a) <= code(b), "sort-permutation-scaled", "not ordered at %zu of %zu, %dD", i, n, D);
    }
  }
  mc::transition(3);
}

void
sortCase2(u64 idx)
{
  // up to 5 points of a 3x3 grid
  u64 l = 0;
  while (idx >= mc::ipow(9, l)) {
    idx -= mc::ipow(9, l);
    ++l;
  }
  std::vector<um2::Point2<double>> p;
  for (u64 i = 0; i < l; ++i) {
    p.emplace_back(static_cast<double>(idx % 3) * 0.45, static_cast<double>((idx / 3) % 3) * 0.45);
    idx /= 9;
  }
  checkSort<2>(p, 0.125);
  mc::state(mc::cur_idx);
  mc::trace();
}

void
sortCase3(u64 idx)
{
  u64 l = 0;
  while (idx >= mc::ipow(12, l)) {
    idx -= mc::ipow(12, l);
    ++l;
  }
  std::vector<um2::Point3<double>> p;
  for (u64 i = 0; i < l; ++i) {
    u64 const d = idx % 12;
    p.emplace_back(static_cast<double>(d % 2) * 0.45, static_cast<double>((d / 2) % 2) * 0.45,
                   static_cast<double>(d / 4) * 0.45);
    idx /= 12;
  }
  checkSort<3>(p, 0.25);
  mc::state(mc::cur_idx);
  mc::trace();
}

void
sortLong(u64 idx)
{
  std::vector<um2::Point2<double>> p;
  std::vector<um2::Point3<double>> q;
  for (u64 i = 0; i < idx; ++i) {
    p.emplace_back(static_cast<double>((i * 7919) % 1009) / 1010.0, static_cast<double>((i * 104729) % 997) / 1000.0);
    q.emplace_back(static_cast<double>((i * 7919) % 1009) / 1010.0, static_cast<double>((i * 104729) % 997) / 1000.0,
                   static_cast<double>((i * 31) % 101) / 101.0);
  }
  checkSort<2>(p, 0.25);
  checkSort<3>(q, 0.125);
  mc::state(idx);
  mc::trace();
}

void
setup()
{
  for (u64 i = 0; i < 256; ++i) {
    t2[i] = spread(i, 2);
    t3[i] = spread(i, 3);
  }
  v32 = values(32);
  v21 = values(21);
  mc::space("2d-64-structure", v32.size(), [](u64 i) {
    for (u64 y : v32) {
      two64(v32[i], y);
    }
    mc::transition(2 * v32.size());
    mc::state(i);
    mc::trace(v32.size());
  });
  mc::space("3d-64-structure", v21.size(), [](u64 i) {
    for (u64 y : v21) {
      for (u64 z : v21) {
        three64(v21[i], y, z);
      }
    }
    mc::transition(2 * v21.size() * v21.size());
    mc::state(i);
    mc::trace(v21.size() * v21.size());
  });
  mc::space("3d-64-sweep", 2048, [](u64 i) {
    // every value of each coordinate, the other two fixed
    for (u64 k = 0; k < 1024; ++k) {
      u64 const c = i * 1024 + k;
      three64(c, 0x155555, 0x0AAAAA);
      three64(0x1FFFFF, c, 0);
      three64(0x012345, 0x1FEDCB, c);
    }
    mc::transition(6 * 1024);
    mc::state(i);
    mc::trace(3 * 1024);
  });
  mc::space("floats", 4097, floatCase);
  u64 n2 = 0;
  u64 n3 = 0;
  for (u64 l = 0; l <= mc::pick(4, 5); ++l) {
    n2 += mc::ipow(9, l);
    n3 += mc::ipow(12, l);
  }
  mc::space("sort-2d", n2, sortCase2);
  mc::space("sort-3d", n3, sortCase3);
  mc::space("sort-lengths", mc::pick(200, 600), sortLong);
#ifndef __SANITIZE_ADDRESS__
  // Every 32-bit code.  A case is one x coordinate with every y.
  mc::space("2d-32-all", 65536, [](u64 i) {
    auto const x = static_cast<u32>(i);
    for (u32 y = 0; y < 65536; ++y) {
      two32(x, y);
    }
    mc::transition(2 * 65536);
    mc::state(i);
    mc::trace(65536);
  });
  mc::space("3d-32-all", 1024 * 32, [](u64 i) {
    auto const x = static_cast<u32>(i & 1023U);
    for (u32 y = static_cast<u32>(i >> 10U) * 32; y < static_cast<u32>(i >> 10U) * 32 + 32; ++y) {
      for (u32 z = 0; z < 1024; ++z) {
        three32(x, y, z);
      }
    }
    mc::transition(2 * 32 * 1024);
    mc::state(i);
    mc::trace(32 * 1024);
  });
  // Every value of a 32-bit coordinate of a 64-bit code (quick: every value of both 16-bit halves)
  if (mc::thorough()) {
    mc::space("2d-64-sweep", 65536, [](u64 i) {
      for (u64 k = 0; k < 65536; ++k) {
        u64 const c = i * 65536 + k;
        two64(c, 0x12345678);
        two64(0xFEDCBA98, c);
      }
      mc::transition(4 * 65536);
      mc::state(i);
      mc::trace(2 * 65536);
    });
  } else {
    mc::space("2d-64-halves", 256, [](u64 i) {
      for (u64 k = 0; k < 256; ++k) {
        u64 const c = i * 256 + k;
        for (u64 x : {c, c << 16U, (c << 16U) | 0xFFFF, c | 0xFFFF0000}) {
          two64(x, 0x12345678);
          two64(0xFEDCBA98, x);
        }
      }
      mc::transition(16 * 256);
      mc::state(i);
      mc::trace(8 * 256);
    });
  }
#endif
}

} // namespace

MC_MAIN(setup)
