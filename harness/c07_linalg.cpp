// C07: fixed-size vectors and matrices, dynamic matrices, linear solves and spectra against
// exact integer arithmetic.  Built with and without the SIMD and BLAS back ends.
#include "mc.hpp"

#include <cstring>
#include <new>

#include <um2/math/mat.hpp>
#include <um2/math/matrix.hpp>
#include <um2/math/vec.hpp>

#include <array>
#include <cmath>
#include <complex>
#include <vector>

namespace
{
using um2::Mat;
using um2::Matrix;
using um2::Vec;
using um2::Vector;
using mc::u64;

template <class T>
constexpr double tol = 0;
template <>
constexpr double tol<float> = 1e-5;
template <>
constexpr double tol<double> = 1e-13;

template <class T>
char const * tname = "?";
template <>
char const * tname<int> = "int";
template <>
char const * tname<unsigned> = "unsigned";
template <>
char const * tname<float> = "float";
template <>
char const * tname<double> = "double";

//------------------------------------------------------------------------------
// Vec
//------------------------------------------------------------------------------
template <int D, class T>
std::string
show(std::array<int, D> const & a)
{
  std::string s = "(";
  for (int x : a) {
    s += std::to_string(x) + ",";
  }
  s.back() = ')';
  return s;
}

template <int D, class T>
void
vecPair(std::array<int, D> const & a, std::array<int, D> const & b)
{
  using V = Vec<D, T>;
  std::string const w = show<D, T>(a) + show<D, T>(b);
  char const * const c = w.c_str();
  V u;
  V v;
  for (int i = 0; i < D; ++i) {
    u[i] = static_cast<T>(a[i]);
    v[i] = static_cast<T>(b[i]);
  }
  auto const same = [&](V const & r, auto f, char const * what) {
    for (int i = 0; i < D; ++i) {
      T const e = static_cast<T>(f(i));
      MC_CHECK(r[i] == e && r.begin()[i] == e, what, "%s component %d is %g, expected %g", c, i,
               static_cast<double>(r[i]), static_cast<double>(e));
    }
    MC_CHECK(r.end() - r.begin() == D, "extent", "%s", c);
    mc::transition();
  };
  auto const A = [&](int i) { return static_cast<T>(a[i]); };
  auto const B = [&](int i) { return static_cast<T>(b[i]); };
  bool bnz = true;
  bool anz = true;
  for (int i = 0; i < D; ++i) {
    bnz = bnz && b[i] != 0;
    anz = anz && a[i] != 0;
  }
  same(u + v, [&](int i) { return A(i) + B(i); }, "sum");
  same(u - v, [&](int i) { return A(i) - B(i); }, "difference");
  same(u * v, [&](int i) { return A(i) * B(i); }, "product");
  if (bnz) {
    same(u / v, [&](int i) { return A(i) / B(i); }, "quotient");
    V r = u;
    r /= v;
    same(r, [&](int i) { return A(i) / B(i); }, "quotient-assign");
  }
  same(-u, [&](int i) { return -A(i); }, "negation");
  {
    V r = u;
    r += v;
    same(r, [&](int i) { return A(i) + B(i); }, "sum-assign");
    r = u;
    r -= v;
    same(r, [&](int i) { return A(i) - B(i); }, "difference-assign");
    r = u;
    r *= v;
    same(r, [&](int i) { return A(i) * B(i); }, "product-assign");
    r = u;
    r += r;
    same(r, [&](int i) { return A(i) + A(i); }, "self-sum-assign");
    r = u;
    r *= r;
    same(r, [&](int i) { return A(i) * A(i); }, "self-product-assign");
    r = u;
    r.min(v);
    same(r, [&](int i) { return A(i) < B(i) ? A(i) : B(i); }, "min");
    r = u;
    r.max(v);
    same(r, [&](int i) { return A(i) < B(i) ? B(i) : A(i); }, "max");
    same(um2::min(u, v), [&](int i) { return A(i) < B(i) ? A(i) : B(i); }, "min");
    same(um2::max(u, v), [&](int i) { return A(i) < B(i) ? B(i) : A(i); }, "max");
    same(V::zero(), [&](int) { return 0; }, "zero");
  }
  // scalars: of the element type and integral
  {
    T const s = B(0);
    same(u + s, [&](int i) { return A(i) + s; }, "sum-scalar");
    same(s + u, [&](int i) { return A(i) + s; }, "scalar-sum");
    same(u - s, [&](int i) { return A(i) - s; }, "difference-scalar");
    same(s - u, [&](int i) { return s - A(i); }, "scalar-difference");
    same(u * s, [&](int i) { return A(i) * s; }, "product-scalar");
    same(s * u, [&](int i) { return A(i) * s; }, "scalar-product");
    if (b[0] != 0) {
      same(u / s, [&](int i) { return A(i) / s; }, "quotient-scalar");
    }
    if (anz) {
      same(s / u, [&](int i) { return s / A(i); }, "scalar-quotient");
    }
    short const k = static_cast<short>(b[D - 1]);
    T const kt = static_cast<T>(k);
    same(u + k, [&](int i) { return A(i) + kt; }, "sum-integer");
    same(k - u, [&](int i) { return kt - A(i); }, "integer-difference");
    same(k * u, [&](int i) { return A(i) * kt; }, "integer-product");
    if (k != 0) {
      same(u / k, [&](int i) { return A(i) / kt; }, "quotient-integer");
    }
    V r = u;
    r = s;
    same(r, [&](int) { return s; }, "assign-scalar");
    r = k;
    same(r, [&](int) { return kt; }, "assign-integer");
  }
  // dot, norms, distances
  T d = 0;
  T n2 = 0;
  T dist2 = 0;
  for (int i = 0; i < D; ++i) {
    d += A(i) * B(i);
    n2 += A(i) * A(i);
    dist2 += (A(i) - B(i)) * (A(i) - B(i));
  }
  MC_CHECK(u.dot(v) == d && v.dot(u) == d && um2::dot(u, v) == d, "dot", "%s dot %g expected %g", c,
           double(u.dot(v)), double(d));
  MC_CHECK(u.squaredNorm() == n2 && um2::squaredNorm(u) == n2, "squared-norm", "%s %g expected %g", c,
           double(u.squaredNorm()), double(n2));
  MC_CHECK(u.squaredDistanceTo(v) == dist2 && v.squaredDistanceTo(u) == dist2, "squared-distance", "%s", c);
  if constexpr (std::is_floating_point_v<T>) {
    double const n = std::sqrt(double(n2));
    MC_CHECK(std::abs(u.norm() - n) <= tol<T> * n && std::abs(um2::norm(u) - n) <= tol<T> * n, "norm", "%s %g expected %g",
             c, double(u.norm()), n);
    double const dd = std::sqrt(double(dist2));
    MC_CHECK(std::abs(u.distanceTo(v) - dd) <= tol<T> * dd, "distance", "%s %g expected %g", c, double(u.distanceTo(v)),
             dd);
    if (n > 0) {
      V r = u;
      r.normalize();
      V const q = u.normalized();
      V const f = um2::normalized(u);
      for (int i = 0; i < D; ++i) {
        double const e = a[i] / n;
        MC_CHECK(std::abs(r[i] - e) <= tol<T> && std::abs(q[i] - e) <= tol<T> && std::abs(f[i] - e) <= tol<T>,
                 "normalized", "%s", c);
      }
    }
    MC_CHECK(u.isApprox(v, static_cast<T>(double(dist2) + 0.5)), "approx", "%s must be within %g", c, double(dist2) + 0.5);
    if (dist2 > 0) {
      MC_CHECK(!u.isApprox(v, static_cast<T>(double(dist2) - 0.5)), "approx", "%s must not be within %g", c,
               double(dist2) - 0.5);
      MC_CHECK(!u.isApprox(v), "approx-default", "%s", c);
    } else {
      MC_CHECK(u.isApprox(v), "approx-default", "%s", c);
    }
  }
  if constexpr (D == 2 && (std::is_floating_point_v<T>)) {
    T const e = A(0) * B(1) - A(1) * B(0);
    MC_CHECK(u.cross(v) == e && um2::cross(u, v) == e, "cross2", "%s %g expected %g", c, double(u.cross(v)), double(e));
  }
  if constexpr (D == 3 && (std::is_floating_point_v<T>)) {
    T const e[3] = {A(1) * B(2) - A(2) * B(1), A(2) * B(0) - A(0) * B(2), A(0) * B(1) - A(1) * B(0)};
    same(u.cross(v), [&](int i) { return e[i]; }, "cross3");
    same(um2::cross(u, v), [&](int i) { return e[i]; }, "cross3");
  }
  int cmp = 0;
  for (int i = 0; i < D && cmp == 0; ++i) {
    cmp = A(i) < B(i) ? -1 : (B(i) < A(i) ? 1 : 0);
  }
  MC_CHECK((u == v) == (cmp == 0) && (u != v) == (cmp != 0), "equality", "%s", c);
  MC_CHECK((u < v) == (cmp < 0) && (u > v) == (cmp > 0) && (u <= v) == (cmp <= 0) && (u >= v) == (cmp >= 0), "ordering",
           "%s", c);
  mc::transition(8);
  mc::state(mc::hashStr(w));
  mc::trace();
}

template <int D, class T>
void
vecSpace(std::vector<int> vals)
{
  u64 const n = mc::ipow(vals.size(), 2 * D);
  mc::space(mc::fmt("vec%d-%s", D, tname<T>), n, [vals](u64 idx) {
    mc::Dec q(idx);
    std::array<int, D> a;
    std::array<int, D> b;
    for (int i = 0; i < D; ++i) {
      a[i] = vals[q.get(vals.size())];
    }
    for (int i = 0; i < D; ++i) {
      b[i] = vals[q.get(vals.size())];
    }
    vecPair<D, T>(a, b);
    if (idx > 50) {
      mc::sample(show<D, T>(a) + " with " + show<D, T>(b));
    }
  });
}

// Wide vectors: a base pattern changed in every pair of places
template <int D, class T>
void
wideSpace()
{
  mc::space(mc::fmt("vec%d-%s", D, tname<T>), D * D * 5 * 5 * 4, [](u64 idx) {
    mc::Dec q(idx);
    int const p1 = q.geti(D);
    int const p2 = q.geti(D);
    int const x1 = q.geti(5) - 2;
    int const x2 = q.geti(5) - 2;
    int const base = q.geti(4);
    std::array<int, D> a;
    std::array<int, D> b;
    for (int i = 0; i < D; ++i) {
      a[i] = base == 0 ? i + 1 : (base == 1 ? 3 : (i % 2 == 0 ? -i - 1 : 2 * i + 1));
      b[i] = base == 1 ? 3 : (base == 3 ? a[i] : D + 2 * i);
    }
    a[p1] = x1;
    b[p2] = x2;
    vecPair<D, T>(a, b);
  });
}

// det2x2 and cross products whose two terms nearly cancel: exact in extended integers
void
cancelCase(u64 idx)
{
  mc::Dec q(idx);
  int64_t const s = 94906265; // about sqrt(2^53): products need up to 54 bits
  int64_t const a = s - q.geti(12);
  int64_t const b = s - q.geti(12);
  int64_t const c = s - q.geti(12);
  int64_t const d = s - q.geti(12);
  __int128 const e = static_cast<__int128>(a) * d - static_cast<__int128>(b) * c;
  auto const exact = static_cast<double>(static_cast<int64_t>(e));
  double const r = um2::det2x2<double>(double(a), double(b), double(c), double(d));
  MC_CHECK(std::abs(r - exact) <= 1e-12 * std::abs(exact), "cancelling-determinant", "%ld %ld %ld %ld gives %.17g, exact %.17g",
           a, b, c, d, r, exact);
  auto const u = um2::Vec2<double>{double(a), double(b)};
  auto const v = um2::Vec2<double>{double(c), double(d)};
  double const x = u.cross(v);
  MC_CHECK(std::abs(x - exact) <= 1e-12 * std::abs(exact), "cancelling-cross", "%ld %ld %ld %ld gives %.17g, exact %.17g", a,
           b, c, d, x, exact);
  mc::transition(2);
  mc::state(idx);
  mc::trace();
}

//------------------------------------------------------------------------------
// Mat
//------------------------------------------------------------------------------
// Entries of the k-th matrix of a family: zero, every unit matrix with weight 2, every sum of two
// unit matrices, and three dense ones with distinct entries.
int
familySize(int n)
{
  return 1 + n + n * n + 3;
}
std::vector<int>
family(int n, int k)
{
  std::vector<int> m(static_cast<size_t>(n), 0);
  if (k == 0) {
    return m;
  }
  --k;
  if (k < n) {
    m[size_t(k)] = 2;
    return m;
  }
  k -= n;
  if (k < n * n) {
    m[size_t(k % n)] += 3;
    m[size_t(k / n)] -= 1;
    return m;
  }
  k -= n * n;
  for (int i = 0; i < n; ++i) {
    m[size_t(i)] = k == 0 ? i + 1 : (k == 1 ? (i * 7 + 3) % 11 - 5 : 1 - 2 * (i % 2));
  }
  return m;
}

template <int M, int N, class T>
Mat<M, N, T>
makeMat(std::vector<int> const & e)
{
  Mat<M, N, T> r;
  for (int j = 0; j < N; ++j) {
    for (int i = 0; i < M; ++i) {
      r(i, j) = static_cast<T>(e[size_t(j * M + i)]);
    }
  }
  return r;
}

template <int M, int N, int P, class T>
void
matSpace()
{
  int const na = familySize(M * N);
  int const nb = familySize(N * P);
  mc::space(mc::fmt("mat%dx%dx%d-%s", M, N, P, tname<T>), u64(na) * u64(nb), [na, nb](u64 idx) {
    mc::Dec q(idx);
    int const ka = q.geti(na);
    int const kb = q.geti(nb);
    auto const ea = family(M * N, ka);
    auto const eb = family(N * P, kb);
    auto const a = makeMat<M, N, T>(ea);
    auto const b = makeMat<N, P, T>(eb);
    for (int i = 0; i < M * N; ++i) {
      MC_CHECK(a(i / 1) == static_cast<T>(ea[size_t(i)]) && a.col(i / M)[i % M] == static_cast<T>(ea[size_t(i)]),
               "element-access", "%dx%d element %d", M, N, i);
    }
    auto const c = a * b;
    for (int i = 0; i < M; ++i) {
      for (int j = 0; j < P; ++j) {
        int e = 0;
        for (int k = 0; k < N; ++k) {
          e += ea[size_t(k * M + i)] * eb[size_t(j * N + k)];
        }
        MC_CHECK(c(i, j) == static_cast<T>(e), "mat-product", "%dx%d times %dx%d (%d,%d): element (%d,%d) is %g, expected %d", M,
                 N, N, P, ka, kb, i, j, double(c(i, j)), e);
      }
    }
    for (int j = 0; j < P; ++j) {
      auto const y = a * b.col(j);
      for (int i = 0; i < M; ++i) {
        int e = 0;
        for (int k = 0; k < N; ++k) {
          e += ea[size_t(k * M + i)] * eb[size_t(j * N + k)];
        }
        MC_CHECK(y[i] == static_cast<T>(e), "mat-vec", "%dx%d (%d,%d): element %d is %g, expected %d", M, N, ka, kb, i,
                 double(y[i]), e);
      }
    }
    if constexpr (N == P || M == N) {
      // sums of two matrices of the same shape
    }
    if constexpr (M == P) {
      // a (MxN) and the transposed-shape b read as MxN
      auto const b2 = makeMat<M, N, T>(eb);
      auto const s = a + b2;
      auto const d = a - b2;
      for (int i = 0; i < M * N; ++i) {
        MC_CHECK(s(i) == static_cast<T>(ea[size_t(i)] + eb[size_t(i)]), "mat-sum", "%dx%d (%d,%d)", M, N, ka, kb);
        MC_CHECK(d(i) == static_cast<T>(ea[size_t(i)] - eb[size_t(i)]), "mat-difference", "%dx%d (%d,%d)", M, N, ka, kb);
      }
    }
    if constexpr (M == N) {
      auto const id = Mat<M, M, T>::identity();
      auto const z = Mat<M, M, T>::zero();
      auto const l = id * a;
      auto const r = a * id;
      for (int i = 0; i < M * M; ++i) {
        MC_CHECK(l(i) == a(i) && r(i) == a(i), "identity", "%dx%d", M, M);
        MC_CHECK(z(i) == 0, "zero", "%dx%d", M, M);
      }
    }
    mc::transition(static_cast<u64>(M * P * 2));
    mc::state(idx);
    mc::trace();
  });
}

// Every 2x2 matrix over a range: inverse and determinant
template <class T>
void
invCase(u64 idx, int r)
{
  mc::Dec q(idx);
  int e[4];
  for (int & x : e) {
    x = q.geti(2 * r + 1) - r;
  }
  int const det = e[0] * e[3] - e[1] * e[2];
  MC_CHECK(um2::det2x2<T>(T(e[0]), T(e[1]), T(e[2]), T(e[3])) == T(det), "det2x2", "%d %d %d %d", e[0], e[1], e[2], e[3]);
  mc::transition();
  if (det == 0) {
    return;
  }
  auto const m = makeMat<2, 2, T>({e[0], e[1], e[2], e[3]});
  auto const i = um2::inv(m);
  // column-major [a c; b d]: inverse is adj/det
  double const x[4] = {double(e[3]) / det, -double(e[1]) / det, -double(e[2]) / det, double(e[0]) / det};
  for (int k = 0; k < 4; ++k) {
    MC_CHECK(std::abs(i(k) - x[k]) <= tol<T> * std::abs(x[k]), "inverse", "(%d %d; %d %d) element %d is %g, expected %g", e[0], e[2],
             e[1], e[3], k, double(i(k)), x[k]);
  }
  mc::transition();
  mc::state(idx);
  mc::trace();
}

template <class T>
void
rotationCase(u64 idx)
{
  int const n = 96;
  double const ang = (static_cast<double>(idx) - n) * 6.283185307179586 / n;
  auto const m = um2::makeRotationMatrix<T>(static_cast<T>(ang));
  double const t = static_cast<double>(static_cast<T>(ang));
  double const x[4] = {std::cos(t), std::sin(t), -std::sin(t), std::cos(t)};
  for (int k = 0; k < 4; ++k) {
    MC_CHECK(std::abs(m(k) - x[k]) <= 10 * tol<T>, "rotation", "angle %g element %d is %g, expected %g", ang, k, double(m(k)), x[k]);
  }
  // a rotation turns the unit vectors the positive way and keeps lengths
  Vec<2, T> const p(static_cast<T>(3), static_cast<T>(4));
  auto const r = m * p;
  MC_CHECK(std::abs(r.norm() - 5) <= 50 * tol<T>, "rotation-length", "angle %g", ang);
  MC_CHECK(std::abs(p.cross(r) - 25 * std::sin(t)) <= 500 * tol<T>, "rotation-sense", "angle %g", ang);
  mc::transition(3);
  mc::state(idx);
  mc::trace();
}

//------------------------------------------------------------------------------
// Matrix
//------------------------------------------------------------------------------
template <class T>
struct Cx {
  static constexpr bool is = false;
  using R = T;
};
template <class R_>
struct Cx<std::complex<R_>> {
  static constexpr bool is = true;
  using R = R_;
};
template <class T>
std::string
name()
{
  return std::string(Cx<T>::is ? "complex-" : "") + tname<typename Cx<T>::R>;
}
template <class T>
T
val(int re, int im)
{
  if constexpr (Cx<T>::is) {
    return T(static_cast<typename Cx<T>::R>(re), static_cast<typename Cx<T>::R>(im));
  } else {
    return static_cast<T>(re);
  }
}
using C128 = std::complex<double>;
template <class T>
C128
wide(T x)
{
  if constexpr (Cx<T>::is) {
    return {double(x.real()), double(x.imag())};
  } else {
    return {double(x), 0};
  }
}

// the k-th filling of an r x c matrix
template <class T>
Matrix<T>
fillMatrix(int r, int c, int k)
{
  Matrix<T> m(r, c);
  for (int j = 0; j < c; ++j) {
    for (int i = 0; i < r; ++i) {
      int const p = j * r + i;
      int re = 0;
      int im = 0;
      if (k == 0) {
        re = p % 23 + 1;
        im = (p * 5) % 7 - 3;
      } else if (k == 1) {
        re = (p * 7 + 3) % 11 - 5;
        im = (p * 3 + 1) % 5 - 2;
      } else if (k == 2) {
        re = i == j ? 2 : 0;
        im = i == j ? 1 : 0;
      } else {
        int const u = k - 3; // unit matrix
        re = u == p ? 3 : 0;
        im = u == p ? -2 : 0;
      }
      m(i, j) = val<T>(re, im);
    }
  }
  return m;
}

template <class T>
bool
near(T x, C128 e, double scale)
{
  return std::abs(wide(x) - e) <= scale * (std::is_same_v<typename Cx<T>::R, float> ? 2e-6 : 1e-14);
}

template <class T>
void
shapeCase(int m, int k, int n, int fa, int fb)
{
  auto const a = fillMatrix<T>(m, k, fa);
  auto const b = fillMatrix<T>(k, n, fb);
  MC_CHECK(a.rows() == m && a.cols() == k && a.end() - a.begin() == m * k && a.asVector().size() == m * k, "shape",
           "%dx%d reports %dx%d", m, k, a.rows(), a.cols());
  for (int j = 0; j < k; ++j) {
    for (int i = 0; i < m; ++i) {
      MC_CHECK(&a(i, j) == a.data() + j * m + i && a(j * m + i) == a(i, j), "element-access", "%dx%d (%d,%d)", m, k, i, j);
    }
  }
  Matrix<T> e(m, n);
  std::vector<C128> ex(size_t(m) * size_t(n));
  double scale = 1;
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < n; ++j) {
      C128 s = 0;
      for (int l = 0; l < k; ++l) {
        s += wide(a(i, l)) * wide(b(l, j));
      }
      ex[size_t(j * m + i)] = s;
      scale = std::max(scale, std::abs(s));
    }
  }
  scale *= k;
  auto const cmp = [&](Matrix<T> const & c, char const * what) {
    MC_REQUIRE(c.rows() == m && c.cols() == n, what, "%dx%d times %dx%d has shape %dx%d", m, k, k, n, c.rows(), c.cols());
    for (int j = 0; j < n; ++j) {
      for (int i = 0; i < m; ++i) {
        MC_REQUIRE(near(c(i, j), ex[size_t(j * m + i)], scale), what, "%dx%d times %dx%d (%d,%d): element (%d,%d) is %g%+gi, expected %g%+gi", m,
                   k, k, n, fa, fb, i, j, wide(c(i, j)).real(), wide(c(i, j)).imag(), ex[size_t(j * m + i)].real(),
                   ex[size_t(j * m + i)].imag());
      }
    }
  };
  cmp(a * b, "matrix-product");
  {
    Matrix<T> c(m, n, val<T>(7, 3));
    um2::matmul(c, a, b);
    cmp(c, "matmul-into");
    um2::matmul(c, a, b); // again into the same storage
    cmp(c, "matmul-into-twice");
  }
  for (int j = 0; j < n; ++j) {
    Vector<T> x(k);
    for (int i = 0; i < k; ++i) {
      x[i] = b(i, j);
    }
    Vector<T> const y = a * x;
    MC_REQUIRE(y.size() == m, "matrix-vector", "%dx%d times %d has length %d", m, k, k, y.size());
    for (int i = 0; i < m; ++i) {
      MC_REQUIRE(near(y[i], ex[size_t(j * m + i)], scale), "matrix-vector", "%dx%d (%d,%d): element %d", m, k, fa, fb, i);
    }
    if (n > 6) {
      break;
    }
  }
  mc::transition(static_cast<u64>(3 + n));
  // element-wise operations on equal shapes
  {
    auto const d = fillMatrix<T>(m, k, (fa + 1) % 3);
    auto const s = a + d;
    auto const f = a - d;
    auto s2 = a;
    s2 += d;
    auto f2 = a;
    f2 -= d;
    auto t = a;
    t *= val<T>(3, 1);
    auto self = a;
    self += self;
    Matrix<T> z = a;
    z.zero();
    for (int i = 0; i < m * k; ++i) {
      bool const ok = s(i) == a(i) + d(i) && f(i) == a(i) - d(i) && s2(i) == s(i) && f2(i) == f(i) && self(i) == a(i) + a(i);
      MC_REQUIRE(ok, "matrix-sum", "%dx%d element %d", m, k, i);
      MC_REQUIRE(near(t(i), wide(a(i)) * wide(val<T>(3, 1)), 1000), "matrix-scale", "%dx%d element %d", m, k, i);
      MC_REQUIRE(z(i) == val<T>(0, 0), "matrix-zero", "%dx%d element %d", m, k, i);
    }
    mc::transition(6);
  }
  if (m == k) {
    auto t = a;
    t.transpose();
    for (int i = 0; i < m; ++i) {
      for (int j = 0; j < m; ++j) {
        C128 const w = wide(a(j, i));
        MC_REQUIRE(wide(t(i, j)) == (Cx<T>::is ? std::conj(w) : w), "transpose", "%dx%d (%d,%d)", m, m, i, j);
      }
    }
    auto const id = Matrix<T>::identity(m);
    MC_CHECK(id.rows() == m && id.cols() == m, "identity", "%d", m);
    for (int i = 0; i < m; ++i) {
      for (int j = 0; j < m; ++j) {
        MC_CHECK(id(i, j) == val<T>(i == j ? 1 : 0, 0), "identity", "%d (%d,%d)", m, i, j);
      }
    }
    mc::transition(2);
  }
  mc::state(mc::hash(mc::hash(u64(m * 10000 + k * 100 + n), u64(fa)), u64(fb)));
  mc::trace();
}

template <class T>
void
matrixSpaces()
{
  // matrices that were never given a size, in memory that held something else
  mc::space("matrix-empty-" + name<T>(), 256, [](u64 i) {
    alignas(Matrix<T>) unsigned char mem[sizeof(Matrix<T>)];
    std::memset(mem, int(i), sizeof(mem));
    auto * const m = new (mem) Matrix<T>;
    MC_CHECK(m->rows() == 0 && m->cols() == 0, "matrix-empty", "%d x %d", int(m->rows()), int(m->cols()));
    m->~Matrix<T>();
    mc::state(mc::hash(i, 77));
    mc::transition(1);
    mc::trace();
  });
  int const top = static_cast<int>(mc::pick(6, 8));
  mc::space("matrix-shapes-" + name<T>(), u64(top * top * top) * 3 * 3, [top](u64 idx) {
    mc::Dec q(idx);
    int const m = 1 + q.geti(top);
    int const k = 1 + q.geti(top);
    int const n = 1 + q.geti(top);
    int const fa = q.geti(3);
    int const fb = q.geti(3);
    shapeCase<T>(m, k, n, fa, fb);
    if (idx > 300) {
      mc::sample(mc::fmt("%dx%d times %dx%d", m, k, k, n));
    }
  });
  // products of all pairs of unit matrices, shapes up to 3
  mc::space("matrix-units-" + name<T>(), 27 * 12 * 12, [](u64 idx) {
    mc::Dec q(idx);
    int const m = 1 + q.geti(3);
    int const k = 1 + q.geti(3);
    int const n = 1 + q.geti(3);
    shapeCase<T>(m, k, n, q.geti(12), q.geti(12));
  });
  static int const big[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65};
  mc::space("matrix-large-" + name<T>(), 12 * 12 * 12, [](u64 idx) {
    mc::Dec q(idx);
    shapeCase<T>(big[q.get(12)], big[q.get(12)], big[q.get(12)], 1, 0);
  });
}

#if UM2_USE_BLAS_LAPACK
template <class T>
void
solveCheck(Matrix<T> const & a, Matrix<T> const & x, double cond, std::string const & what)
{
  int const n = a.rows();
  int const r = x.cols();
  Matrix<T> b(n, r);
  for (int j = 0; j < r; ++j) {
    for (int i = 0; i < n; ++i) {
      T s = val<T>(0, 0);
      for (int k = 0; k < n; ++k) {
        s += a(i, k) * x(k, j);
      }
      b(i, j) = s;
    }
  }
  double const t = (std::is_same_v<typename Cx<T>::R, float> ? 1e-6 : 1e-15) * cond;
  auto const cmp = [&](Matrix<T> const & y, char const * label) {
    MC_REQUIRE(y.rows() == n && y.cols() == r, label, "%s: shape %dx%d", what.c_str(), y.rows(), y.cols());
    double xs = 1;
    for (int i = 0; i < n * r; ++i) {
      xs = std::max(xs, std::abs(wide(x(i))));
    }
    for (int i = 0; i < n * r; ++i) {
      MC_REQUIRE(std::abs(wide(y(i)) - wide(x(i))) <= t * xs, label, "%s: element %d is %.17g%+.17gi, expected %g%+gi", what.c_str(), i,
                 wide(y(i)).real(), wide(y(i)).imag(), wide(x(i)).real(), wide(x(i)).imag());
    }
  };
  Matrix<T> const a0 = a;
  Matrix<T> const b0 = b;
  cmp(um2::linearSolve(a, b), "solve");
  bool kept = true;
  for (int i = 0; i < n * n; ++i) {
    kept = kept && a(i) == a0(i);
  }
  for (int i = 0; i < n * r; ++i) {
    kept = kept && b(i) == b0(i);
  }
  MC_CHECK(kept, "solve-inputs", "%s: inputs changed", what.c_str());
  Matrix<T> a1 = a;
  Matrix<T> b1 = b;
  Vector<Int> piv(n);
  um2::linearSolve(a1, b1, piv);
  cmp(b1, "solve-in-place");
  mc::transition(2);
}

// Spectrum decided by its power sums: sum of lambda^k = trace of A^k, k = 1..n
template <class T>
void
eigCheck(Matrix<T> const & a, std::string const & what)
{
  int const n = a.rows();
  Matrix<T> const a0 = a;
  auto const w = um2::eigvals(a);
  MC_REQUIRE(w.size() == n, "spectrum-size", "%s: %d eigenvalues", what.c_str(), w.size());
  for (int i = 0; i < n * n; ++i) {
    MC_REQUIRE(a(i) == a0(i), "spectrum-input", "%s: input changed", what.c_str());
  }
  std::vector<C128> p(size_t(n * n));
  for (int i = 0; i < n * n; ++i) {
    p[size_t(i)] = wide(a(i));
  }
  std::vector<C128> const one = p;
  double nrm = 0;
  for (auto const & x : p) {
    nrm += std::norm(x);
  }
  nrm = std::max(1.0, std::sqrt(nrm));
  std::vector<C128> lam;
  for (int i = 0; i < n; ++i) {
    lam.push_back(wide(w[i]));
  }
  std::vector<C128> pw = lam;
  double sc = nrm;
  double const t = std::is_same_v<typename Cx<T>::R, float> ? 1e-5 : 1e-13;
  for (int k = 1; k <= n; ++k) {
    C128 tr = 0;
    C128 s = 0;
    for (int i = 0; i < n; ++i) {
      tr += p[size_t(i * n + i)];
      s += pw[size_t(i)];
    }
    MC_REQUIRE(std::abs(tr - s) <= t * sc * n * k, "spectrum", "%s: sum of %d-th powers of the eigenvalues is %g%+gi, expected %g%+gi",
               what.c_str(), k, s.real(), s.imag(), tr.real(), tr.imag());
    // next power
    std::vector<C128> nx(size_t(n * n));
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j) {
        C128 v = 0;
        for (int l = 0; l < n; ++l) {
          v += p[size_t(l * n + i)] * one[size_t(j * n + l)];
        }
        nx[size_t(j * n + i)] = v;
      }
    }
    p = nx;
    for (int i = 0; i < n; ++i) {
      pw[size_t(i)] *= lam[size_t(i)];
    }
    sc *= nrm;
  }
  mc::transition(static_cast<u64>(n));
}

template <class T>
void
lapackSpaces()
{
  // all matrices of order 2 and 3 over a small range
  auto const small = [](int n, std::vector<int> vals, u64 idx) {
    mc::Dec q(idx);
    Matrix<T> a(n, n);
    for (int i = 0; i < n * n; ++i) {
      int const v = vals[q.get(vals.size())];
      int const im = Cx<T>::is ? vals[q.get(vals.size())] : 0;
      a(i) = val<T>(v, im);
    }
    C128 det;
    auto const A = [&](int i, int j) { return wide(a(i, j)); };
    if (n == 2) {
      det = A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0);
    } else {
      det = A(0, 0) * (A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1)) - A(0, 1) * (A(1, 0) * A(2, 2) - A(1, 2) * A(2, 0)) +
            A(0, 2) * (A(1, 0) * A(2, 1) - A(1, 1) * A(2, 0));
    }
    std::string const what = mc::fmt("order %d case %llu", n, static_cast<unsigned long long>(idx));
    eigCheck<T>(a, what);
    if (std::abs(det) > 0.5) {
      int const r = 1 + static_cast<int>(idx % 3);
      Matrix<T> x(n, r);
      for (int i = 0; i < n * r; ++i) {
        x(i) = val<T>(i * 3 % 7 - 2, 2 - i % 3);
      }
      solveCheck<T>(a, x, 20000, what);
    }
    mc::state(idx);
    mc::trace();
  };
  std::vector<int> const v2 = Cx<T>::is ? std::vector<int>{-1, 0, 2} : std::vector<int>{-4, -3, -2, -1, 0, 1, 2, 3, 5};
  mc::space("order2-" + name<T>(), mc::ipow(v2.size(), Cx<T>::is ? 8 : 4), [=](u64 i) { small(2, v2, i); });
  if (!Cx<T>::is) {
    std::vector<int> const v3 = {-1, 0, 2};
    mc::space("order3-" + name<T>(), mc::ipow(v3.size(), 9), [=](u64 i) { small(3, v3, i); });
  }
  // orders 1..24: diagonal + cyclic structures with a row permutation, several right-hand sides
  mc::space("orders-" + name<T>(), 24 * 4 * 3, [](u64 idx) {
    mc::Dec q(idx);
    int const n = 1 + q.geti(24);
    int const kind = q.geti(4);
    int const r = 1 + 2 * q.geti(3);
    Matrix<T> a(n, n, val<T>(0, 0));
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j) {
        int const pi = kind == 1 ? (i + 1) % n : (kind == 2 ? n - 1 - i : i);
        int const off = (i * 3 + j * 5) % 3 - 1;
        a(pi, j) = i == j ? val<T>(3 * n + i, 1) : (kind == 3 && j < i ? val<T>(0, 0) : val<T>(off, (i + j) % 2));
      }
    }
    Matrix<T> x(n, r);
    for (int i = 0; i < n * r; ++i) {
      x(i) = val<T>(i * 3 % 7 - 2, 2 - i % 3);
    }
    std::string const what = mc::fmt("order %d kind %d rhs %d", n, kind, r);
    solveCheck<T>(a, x, 1000.0 * n, what);
    if (n <= 10) {
      eigCheck<T>(a, what);
    }
    if (kind == 3) { // triangular: the spectrum is the diagonal
      auto const w = um2::eigvals(a);
      std::vector<bool> used(size_t(n), false);
      for (int i = 0; i < n; ++i) {
        bool found = false;
        for (int j = 0; j < n && !found; ++j) {
          if (!used[size_t(j)] && std::abs(wide(w[j]) - wide(a(i, i))) < (std::is_same_v<typename Cx<T>::R, float> ? 1e-2 : 1e-7)) {
            used[size_t(j)] = true;
            found = true;
          }
        }
        MC_CHECK(found, "triangular-spectrum", "%s: diagonal element %d missing", what.c_str(), i);
      }
    }
    mc::state(idx);
    mc::trace();
  });
  // every permutation matrix of order 5 (needs pivoting, known cyclic spectrum)
  mc::space("permutations-" + name<T>(), 120, [](u64 idx) {
    std::vector<int> pool = {0, 1, 2, 3, 4};
    Matrix<T> a(5, 5, val<T>(0, 0));
    u64 k = idx;
    for (int i = 0; i < 5; ++i) {
      size_t const c = k % pool.size();
      k /= pool.size();
      a(i, pool[c]) = val<T>(2, 0);
      pool.erase(pool.begin() + static_cast<long>(c));
    }
    Matrix<T> x(5, 2);
    for (int i = 0; i < 10; ++i) {
      x(i) = val<T>(i - 3, i);
    }
    std::string const what = mc::fmt("permutation %llu", static_cast<unsigned long long>(idx));
    solveCheck<T>(a, x, 100, what);
    eigCheck<T>(a, what);
    mc::state(idx);
    mc::trace();
  });
}
#endif

template <int M, int N, class T>
void
matRow()
{
  matSpace<M, N, 1, T>();
  matSpace<M, N, 2, T>();
  matSpace<M, N, 3, T>();
  if constexpr (N < 4 && M < 4) {
    matSpace<M, N, 4, T>();
  }
}

void
setup()
{
  vecSpace<1, int>({-5, -2, -1, 0, 1, 2, 3, 7});
  vecSpace<2, int>({-3, -2, -1, 0, 1, 2, 4});
  vecSpace<3, int>({-2, -1, 0, 1, 3});
  vecSpace<4, int>({-1, 0, 2});
  vecSpace<5, int>({-1, 0, 2});
  vecSpace<2, unsigned>({0, 1, 2, 5});
  vecSpace<1, float>({-5, -2, -1, 0, 1, 2, 3, 7});
  vecSpace<2, float>({-3, -2, -1, 0, 1, 2, 4});
  vecSpace<3, float>({-2, -1, 0, 1, 3});
  vecSpace<4, float>({-1, 0, 2});
  vecSpace<5, float>({-1, 0, 2});
  vecSpace<1, double>({-5, -2, -1, 0, 1, 2, 3, 7});
  vecSpace<2, double>({-3, -2, -1, 0, 1, 2, 4});
  vecSpace<3, double>({-2, -1, 0, 1, 3});
  vecSpace<4, double>({-1, 0, 2});
  vecSpace<5, double>({-1, 0, 2});
  wideSpace<8, int>();
  wideSpace<8, float>();
  wideSpace<8, double>();
  wideSpace<7, double>();
  mc::space("cancellation", mc::ipow(12, 4), cancelCase);
  matRow<1, 1, double>();
  matRow<1, 2, double>();
  matRow<1, 3, double>();
  matRow<2, 1, double>();
  matRow<2, 2, double>();
  matRow<2, 3, double>();
  matRow<3, 1, double>();
  matRow<3, 2, double>();
  matRow<3, 3, double>();
  matRow<2, 4, double>();
  matRow<4, 2, double>();
  matRow<4, 4, double>();
  matRow<2, 2, float>();
  matRow<2, 3, float>();
  matRow<3, 2, float>();
  matRow<3, 3, float>();
  matRow<2, 2, int>();
  matRow<3, 2, int>();
  mc::space("inverse-double", mc::ipow(17, 4), [](u64 i) { invCase<double>(i, 8); });
  mc::space("inverse-float", mc::ipow(17, 4), [](u64 i) { invCase<float>(i, 8); });
  mc::space("rotation-double", 193, rotationCase<double>);
  mc::space("rotation-float", 193, rotationCase<float>);
  matrixSpaces<float>();
  matrixSpaces<double>();
  matrixSpaces<std::complex<float>>();
  matrixSpaces<std::complex<double>>();
#if UM2_USE_BLAS_LAPACK
  lapackSpaces<float>();
  lapackSpaces<double>();
  lapackSpaces<std::complex<float>>();
  lapackSpaces<std::complex<double>>();
#else
  matrixSpaces<int>();
#endif
}

} // namespace

MC_MAIN(setup)
