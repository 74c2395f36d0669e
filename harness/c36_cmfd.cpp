// C36: the spectral radius reported for CMFD is that of the documented iteration matrix.
//
// The transport matrices are polynomials of the twisted shift S (S x_i = x_{i+1}, the last row carries the
// phase of the coarse cell), so the reference works with the eigenvalues of S in extended precision and never
// assembles or inverts the matrices of the implementation; the rank-one coarse correction is then added and
// the spectrum found from the characteristic polynomial.
#include "mc.hpp"

#include <um2/common/logger.hpp>
#include <um2/physics/cmfd.hpp>

#include <complex>

#if !UM2_HAS_CMFD
#  error "CMFD is not enabled in this configuration"
#endif

namespace
{
using mc::u64;
using LD = long double;
using C = std::complex<LD>;

// Gauss-Legendre abscissae and weights by Newton's method
void
legendre(int n, std::vector<LD> & mu, std::vector<LD> & w)
{
  LD const pi = acosl(-1.0L);
  for (int i = 0; i < n; ++i) {
    LD x = cosl(pi * (LD(i) + 0.75L) / (LD(n) + 0.5L));
    LD d = 0;
    for (int it = 0; it < 100; ++it) {
      LD p0 = 1;
      LD p1 = x;
      for (int k = 2; k <= n; ++k) {
        LD const p2 = ((2 * LD(k) - 1) * x * p1 - (LD(k) - 1) * p0) / LD(k);
        p0 = p1;
        p1 = p2;
      }
      d = LD(n) * (x * p1 - p0) / (x * x - 1);
      LD const dx = p1 / d;
      x -= dx;
      if (fabsl(dx) < 1e-18L) {
        break;
      }
    }
    mu.push_back(x);
    w.push_back(2 / ((1 - x * x) * d * d));
  }
}

// Roots of the characteristic polynomial of a small matrix
std::vector<C>
spectrum(std::vector<C> const & a, size_t n)
{
  // Faddeev-LeVerrier: c_n = 1, M_k = A M_{k-1} + c_{n-k+1} I, c_{n-k} = -tr(A M_k) / k
  std::vector<C> c(n + 1, C(0));
  c[n] = 1;
  std::vector<C> m(n * n, C(0));
  for (size_t k = 1; k <= n; ++k) {
    std::vector<C> am(n * n, C(0));
    for (size_t i = 0; i < n; ++i) {
      for (size_t j = 0; j < n; ++j) {
        for (size_t l = 0; l < n; ++l) {
          am[i * n + j] += a[i * n + l] * m[l * n + j];
        }
      }
    }
    for (size_t i = 0; i < n; ++i) {
      am[i * n + i] += c[n - k + 1];
    }
    m = am;
    C tr = 0;
    for (size_t i = 0; i < n; ++i) {
      for (size_t l = 0; l < n; ++l) {
        tr += a[i * n + l] * m[l * n + i];
      }
    }
    c[n - k] = -tr / LD(k);
  }
  std::vector<C> z;
  for (size_t i = 0; i < n; ++i) {
    z.push_back(std::pow(C(0.4L, 0.9L), LD(i)) * 0.7L);
  }
  for (int it = 0; it < 2000; ++it) {
    LD change = 0;
    for (size_t i = 0; i < n; ++i) {
      C p = 1;
      C q = 1;
      for (size_t k = n; k-- > 0;) {
        p = p * z[i] + c[k];
      }
      for (size_t j = 0; j < n; ++j) {
        if (j != i) {
          q *= z[i] - z[j];
        }
      }
      if (std::abs(q) == 0) {
        z[i] += C(1e-9L, 1e-9L);
        change = 1;
        continue;
      }
      C const d = p / q;
      z[i] -= d;
      change = std::max(change, std::abs(d));
    }
    if (change < 1e-17L) {
      break;
    }
  }
  return z;
}

struct Case {
  LD w;
  int p;
  LD st;
  LD c;
  LD eta;
};

// All eigenvalues over the sampled frequencies
std::vector<C>
reference(Case const & q, int frequencies)
{
  static std::vector<LD> mu;
  static std::vector<LD> wt;
  if (mu.empty()) {
    legendre(32, mu, wt);
  }
  LD const pi = acosl(-1.0L);
  LD const h = q.w / LD(q.p);
  LD const delta = q.st * q.w;
  LD const diff = 1 / (3 * delta) + q.eta;
  size_t const p = size_t(q.p);
  std::vector<C> all;
  for (int ia = 0; ia < frequencies; ++ia) {
    LD const phase = pi * LD(ia) / LD(frequencies - 1); // alpha * delta
    // Eigenvalues of the transport sweep
    std::vector<C> s(p);
    std::vector<C> t(p, C(0));
    for (size_t k = 0; k < p; ++k) {
      s[k] = std::polar(1.0L, (phase + 2 * pi * LD(k)) / LD(p));
      for (size_t n = 0; n < mu.size(); ++n) {
        LD const x = h / (2 * mu[n]);
        LD const beta = 1 / tanhl(x) - 1 / x;
        C const a = (1 - beta) / 2 + (1 + beta) / 2 * s[k];
        C const b = a + mu[n] / (q.st * h) * (s[k] - 1.0L);
        t[k] += q.c / 2 * wt[n] * a / b;
      }
    }
    // In the orthonormal basis x_k(j) = s_k^j / sqrt(p): U diagonal, J = p y y^H with y the components of ones
    std::vector<C> y(p, C(0));
    for (size_t k = 0; k < p; ++k) {
      for (size_t j = 0; j < p; ++j) {
        y[k] += std::conj(std::pow(s[k], LD(j))) / LD(p);
      }
    }
    LD const f = q.c * q.st * h / (2 * diff * (1 - cosl(phase)) + (1 - q.c) * delta);
    std::vector<C> om(p * p, C(0));
    for (size_t i = 0; i < p; ++i) {
      for (size_t k = 0; k < p; ++k) {
        om[i * p + k] = f * LD(p) * y[i] * std::conj(y[k]) * (t[k] - 1.0L);
      }
      om[i * p + i] += t[i];
    }
    auto const z = spectrum(om, p);
    all.insert(all.end(), z.begin(), z.end());
  }
  return all;
}

std::string
what(Case const & q)
{
  return mc::fmt("width %Lg, %d fine cells, total %Lg, ratio %Lg, modifier %Lg", q.w, q.p, q.st, q.c, q.eta);
}

void
judge(Case const & q, um2::ComplexF r, char const * how)
{
  auto const all = reference(q, 256);
  LD best = 0;
  LD near = 1e9L;
  C const got(LD(r.real()), LD(r.imag()));
  for (auto const & z : all) {
    best = std::max(best, std::abs(z));
    near = std::min(near, std::abs(z - got));
  }
  // A cluster of p eigenvalues is only determined to a root of the rounding error; the largest is simple
  LD const tol = 1e-7L;
  MC_CHECK(fabsl(std::abs(got) - best) < tol, "radius", "%s (%s): %.12Lg expected %.12Lg", what(q).c_str(), how, std::abs(got), best);
  MC_CHECK(near < 1e-6L, "eigenvalue", "%s (%s): (%.9Lg, %.9Lg) is %Lg away from the spectrum", what(q).c_str(), how, got.real(), got.imag(), near);
  mc::state(mc::hash(mc::hash(u64(q.p), u64(std::abs(got) * 1e9L)), u64(q.w * 1000)));
}

LD const W[] = {0.2L, 0.5L, 1, 2, 5, 12};
LD const ST[] = {0.05L, 0.4L, 0.8L, 1, 2.65038L, 7};
LD const RATIO[] = {0, 0.1L, 0.5L, 0.8L, 0.95L, 0.999L};
LD const ETA[] = {0, 0.05L, 0.25L};

um2::CMFDCellParams
params(Case const & q)
{
  return {Float(q.w), Int(q.p), Float(q.st), Float(q.c), 1, Float(q.eta)};
}

Case
pickCase(u64 i, int nw, int np, int ns, int nc, int ne)
{
  mc::Dec d(i);
  Case q;
  q.w = W[d.get(u64(nw))];
  q.p = 1 + d.geti(np);
  q.st = ST[d.get(u64(ns))];
  q.c = RATIO[d.get(u64(nc))];
  q.eta = ETA[d.get(u64(ne))];
  return q;
}

void
setup()
{
  um2::logger::exit_on_error = false;
  int const np = int(mc::pick(6, 8));
  mc::space("radius", u64(6 * np * 6 * 6 * 3), [np](u64 i) {
    Case const q = pickCase(i, 6, np, 6, 6, 3);
    auto const prm = params(q);
    um2::ComplexF const volatile_free = um2::spectral_radius(prm);
    mc::transition();
    judge(q, volatile_free, "own workspace");
    mc::trace();
  });
  // The same workspace for two parameter sets in turn, starting from arbitrary contents
  mc::space("workspace", u64(np * 12 * 12), [](u64 i) {
    mc::Dec d(i);
    int const a = d.geti(12);
    int const b = d.geti(12);
    int const p = 1 + int(d.v);
    auto const of = [p](int k) {
      Case q;
      q.w = W[1 + k % 3];
      q.st = ST[1 + (k / 3) % 3];
      q.c = RATIO[2 + (k / 4) % 3];
      q.eta = ETA[k % 2 * 2];
      q.p = p;
      return q;
    };
    um2::ComplexF const junk(7, -3);
    um2::Matrix<um2::ComplexF> A(p, p, junk);
    um2::Matrix<um2::ComplexF> B(p, p, junk);
    um2::Matrix<um2::ComplexF> U(p, p, junk);
    um2::Matrix<um2::ComplexF> O(p, p, junk);
    um2::Matrix<um2::ComplexF> J(p, p, junk);
    um2::Matrix<um2::ComplexF> I(p, p, junk);
    um2::Vector<Int> piv(p, 99);
    for (int k : {a, b}) {
      Case const q = of(k);
      auto const r = um2::spectral_radius(params(q), A, B, U, O, J, I, piv);
      auto const e = um2::spectral_radius(params(q));
      mc::transition();
      MC_CHECK(std::abs(r - e) < 1e-9, "workspace", "%s after another: (%g, %g) expected (%g, %g)", what(q).c_str(), double(r.real()),
               double(r.imag()), double(e.real()), double(e.imag()));
    }
    mc::trace();
  });
}
} // namespace
MC_MAIN(setup)
