// C42: colours, pairs, kinds of elements, raw sequences and scalar functions against their definitions.
#include "mc.hpp"

#include <um2/common/cast_if_not.hpp>
#include <um2/common/color.hpp>
#include <um2/config.hpp>
#include <um2/mesh/element_types.hpp>
#include <um2/stdlib/cstring/memcmp.hpp>
#include <um2/stdlib/cstring/strlen.hpp>
#include <um2/stdlib/math/abs.hpp>
#include <um2/stdlib/math/copysign.hpp>
#include <um2/stdlib/math/exponential_functions.hpp>
#include <um2/stdlib/math/fma.hpp>
#include <um2/stdlib/math/hyperbolic_functions.hpp>
#include <um2/stdlib/math/inverse_hyperbolic_functions.hpp>
#include <um2/stdlib/math/inverse_trigonometric_functions.hpp>
#include <um2/stdlib/math/logarithms.hpp>
#include <um2/stdlib/math/roots.hpp>
#include <um2/stdlib/math/rounding_functions.hpp>
#include <um2/stdlib/math/trigonometric_functions.hpp>
#include <um2/stdlib/numbers.hpp>
#include <um2/stdlib/utility/is_pointer_in_range.hpp>
#include <um2/stdlib/utility/pair.hpp>
#include <um2/stdlib/utility/swap.hpp>

#include <cmath>
#include <cstring>
#include <limits>
#include <utility>

namespace
{
using mc::u64;

//------------------------------------------------------------------------------
// Colours
//------------------------------------------------------------------------------

struct Named {
  char const * name;
  um2::Color color;
  int rgb[3];
};

// The colour names of SVG 1.1
Named const NAMED[] = {
#include "c42_colors.inc"
};

void
wantColor(um2::Color const & c, int r, int g, int b, int a, char const * w)
{
  MC_CHECK(int(c.r()) == r && int(c.g()) == g && int(c.b()) == b && int(c.a()) == a, "color", "%s: (%d, %d, %d, %d) expected (%d, %d, %d, %d)", w, c.r(),
           c.g(), c.b(), c.a(), r, g, b, a);
}

void
namedCase(u64 v)
{
  Named const & n = NAMED[v];
  wantColor(n.color, n.rgb[0], n.rgb[1], n.rgb[2], 255, n.name);
  MC_CHECK(n.color == um2::Color(n.rgb[0], n.rgb[1], n.rgb[2]), "named-equal", "%s", n.name);
  for (auto const & o : NAMED) {
    bool const same = n.rgb[0] == o.rgb[0] && n.rgb[1] == o.rgb[1] && n.rgb[2] == o.rgb[2];
    MC_CHECK((n.color == o.color) == same && (n.color != o.color) == !same, "named-compare", "%s and %s", n.name, o.name);
    mc::transition();
  }
  mc::state(mc::hash(1, v));
}

template <class T>
void
fractions(int const (&c)[4], char const * w)
{
  T const f[4] = {T(c[0]) / T(255), T(c[1]) / T(255), T(c[2]) / T(255), T(c[3]) / T(255)};
  wantColor(um2::Color(f[0], f[1], f[2], f[3]), c[0], c[1], c[2], c[3], w);
  wantColor(um2::Color(f[0], f[1], f[2]), c[0], c[1], c[2], 255, w);
}

// Every value of one component with every other component from a menu
void
componentCase(u64 v)
{
  static int const MENU[5] = {0, 1, 127, 128, 255};
  mc::Dec d(v);
  int const pos = d.geti(4);
  int c[4];
  for (int i = 0; i < 4; ++i) {
    c[i] = i == pos ? 0 : MENU[d.geti(5)];
  }
  wantColor(um2::Color(), 0, 0, 0, 255, "default");
  for (int x = 0; x < 256; ++x) {
    c[pos] = x;
    wantColor(um2::Color(c[0], c[1], c[2], c[3]), c[0], c[1], c[2], c[3], "int");
    wantColor(um2::Color(c[0], c[1], c[2]), c[0], c[1], c[2], 255, "int, opaque");
    wantColor(um2::Color(uint8_t(c[0]), uint8_t(c[1]), uint8_t(c[2]), uint8_t(c[3])), c[0], c[1], c[2], c[3], "byte");
    wantColor(um2::Color(int64_t(c[0]), int64_t(c[1]), int64_t(c[2]), int64_t(c[3])), c[0], c[1], c[2], c[3], "long");
    fractions<double>(c, "double");
    fractions<float>(c, "float");
    // equality against the same colour with one component changed
    um2::Color const here(c[0], c[1], c[2], c[3]);
    for (int q = 0; q < 4; ++q) {
      for (int const delta : {0, 1, 128, 255}) {
        int o[4] = {c[0], c[1], c[2], c[3]};
        o[q] = (o[q] + delta) % 256;
        um2::Color const there(o[0], o[1], o[2], o[3]);
        bool const same = delta == 0;
        MC_CHECK((here == there) == same && (there == here) == same && (here != there) == !same, "equal", "component %d by %d", q, delta);
      }
    }
    mc::transition();
  }
  mc::state(mc::hash(2, v));
}

//------------------------------------------------------------------------------
// Pairs
//------------------------------------------------------------------------------

template <class A, class B>
void
pairOps(A a0, B b0, A a1, B b1, char const * w)
{
  um2::Pair<A, B> const p(a0, b0);
  um2::Pair<A, B> const q(a1, b1);
  std::pair<A, B> const sp(a0, b0);
  std::pair<A, B> const sq(a1, b1);
  MC_CHECK((p == q) == (sp == sq) && (p != q) == (sp != sq) && (p < q) == (sp < sq) && (p > q) == (sp > sq) && (p <= q) == (sp <= sq) &&
               (p >= q) == (sp >= sq),
           "pair-compare", "%s", w);
  um2::Pair<A, B> r(p);
  MC_CHECK(r.first == a0 && r.second == b0, "pair-copy", "%s", w);
  r = q;
  MC_CHECK(r == q, "pair-assign", "%s", w);
  um2::Pair<A, B> m(um2::move(r));
  MC_CHECK(m.first == a1 && m.second == b1, "pair-move", "%s", w);
}

void
pairCase(u64 v)
{
  mc::Dec d(v);
  int const a0 = d.geti(5) - 2;
  int const b0 = d.geti(5) - 2;
  int const a1 = d.geti(5) - 2;
  int const b1 = d.geti(5) - 2;
  pairOps<int, int>(a0, b0, a1, b1, "ints");
  pairOps<double, int>(a0 / 2.0, b0, a1 / 2.0, b1, "double, int");
  pairOps<int, float>(a0, float(b0), a1, float(b1), "int, float");
  pairOps<int8_t, int64_t>(int8_t(a0), b0, int8_t(a1), b1, "byte, long");
  // swapping
  int x = a0;
  int y = b0;
  um2::swap(x, y);
  MC_CHECK(x == b0 && y == a0, "swap", "%d %d", x, y);
  double l[3] = {double(a0), double(b0), 7};
  double r[3] = {double(a1), double(b1), 9};
  um2::swap(l, r);
  MC_CHECK(l[0] == a1 && l[1] == b1 && l[2] == 9 && r[0] == a0 && r[1] == b0 && r[2] == 7, "swap-arrays", "%llu", (unsigned long long)v);
  mc::transition(4);
  mc::trace();
  mc::state(mc::hash(3, v));
}

//------------------------------------------------------------------------------
// Raw sequences
//------------------------------------------------------------------------------

void
rawCase(u64 v)
{
  static char const LETTERS[4] = {'\0', 'a', 'b', '\x7f'};
  mc::Dec d(v);
  char a[6] = {};
  char b[6] = {};
  for (int i = 0; i < 5; ++i) {
    a[i] = LETTERS[d.geti(4)];
  }
  for (int i = 0; i < 5; ++i) {
    b[i] = LETTERS[d.geti(4)];
  }
  MC_CHECK(um2::strlen(a) == std::strlen(a), "strlen", "%s", a);
  for (uint64_t n = 0; n <= 5; ++n) {
    int const got = um2::memcmp(a, b, n);
    int const want = std::memcmp(a, b, n);
    MC_CHECK((got < 0) == (want < 0) && (got > 0) == (want > 0), "memcmp", "%d expected the sign of %d", got, want);
    mc::transition();
  }
  if (v < 512) {
    mc::Dec e(v);
    int const begin = e.geti(8);
    int const end = e.geti(8);
    int const at = e.geti(8);
    MC_CHECK(um2::is_pointer_in_range(b + 0, b + 0, b + 0) == false, "range-empty", "%d", 0);
    static char buffer[8];
    MC_CHECK(um2::is_pointer_in_range(buffer + begin, buffer + end, buffer + at) == (begin <= at && at < end), "range", "%d %d %d", begin, end, at);
  }
  mc::trace();
  mc::state(mc::hash(4, v));
}

//------------------------------------------------------------------------------
// Kinds of elements
//------------------------------------------------------------------------------

struct Kind {
  um2::VTKElemType vtk;
  um2::XDMFElemType xdmf;
  int vtk_code;
  int xdmf_code;
  int vertices;
  bool straight;
  um2::MeshType mesh;
};

using VT = um2::VTKElemType;
using XT = um2::XDMFElemType;
using MT = um2::MeshType;

Kind const KINDS[] = {
    {VT::Vertex, XT::Vertex, 1, 1, 1, true, MT::Invalid},
    {VT::Line, XT::Line, 3, 2, 2, true, MT::Invalid},
    {VT::Triangle, XT::Triangle, 5, 4, 3, true, MT::Tri},
    {VT::Quad, XT::Quad, 9, 5, 4, true, MT::Quad},
    {VT::QuadraticEdge, XT::QuadraticEdge, 21, 34, 3, false, MT::Invalid},
    {VT::QuadraticTriangle, XT::QuadraticTriangle, 22, 36, 6, false, MT::QuadraticTri},
    {VT::QuadraticQuad, XT::QuadraticQuad, 23, 37, 8, false, MT::QuadraticQuad},
};

void
kindCase(u64 v)
{
  Kind const & k = KINDS[v];
  MC_CHECK(int(k.vtk) == k.vtk_code, "vtk-code", "%d", int(k.vtk));
  MC_CHECK(int(k.xdmf) == k.xdmf_code, "xdmf-code", "%d", int(k.xdmf));
  MC_CHECK(um2::verticesPerElem(k.vtk) == k.vertices, "vertices", "kind %d: %d", k.vtk_code, int(um2::verticesPerElem(k.vtk)));
  MC_CHECK(um2::vtkToXDMFElemType(k.vtk) == k.xdmf, "to-xdmf", "kind %d: %d", k.vtk_code, int(um2::vtkToXDMFElemType(k.vtk)));
  MC_CHECK(um2::xdmfToVTKElemType(int8_t(k.xdmf_code)) == k.vtk, "to-vtk", "kind %d: %d", k.vtk_code, int(um2::xdmfToVTKElemType(int8_t(k.xdmf_code))));
  if (k.vtk != VT::QuadraticEdge) { // three vertices are taken for a triangle
    MC_CHECK(um2::inferVTKElemType(k.vertices) == k.vtk, "infer", "%d vertices: %d", k.vertices, int(um2::inferVTKElemType(k.vertices)));
  }
  mc::transition(5);
  mc::state(mc::hash(5, v));
}

// The kind of a mesh with every list of up to three kinds of elements
void
meshKindCase(u64 v)
{
  mc::Dec d(v);
  int const n = 1 + d.geti(3);
  Kind const * k[3];
  for (auto & x : k) {
    x = &KINDS[d.geti(7)];
  }
  um2::Vector<VT> types(n);
  for (int i = 0; i < n; ++i) {
    types[i] = k[i]->vtk;
  }
  MT want = MT::Invalid;
  if (n == 1) {
    want = k[0]->mesh;
  } else if (n == 2) {
    auto is = [&](VT a, VT b) { return (k[0]->vtk == a && k[1]->vtk == b) || (k[0]->vtk == b && k[1]->vtk == a); };
    if (is(VT::Triangle, VT::Quad)) {
      want = MT::TriQuad;
    } else if (is(VT::QuadraticTriangle, VT::QuadraticQuad)) {
      want = MT::QuadraticTriQuad;
    }
  }
  MC_CHECK(um2::getMeshType(types) == want, "mesh", "%d kinds %d %d: %d expected %d", n, int(k[0]->vtk), int(k[1]->vtk), int(um2::getMeshType(types)), int(want));
  mc::transition();
  mc::trace();
  mc::state(mc::hash(6, v));
}

//------------------------------------------------------------------------------
// Scalar functions
//------------------------------------------------------------------------------

using L = long double;

template <class T>
void
near(T got, L want, char const * w, T x)
{
  // the nearest values of the type, up to four units in the last place
  bool ok = false;
  if (std::isnan(want)) {
    ok = std::isnan(got);
  } else if (std::isnan(got)) {
    ok = false;
  } else if (std::isinf(T(want))) {
    ok = got == T(want) || (std::isfinite(want) && std::abs(L(got)) >= L(std::numeric_limits<T>::max()) * 0.999999L);
  } else {
    L const tol = 4 * L(std::numeric_limits<T>::epsilon()) * std::abs(want) + 4 * L(std::numeric_limits<T>::denorm_min());
    ok = std::abs(L(got) - want) <= tol;
  }
  MC_CHECK(ok, w, "%s of %.17g is %.17g expected %.17Lg", w, double(x), double(got), want);
}

template <class T>
void
scalarAt(T x)
{
  near<T>(um2::sqrt(x), std::sqrt(L(x)), "sqrt", x);
  near<T>(um2::cbrt(x), std::cbrt(L(x)), "cbrt", x);
  near<T>(um2::exp(x), std::exp(L(x)), "exp", x);
  near<T>(um2::log(x), std::log(L(x)), "log", x);
  near<T>(um2::tanh(x), std::tanh(L(x)), "tanh", x);
  near<T>(um2::atanh(x), std::atanh(L(x)), "atanh", x);
  near<T>(um2::acos(x), std::acos(L(x)), "acos", x);
  near<T>(um2::asin(x), std::asin(L(x)), "asin", x);
  near<T>(um2::atan(x), std::atan(L(x)), "atan", x);
  near<T>(um2::sin(x), std::sin(L(x)), "sin", x);
  near<T>(um2::cos(x), std::cos(L(x)), "cos", x);
  near<T>(um2::abs(x), std::abs(L(x)), "abs", x);
  T const c = um2::ceil(x);
  T const f = um2::floor(x);
  near<T>(c, std::ceil(L(x)), "ceil", x);
  near<T>(f, std::floor(L(x)), "floor", x);
  if (std::isfinite(x)) {
    MC_CHECK(L(c) == std::ceil(L(x)) && L(f) == std::floor(L(x)), "rounding", "%.17g: %.17g %.17g", double(x), double(f), double(c));
  }
  // the build does not distinguish the signs of zeros
  for (T const y : {T(1), T(-1), T(1e-30), T(-1e30), x, -x}) {
    if (x == 0) {
      MC_CHECK(um2::copysign(x, y) == 0, "copysign", "%.17g %.17g", double(x), double(y));
      continue;
    }
    T const s = um2::copysign(x, y);
    MC_CHECK((std::isnan(x) && std::isnan(s)) || (std::abs(s) == std::abs(x) && std::signbit(s) == std::signbit(y)), "copysign", "%.17g %.17g: %.17g",
             double(x), double(y), double(s));
  }
}

// Every exponent and sign with every pattern of the leading bits: the upper half
// of a float, and the upper bits of a double
void
floatCase(u64 v)
{
  for (u64 low = 0; low < 256; ++low) {
    uint32_t const bits = uint32_t(v << 24U) | uint32_t(low << 16U) | (low % 3 == 0 ? 0xffffU : 0U);
    float x;
    std::memcpy(&x, &bits, sizeof x);
    scalarAt<float>(x);
    mc::transition(20);
  }
  mc::trace();
  mc::state(mc::hash(7, v));
}

void
doubleCase(u64 v)
{
  for (u64 low = 0; low < 16; ++low) {
    uint64_t const bits = uint64_t(v << 52U) | (low << 48U) | (low % 3 == 0 ? 0xffffffffffffULL : 0ULL);
    double x;
    std::memcpy(&x, &bits, sizeof x);
    scalarAt<double>(x);
    mc::transition(20);
  }
  mc::trace();
  mc::state(mc::hash(8, v));
}

// Whole and half numbers and the neighbours of both
void
smallCase(u64 v)
{
  double const h = (int(v) - 64) / 2.0;
  for (double const x : {h, std::nextafter(h, 1e9), std::nextafter(h, -1e9)}) {
    scalarAt<double>(x);
  }
  float const g = float(h);
  for (float const x : {g, std::nextafter(g, 1e9F), std::nextafter(g, -1e9F)}) {
    scalarAt<float>(x);
  }
  int const i = int(v) - 64;
  MC_CHECK(um2::abs(i) == (i < 0 ? -i : i) && um2::abs(int64_t(i) << 32) == (int64_t(i < 0 ? -i : i) << 32), "abs", "%d", i);
  mc::transition(120);
  mc::state(mc::hash(9, v));
}

template <class T>
void
fmaAt(T x, T y, T z)
{
  T const got = um2::fma(x, y, z);
  T const want = T(std::fma(x, y, z));
  MC_CHECK(got == want, "fma", "%.17g %.17g %.17g: %.17g expected %.17g", double(x), double(y), double(z), double(got), double(want));
}

void
fmaCase(u64 v)
{
  static double const MENU[12] = {0, 1, -1, 0.1, -0.1, 3, 1e8, -1e8, 1 + 1e-7, 1 - 1e-7, 1e-8, 1.0 / 3};
  mc::Dec d(v);
  double const x = MENU[d.geti(12)];
  double const y = MENU[d.geti(12)];
  double const z = MENU[d.geti(12)];
  fmaAt<double>(x, y, z);
  fmaAt<double>(x, y, -(x * y)); // what is left after rounding
  fmaAt<float>(float(x), float(y), float(z));
  fmaAt<float>(float(x), float(y), -(float(x) * float(y)));
  double const r = um2::abs(Complex<double>(x, y));
  near<double>(r, std::sqrt(L(x) * L(x) + L(y) * L(y)), "abs of complex", x);
  mc::transition(5);
  mc::trace();
  mc::state(mc::hash(10, v));
}

void
constantCase(u64 v)
{
  static L const WANT[4] = {2.718281828459045235360287471352662498L, 3.141592653589793238462643383279502884L, 1.570796326794896619231321691639751442L,
                            0.785398163397448309615660845819875721L};
  double const d[4] = {um2::e<double>, um2::pi<double>, um2::pi_2<double>, um2::pi_4<double>};
  float const f[4] = {um2::e<float>, um2::pi<float>, um2::pi_2<float>, um2::pi_4<float>};
  MC_CHECK(d[v] == double(WANT[v]), "constant", "%.17g", d[v]);
  MC_CHECK(f[v] == float(WANT[v]), "constant", "%.9g", double(f[v]));
  mc::transition(2);
  mc::state(mc::hash(11, v));
}

// Conversions between numbers: every pair of types on values both can hold
template <class To, class From>
void
castAt(int x)
{
  MC_CHECK(castIfNot<To>(From(x)) == To(x), "cast", "%d", x);
}

template <class To>
void
castTo(int x)
{
  castAt<To, int8_t>(x);
  castAt<To, int>(x);
  castAt<To, int64_t>(x);
  castAt<To, float>(x);
  castAt<To, double>(x);
  mc::transition(5);
}

void
castCase(u64 v)
{
  int const x = int(v) - 128;
  castTo<int8_t>(x);
  castTo<int>(x);
  castTo<int64_t>(x);
  castTo<float>(x);
  castTo<double>(x);
  mc::state(mc::hash(12, v));
}

void
setup()
{
  mc::space("named", sizeof(NAMED) / sizeof(NAMED[0]), namedCase);
  mc::space("components", 4 * 125, componentCase);
  mc::space("pairs", mc::ipow(5, 4), pairCase);
  mc::space("raw", mc::ipow(4, 10), rawCase);
  mc::space("kinds", sizeof(KINDS) / sizeof(KINDS[0]), kindCase);
  mc::space("mesh-kinds", 3 * mc::ipow(7, 3), meshKindCase);
  mc::space("floats", 256, floatCase);
  mc::space("doubles", 4096, doubleCase);
  mc::space("small", 129, smallCase);
  mc::space("fma", mc::ipow(12, 3), fmaCase);
  mc::space("constants", 4, constantCase);
  mc::space("casts", 256, castCase);
}
} // namespace

MC_MAIN(setup)
