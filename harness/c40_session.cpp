// C40: every request of the CAD session interface reaches the CAD library unchanged.
// The library is replaced by stand-ins that record what they were given and answer with distinct values.
#include "mc.hpp"

#include <um2/config.hpp>
#include <um2/gmsh/base_gmsh_api.hpp>

#include <climits>
#include <cstring>
#include <functional>
#include <gmsh.h>
#include <stdexcept>
#include <string>
#include <vector>

using mc::u64;

namespace
{
std::string g_log;   // calls received by the library
bool g_throw = false; // whether the library fails

std::string
text(int x)
{
  return mc::fmt("i%d", x);
}
std::string
text(bool x)
{
  return x ? "true" : "false";
}
std::string
text(std::size_t x)
{
  return mc::fmt("u%llu", (unsigned long long)(x));
}
std::string
text(double x)
{
  return mc::fmt("d%a", x);
}
std::string
text(std::string const & x)
{
  return "'" + x + "'";
}
std::string
text(void const * x)
{
  return mc::fmt("p%p", x);
}
std::string
text(char ** x)
{
  return mc::fmt("p%p", static_cast<void const *>(x));
}
std::string
text(std::pair<int, int> const & x)
{
  return mc::fmt("(%d,%d)", x.first, x.second);
}
std::string
text(std::function<double(int, int, double, double, double, double)> const & f)
{
  return f ? "f" + text(f(1, 2, 3, 4, 5, 6)) : "f-";
}
template <class T>
std::string
text(std::vector<T> const & x)
{
  std::string s = "[";
  for (size_t i = 0; i < x.size(); ++i) {
    s += text(T(x[i])) + " ";
  }
  return s + "]";
}

// Distinct values
template <class T>
struct Make;
template <>
struct Make<int> {
  static int
  get(int seed, int)
  {
    return 1000 + seed;
  }
};
template <>
struct Make<bool> {
  static bool
  get(int seed, int)
  {
    return seed % 2 == 1;
  }
};
template <>
struct Make<std::size_t> {
  static std::size_t
  get(int seed, int)
  {
    return 5000000000ULL + std::size_t(seed);
  }
};
template <>
struct Make<double> {
  static double
  get(int seed, int)
  {
    return 0.375 + seed / 7.0;
  }
};
template <>
struct Make<std::string> {
  static std::string
  get(int seed, int size)
  {
    std::string s = mc::fmt("text %d", seed);
    return size < 0 ? "" : size == 0 ? s : s + std::string(size_t(size) * 9, char('a' + size));
  }
};
template <class A, class B>
struct Make<std::pair<A, B>> {
  static std::pair<A, B>
  get(int seed, int size)
  {
    return {Make<A>::get(seed, size), Make<B>::get(seed + 17, size)};
  }
};
template <class T>
struct Make<std::vector<T>> {
  static std::vector<T>
  get(int seed, int size)
  {
    std::vector<T> v;
    for (int i = 0; i < size; ++i) {
      v.push_back(Make<T>::get(seed + 31 * (i + 1), size));
    }
    return v;
  }
};
template <>
struct Make<char **> {
  static char **
  get(int seed, int)
  {
    static char * bank[4096];
    return bank + seed % 4096;
  }
};
template <>
struct Make<void *> {
  static void *
  get(int seed, int)
  {
    static char bank[4096];
    return bank + seed % 4096;
  }
};
template <>
struct Make<void const *> {
  static void const *
  get(int seed, int size)
  {
    return Make<void *>::get(seed, size);
  }
};
template <>
struct Make<std::function<double(int, int, double, double, double, double)>> {
  static std::function<double(int, int, double, double, double, double)>
  get(int seed, int)
  {
    return [seed](int a, int b, double c, double d, double e, double f) { return seed + a + 10 * b + 100 * c + 1000 * d + 10000 * e + 100000 * f; };
  }
};

// One call as seen by the library
struct Call {
  int pos = 0;
  int seed = 0;
  explicit Call(char const * name)
      : seed(int(mc::hashStr(name) % 900))
  {
    g_log += name;
    g_log += "(";
  }
  template <class T>
  void
  in(T const & x)
  {
    g_log += text(x) + ", ";
    ++pos;
  }
  template <class T>
  void
  out(T & x)
  {
    // what the caller had there matters as well
    in(x);
    if (!g_throw) {
      x = Make<T>::get(seed + 3 * pos, pos % 3 + 1);
    }
  }
  void
  end()
  {
    g_log += ")\n";
    if (g_throw) {
      throw std::runtime_error("failed " + g_log);
    }
  }
  template <class T>
  T
  result()
  {
    return Make<T>::get(seed + 77, 1);
  }
};

// The arguments of one call: everything distinct, except that one position holds a special value
struct Gen {
  int special = -1; // position
  int kind = 0;
  unsigned bools = 0;
  int nbools = 0;
  std::string seen;
  template <class T>
  T
  make(int pos)
  {
    bool const here = pos == special;
    if constexpr (std::is_same_v<T, bool>) {
      return ((bools >> nbools++) & 1) != 0;
    } else if constexpr (std::is_same_v<T, int>) {
      static int const V[] = {-1, 0, 1, 2, 3, 255, INT_MAX, INT_MIN};
      return here ? V[kind] : Make<T>::get(pos * 13, 0);
    } else if constexpr (std::is_same_v<T, std::size_t>) {
      static std::size_t const V[] = {0, 1, 2, 3, 7, 255, 0x80000000U, ~std::size_t(0)};
      return here ? V[kind] : Make<T>::get(pos * 13, 0);
    } else if constexpr (std::is_same_v<T, double>) {
      static double const V[] = {-1, 0, 1, -0.0, 1e-300, 1e300, 2 * M_PI, -1e-9};
      return here ? V[kind] : Make<T>::get(pos * 13, 0);
    } else {
      return Make<T>::get(pos * 13, here ? (kind == 7 ? 40 : kind - 1) : pos % 3 + 1);
    }
  }
  template <class T>
  void
  see(T const & x)
  {
    seen += text(x) + "; ";
  }
};

struct Entry {
  char const * name;
  int given;
  void (*call)(Gen &, bool);
};
} // namespace

#include "c40_table.inc"

namespace
{
std::string
once(Entry const & e, Gen g, bool direct)
{
  g_log.clear();
  std::string thrown;
  try {
    e.call(g, direct);
  } catch (std::exception const & x) {
    thrown = x.what();
  }
  mc::transition(1);
  return g_log + "-> " + g.seen + (thrown.empty() ? "" : "thrown " + thrown);
}

void
compare(Entry const & e, Gen const & g)
{
  std::string const want = once(e, g, true);
  std::string const got = once(e, g, false);
  mc::state(mc::hashStr(want) ^ mc::hashStr(e.name) * 31 ^ u64(e.given));
  MC_CHECK(got == want, "forwarded", "%s with %d arguments: the library saw and answered\n  %s\ninstead of\n  %s", e.name, e.given, got.c_str(),
           want.c_str());
}

void
setup()
{
  static u64 const N = std::size(TABLE);
  // every call with every combination of its switches, succeeding and failing
  mc::space("switches", N * 32 * 2, [](u64 i) {
    mc::Dec d(i);
    Entry const & e = TABLE[d.get(N)];
    Gen g;
    g.bools = unsigned(d.get(32));
    g_throw = d.get(2) == 1;
    compare(e, g);
    g_throw = false;
    mc::trace(1);
  });
  // every call with a special value in every position
  mc::space("values", N * 20 * 8, [](u64 i) {
    mc::Dec d(i);
    Entry const & e = TABLE[d.get(N)];
    Gen g;
    g.special = d.geti(20);
    g.kind = d.geti(8);
    g.bools = unsigned(0x15 + g.kind);
    if (g.special >= e.given) {
      return;
    }
    compare(e, g);
    mc::trace(1);
  });
}
} // namespace

MC_MAIN(setup)
