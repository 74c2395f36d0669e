// C04: lattice text and number conversion on every short text.
#include "mc.hpp"

#include <um2/common/cast_if_not.hpp>
#include <um2/common/string_to_lattice.hpp>
#include <um2/common/strto.hpp>

#include <charconv>
#include <cmath>
#include <limits>
#include <string>
#include <vector>

namespace
{

// The value and length of the numeric prefix of s, by the grammar
// [spaces] [sign] digits [. digits] [e [sign] digits]
template <class T>
bool
prefix(std::string const & s, T & v, size_t & len)
{
  size_t i = 0;
  while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) {
    ++i;
  }
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) {
    neg = s[i] == '-';
    ++i;
  }
  size_t const b = i;
  size_t nd = 0;
  auto const digits = [&] {
    size_t k = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
      ++i;
      ++k;
    }
    return k;
  };
  nd = digits();
  if constexpr (std::is_floating_point_v<T>) {
    if (i < s.size() && s[i] == '.') {
      ++i;
      nd += digits();
      if (nd == 0) {
        v = 0;
        len = 0;
        return true;
      }
    }
    if (nd > 0 && i < s.size() && s[i] == 'e') {
      size_t const keep = i;
      ++i;
      if (i < s.size() && (s[i] == '+' || s[i] == '-')) {
        ++i;
      }
      if (digits() == 0) {
        i = keep;
      }
    }
  }
  if (nd == 0) {
    v = 0;
    len = 0;
    return true;
  }
  len = i;
  if constexpr (std::is_floating_point_v<T>) {
    auto const r = std::from_chars(s.data() + b, s.data() + i, v);
    if (r.ec == std::errc::result_out_of_range) {
      return false;
    }
    v = neg ? -v : v;
  } else {
    __int128 x = 0;
    for (size_t k = b; k < i; ++k) {
      x = x * 10 + (s[k] - '0');
      if (x > (__int128(1) << 100)) {
        return false;
      }
    }
    x = neg ? -x : x;
    if (x < static_cast<__int128>(std::numeric_limits<T>::min()) ||
        x > static_cast<__int128>(std::numeric_limits<T>::max())) {
      return false; // not representable
    }
    v = static_cast<T>(x);
  }
  return true;
}

template <class T>
void
convert(std::string const & s)
{
  T e{};
  size_t n = 0;
  if (!prefix<T>(s, e, n)) {
    return;
  }
  char * end = nullptr;
  T const g = um2::strto<T>(s.c_str(), &end);
  MC_CHECK(g == e, "value", "\"%s\" as %zu-byte %s number", s.c_str(), sizeof(T),
           std::is_floating_point_v<T> ? "floating" : "integer");
  MC_CHECK(end == s.c_str() + n, "consumed", "\"%s\": %td characters consumed, expected %zu", s.c_str(),
           end - s.c_str(), n);
  mc::transition();
}

void
convertAll(std::string const & s)
{
  convert<int32_t>(s);
  convert<int64_t>(s);
  convert<uint32_t>(s);
  convert<uint64_t>(s);
  convert<float>(s);
  convert<double>(s);
  mc::state(mc::hashStr(s));
  mc::trace();
}

char const num_alpha[] = {'0', '1', '9', '-', '+', '.', 'e', ' ', 'a'};

void
textCase(mc::u64 idx)
{
  mc::u64 l = 0;
  while (idx >= mc::ipow(9, l)) {
    idx -= mc::ipow(9, l);
    ++l;
  }
  std::string s;
  for (mc::u64 i = 0; i < l; ++i) {
    s += num_alpha[idx % 9];
    idx /= 9;
  }
  convertAll(s);
  mc::sample("number text \"" + s + "\"");
}

std::vector<std::string> big;

void
bigCase(mc::u64 idx)
{
  convertAll(big[idx]);
}

// Lattice texts built from every sequence of pieces
std::vector<std::string> pieces;
char delim = ' ';

template <class T>
struct Ref {
  std::vector<std::vector<T>> rows;
  bool in_format = true;
};

template <class T>
Ref<T>
reference(std::string const & t, char d)
{
  Ref<T> r;
  std::string line;
  auto const flush = [&] {
    bool const blank = line.find_first_not_of(' ') == std::string::npos;
    if (!blank) {
      std::vector<T> row;
      size_t i = 0;
      while (i < line.size()) {
        size_t j = i;
        while (j < line.size() && line[j] != d) {
          ++j;
        }
        std::string const f = line.substr(i, j - i);
        i = j + 1;
        if (f.find_first_not_of(' ') == std::string::npos) {
          continue;
        }
        T v{};
        size_t n = 0;
        bool const ok = prefix<T>(f, v, n);
        if (!ok || n == 0 || f.find_first_not_of(' ', n) != std::string::npos) {
          r.in_format = false; // not a number
        }
        row.push_back(v);
      }
      if (row.empty()) {
        r.in_format = false; // separators but no value
      }
      r.rows.push_back(row);
    }
    line.clear();
  };
  for (char c : t) {
    if (c == '\n') {
      flush();
    } else {
      line += c;
    }
  }
  flush();
  return r;
}

template <class T>
void
lattice(std::string const & t, char d)
{
  auto const e = reference<T>(t, d);
  if (!e.in_format) {
    return;
  }
  std::vector<std::vector<T>> got;
  {
    um2::String const us(t.c_str());
    auto const v = d == ' ' && t.size() % 2 == 0 ? um2::stringToLattice<T>(us) : um2::stringToLattice<T>(us, d);
    for (auto const & row : v) {
      std::vector<T> g;
      for (auto const & x : row) {
        g.push_back(x);
      }
      got.push_back(g);
    }
  }
  std::string shown = t;
  for (auto & c : shown) {
    if (c == '\n') {
      c = '|';
    }
  }
  MC_CHECK(got == e.rows, "lattice", "\"%s\" by '%c': %zu rows, expected %zu", shown.c_str(), d, got.size(),
           e.rows.size());
  mc::transition();
  mc::state(mc::hashStr(t, static_cast<mc::u64>(d)));
  mc::trace();
  mc::sample(mc::fmt("lattice text \"%s\" has %zu rows", shown.c_str(), e.rows.size()));
}

std::string
compose(mc::u64 idx, std::vector<std::string> const & ps)
{
  mc::u64 const k = ps.size();
  mc::u64 l = 0;
  while (idx >= mc::ipow(k, l)) {
    idx -= mc::ipow(k, l);
    ++l;
  }
  std::string s;
  for (mc::u64 i = 0; i < l; ++i) {
    s += ps[idx % k];
    idx /= k;
  }
  return s;
}

mc::u64
count(mc::u64 k, mc::u64 max)
{
  mc::u64 n = 0;
  for (mc::u64 l = 0; l <= max; ++l) {
    n += mc::ipow(k, l);
  }
  return n;
}

void
setup()
{
  static std::vector<std::string> const sp = {"1", "-20", " ", "\n", "305"};
  static std::vector<std::string> const cm = {"1", "-20", " ", "\n", ","};
  static std::vector<std::string> const fl = {"1.5", "-2e-3", " ", "\n", ","};
  mc::u64 const d = mc::pick(8, 10);
  mc::space("lattice-spaces", count(5, d), [](mc::u64 i) {
    auto const t = compose(i, sp);
    lattice<int32_t>(t, ' ');
    lattice<double>(t, ' ');
  });
  mc::space("lattice-commas", count(5, d), [](mc::u64 i) {
    auto const t = compose(i, cm);
    lattice<int32_t>(t, ',');
    lattice<int64_t>(t, ',');
  });
  mc::space("lattice-floats", count(5, mc::pick(7, 9)), [](mc::u64 i) {
    auto const t = compose(i, fl);
    lattice<double>(t, ',');
    lattice<float>(t, ',');
  });
  // Every table shape up to 20 x 20, both layouts
  mc::space("lattice-shapes", 20 * 20 * 4, [](mc::u64 i) {
    mc::Dec q(i);
    int const nr = 1 + q.geti(20);
    int const nc = 1 + q.geti(20);
    bool const ragged = q.geti(2) == 1;
    char const dl = q.geti(2) == 1 ? ',' : ' ';
    std::string t = "\n";
    for (int r = 0; r < nr; ++r) {
      t += "    ";
      int const n = ragged ? 1 + (nc + r) % 20 : nc;
      for (int c = 0; c < n; ++c) {
        t += std::to_string(r * 100 + c - 7);
        if (c + 1 < n || dl == ',') {
          t += dl;
        }
        if (c % 3 == 0) {
          t += ' ';
        }
      }
      t += "\n";
    }
    t += "  ";
    lattice<int32_t>(t, dl);
    lattice<double>(t, dl);
  });
  mc::space("numbers", count(9, mc::pick(6, 7)), textCase);
  for (char const * sgn : {"", "-", "+", "  "}) {
    for (char const * x :
         {"2147483647", "2147483646", "2147483648", "2147483649", "4294967295", "4294967294", "9223372036854775807",
          "9223372036854775808", "9223372036854775806", "18446744073709551615", "18446744073709551614", "1000000007",
          "0000000000000000000000000042", "1.7976931348623157e308", "2.2250738585072014e-308", "3.4028234e38",
          "1.17549435e-38", "0.1", "0.30000000000000004", "123456789.123456789", "1e22", "1e23", "5e-1", "00012.500",
          "1e+05", "7.", ".5"}) {
      for (char const * tail : {"", " ", ",", "x", "\n", " 5"}) {
        big.push_back(std::string(sgn) + x + tail);
      }
    }
  }
  for (int i = -3000; i <= 3000; ++i) {
    big.push_back(std::to_string(i));
    big.push_back(std::to_string(i) + "." + std::to_string((i * 37 + 999999) % 1000));
    big.push_back(std::to_string(static_cast<int64_t>(i) * 3074457345618258LL));
  }
  mc::space("number-list", big.size(), bigCase);
}

} // namespace

MC_MAIN(setup)
