// C02: um2::String / um2::StringView against std::string under all histories and short texts.
#include "mc.hpp"

#include <um2/stdlib/string.hpp>
#include <um2/stdlib/string_view.hpp>

#include <climits>
#include <cmath>
#include <string>
#include <vector>

namespace
{

int const lens[] = {0, 1, 7, 21, 22, 23, 24, 45};
constexpr int num_lens = 8;

std::string
text(int len, int salt)
{
  std::string s;
  for (int i = 0; i < len; ++i) {
    s += static_cast<char>('a' + (i * 7 + salt * 3) % 26);
  }
  return s;
}

int
sgn(int x)
{
  return x < 0 ? -1 : (x > 0 ? 1 : 0);
}

enum Kind {
  CTOR,        // s = String(cstr)
  ASSIGN,      // s.assign(view of len)
  APPEND,      // s += cstr
  APPEND_N,    // s.append(p, n) with trailing characters beyond n
  COPY_CTOR,
  MOVE_CTOR,
  COPY_ASSIGN,
  MOVE_ASSIGN,
  SELF_COPY,
  SELF_MOVE,
  APPEND_OTHER,
  APPEND_SELF,
  PLUS,        // s = s + other
  PLUS_CSTR,
  SUBSTR,      // s = other.substr(..)
  SUB_CTOR,
  SET_CHAR,
  RESET,
  VIEW_CTOR,   // s = String(StringView(other))
  NUM_KIND
};

struct Op {
  int kind, who, arg;
};

std::vector<Op> const &
alphabet()
{
  static std::vector<Op> a;
  if (a.empty()) {
    for (int w = 0; w < 2; ++w) {
      for (int l = 0; l < num_lens; ++l) {
        a.push_back({CTOR, w, lens[l]});
        a.push_back({ASSIGN, w, lens[l]});
        a.push_back({APPEND, w, lens[l]});
      }
      a.push_back({APPEND_N, w, 1});
      a.push_back({APPEND_N, w, 20});
      for (int k = COPY_CTOR; k <= PLUS; ++k) {
        a.push_back({k, w, 0});
      }
      a.push_back({PLUS_CSTR, w, 0});
      a.push_back({PLUS_CSTR, w, 5});
      for (int g = 0; g < 6; ++g) {
        a.push_back({SUBSTR, w, g});
        a.push_back({SUB_CTOR, w, g});
      }
      a.push_back({SET_CHAR, w, 0});
      a.push_back({RESET, w, 0});
      a.push_back({VIEW_CTOR, w, 0});
    }
  }
  return a;
}

struct World {
  um2::String s[2];
  std::string r[2];

  void
  apply(Op const & o, int salt)
  {
    int const i = o.who;
    int const j = 1 - i;
    um2::String & a = s[i];
    um2::String & b = s[j];
    std::string & ra = r[i];
    std::string & rb = r[j];
    std::string const t = text(o.arg, salt);
    switch (o.kind) {
    case CTOR:
      a = um2::String(t.c_str());
      ra = t;
      break;
    case ASSIGN:
      a.assign(um2::StringView(t.c_str(), t.size()));
      ra = t;
      break;
    case APPEND: {
      um2::String & ret = a += t.c_str();
      MC_CHECK(&ret == &a, "return", "+= does not return the string");
      ra += t;
      break;
    }
    case APPEND_N: {
      std::string const more = t + "TRAILER";
      a.append(more.c_str(), o.arg);
      ra.append(more, 0, static_cast<size_t>(o.arg));
      break;
    }
    case COPY_CTOR: {
      um2::String c(b);
      if (!rb.empty()) {
        c.front() = 'Z'; // must not reach b
      }
      a = um2::move(c);
      ra = rb;
      if (!ra.empty()) {
        ra[0] = 'Z';
      }
      break;
    }
    case MOVE_CTOR: {
      um2::String c(um2::move(b));
      MC_CHECK(b.empty() && b.size() == 0 && b.data()[0] == 0, "moved-from", "size %d", b.size());
      a = c;
      ra = rb;
      b += "q"; // usable after move
      rb = "q";
      break;
    }
    case COPY_ASSIGN:
      a = b;
      ra = rb;
      break;
    case MOVE_ASSIGN:
      a = um2::move(b);
      ra = rb;
      rb.clear();
      break;
    case SELF_COPY: {
      auto & alias = a;
      a = alias;
      break;
    }
    case SELF_MOVE: {
      auto & alias = a;
      a = um2::move(alias);
      break;
    }
    case APPEND_OTHER:
      a += b;
      ra += rb;
      break;
    case APPEND_SELF:
      if (ra.size() > 400) {
        break;
      }
      a += a;
      ra += std::string(ra);
      break;
    case PLUS:
      a = a + b;
      ra = ra + rb;
      break;
    case PLUS_CSTR:
      a = b + t.c_str();
      ra = rb + t;
      break;
    case SUBSTR:
    case SUB_CTOR: {
      auto const n = static_cast<int>(rb.size());
      int pos = 0;
      int cnt = um2::String::npos;
      switch (o.arg) {
      case 0:
        break;
      case 1:
        pos = n;
        break;
      case 2:
        pos = n / 2;
        break;
      case 3:
        cnt = n / 2;
        break;
      case 4:
        pos = n > 0 ? 1 : 0;
        cnt = n > 2 ? n - 2 : 0;
        break;
      default:
        cnt = 0;
      }
      um2::String t2 = o.kind == SUBSTR ? b.substr(pos, cnt) : um2::String(b, pos, cnt);
      a = um2::move(t2);
      ra = rb.substr(static_cast<size_t>(pos), static_cast<size_t>(cnt));
      break;
    }
    case SET_CHAR:
      if (!ra.empty()) {
        a.back() = 'Y';
        ra.back() = 'Y';
        a.data()[ra.size() / 2] = 'X';
        ra[ra.size() / 2] = 'X';
      }
      break;
    case RESET:
      a = um2::String();
      ra.clear();
      break;
    case VIEW_CTOR: {
      um2::StringView const v = b;
      a = um2::String(v);
      ra = rb;
      break;
    }
    default:
      break;
    }
  }

  void
  compare()
  {
    for (int i = 0; i < 2; ++i) {
      um2::String const & c = s[i];
      auto const n = static_cast<int>(r[i].size());
      MC_REQUIRE(c.size() == n && c.empty() == r[i].empty() && c.capacity() >= n && c.cend() - c.cbegin() == n &&
                     s[i].end() - s[i].begin() == n && c.begin() == c.data() && c.end() - c.begin() == n,
                 "size", "string %d: size %d expected %d capacity %d", i, c.size(), n, c.capacity());
      MC_REQUIRE(memcmp(c.data(), r[i].c_str(), static_cast<size_t>(n) + 1) == 0, "content",
                 "string %d holds \"%s\" expected \"%s\"", i, c.data(), r[i].c_str());
      if (n > 0) {
        MC_CHECK(c.front() == r[i].front() && c.back() == r[i].back() && s[i].front() == r[i].front() &&
                     s[i].back() == r[i].back(),
                 "front-back", "string %d", i);
      }
      um2::StringView const v = c;
      MC_CHECK(v.size() == static_cast<uint64_t>(n) && v.data() == c.data(), "view", "string %d", i);
      for (char ch : {'a', 'h', 'Z', 'q'}) {
        for (int pos : {0, 1, n / 2, n > 0 ? n - 1 : 0, n, n + 5}) {
          auto const e = r[i].find_last_of(ch, static_cast<size_t>(pos));
          int const g = c.find_last_of(ch, pos);
          MC_CHECK(g == (e == std::string::npos ? um2::String::npos : static_cast<int>(e)), "find_last_of",
                   "string %d '%c' from %d: %d", i, ch, pos, g);
        }
        MC_CHECK(c.starts_with(ch) == (n > 0 && r[i][0] == ch), "starts_with", "char %c", ch);
        MC_CHECK(c.ends_with(ch) == (n > 0 && r[i].back() == ch), "ends_with", "char %c", ch);
      }
      for (int k : {0, 1, n / 2, n}) {
        if (k > n) {
          continue;
        }
        std::string const pre = r[i].substr(0, static_cast<size_t>(k));
        std::string const suf = r[i].substr(static_cast<size_t>(n - k));
        MC_CHECK(c.starts_with(pre.c_str()) && c.ends_with(suf.c_str()), "affix", "length %d of %d", k, n);
        MC_CHECK(c.starts_with(um2::StringView(pre.c_str(), pre.size())) &&
                     c.ends_with(um2::StringView(suf.c_str(), suf.size())),
                 "affix", "view, length %d of %d", k, n);
        MC_CHECK(!c.starts_with((pre + "!").c_str()) && !c.ends_with(("!" + suf).c_str()), "affix",
                 "false match, length %d of %d", k, n);
      }
    }
    um2::String const & a = s[0];
    um2::String const & b = s[1];
    int const e = sgn(r[0].compare(r[1]));
    MC_CHECK(sgn(a.compare(b)) == e && (a == b) == (e == 0) && (a != b) == (e != 0) && (a < b) == (e < 0) &&
                 (a <= b) == (e <= 0) && (a > b) == (e > 0) && (a >= b) == (e >= 0),
             "compare", "\"%s\" vs \"%s\"", r[0].c_str(), r[1].c_str());
    MC_CHECK(sgn(a.compare(r[1].c_str())) == e, "compare", "with C string");
  }

  mc::u64
  hash() const
  {
    return mc::hash(mc::hash(mc::hashStr(r[0]), mc::hashStr(r[1])),
                    static_cast<mc::u64>(s[0].capacity()) * 4096 + static_cast<mc::u64>(s[1].capacity()));
  }
};

void
histories(mc::u64 idx)
{
  auto const & A = alphabet();
  mc::u64 const k = A.size();
  mc::u64 d = 1;
  while (idx >= mc::ipow(k, d)) {
    idx -= mc::ipow(k, d);
    ++d;
  }
  int64_t const blocks0 = mc::live_blocks.load();
  {
    World w;
    for (mc::u64 step = 0; step < d; ++step) {
      w.apply(A[idx % k], static_cast<int>(step));
      idx /= k;
      mc::transition();
    }
    w.compare();
    mc::state(w.hash());
    if (mc::cur_idx > 9000) {
      mc::sample(mc::fmt("history %llu ends with \"%s\" and \"%s\"", static_cast<unsigned long long>(mc::cur_idx),
                         w.s[0].data(), w.s[1].data()));
    }
  }
  MC_CHECK(mc::live_blocks.load() == blocks0, "leak", "%lld heap blocks leaked",
           static_cast<long long>(mc::live_blocks.load() - blocks0));
  mc::trace();
}

// All texts over {a, b, space} up to a length
std::vector<std::string>
words(int maxlen)
{
  std::vector<std::string> r;
  char const al[] = {'a', 'b', ' '};
  for (int l = 0; l <= maxlen; ++l) {
    for (mc::u64 x = 0; x < mc::ipow(3, static_cast<mc::u64>(l)); ++x) {
      std::string s;
      mc::u64 y = x;
      for (int i = 0; i < l; ++i) {
        s += al[y % 3];
        y /= 3;
      }
      r.push_back(s);
    }
  }
  return r;
}

std::vector<std::string> texts;
std::vector<std::string> pats;

um2::StringView
view(std::string const & s)
{
  return {s.c_str(), static_cast<uint64_t>(s.size())};
}

void
queries(mc::u64 idx)
{
  using SV = um2::StringView;
  std::string const & t = texts[idx];
  SV const v = view(t);
  SV const v2(t.c_str(), t.c_str() + t.size());
  SV const v3(t.c_str());
  MC_CHECK(v.size() == t.size() && v2.size() == t.size() && v3.size() == t.size() && v.empty() == t.empty() &&
               static_cast<size_t>(v.end() - v.begin()) == t.size() && v.data() == t.c_str(),
           "view-ctor", "\"%s\"", t.c_str());
  auto const n = t.size();
  auto const U = [](size_t p) { return p == std::string::npos ? SV::npos : static_cast<uint64_t>(p); };
  for (size_t i = 0; i < n; ++i) {
    MC_CHECK(v[static_cast<Int>(i)] == t[i], "index", "%zu", i);
  }
  if (n > 0) {
    MC_CHECK(v.front() == t.front() && v.back() == t.back(), "front-back", "\"%s\"", t.c_str());
  }
  for (size_t pos = 0; pos <= n + 1; ++pos) {
    for (char c : {'a', 'b', ' ', 'z'}) {
      MC_CHECK(v.find_first_of(c, pos) == U(t.find(c, pos)), "find_first_of", "\"%s\" '%c' %zu", t.c_str(), c, pos);
      MC_CHECK(v.find_first_not_of(c, pos) == U(t.find_first_not_of(c, pos)), "find_first_not_of",
               "\"%s\" '%c' %zu", t.c_str(), c, pos);
      MC_CHECK(v.find_last_of(c, pos) == U(t.find_last_of(c, pos)), "find_last_of", "\"%s\" '%c' %zu", t.c_str(),
               c, pos);
      MC_CHECK(v.find_last_of(c) == U(t.find_last_of(c)), "find_last_of", "\"%s\" '%c'", t.c_str(), c);
      mc::transition(4);
    }
    for (size_t cnt = 0; pos <= n && pos + cnt <= n; ++cnt) {
      SV const sub = v.substr(pos, cnt);
      MC_CHECK(sub.size() == cnt && (cnt == 0 || sub.data() == v.data() + pos), "substr", "\"%s\" %zu %zu",
               t.c_str(), pos, cnt);
      mc::transition();
    }
    if (pos <= n) {
      SV p = v;
      p.remove_prefix(pos);
      MC_CHECK(p.size() == n - pos && p.data() == v.data() + pos, "remove_prefix", "\"%s\" %zu", t.c_str(), pos);
    }
  }
  for (auto const & p : pats) {
    SV const q = view(p);
    int const e = sgn(t.compare(p));
    MC_CHECK(sgn(v.compare(q)) == e && (v == q) == (e == 0) && (v != q) == (e != 0) && (v < q) == (e < 0) &&
                 (v > q) == (e > 0) && (v <= q) == (e <= 0) && (v >= q) == (e >= 0),
             "compare", "\"%s\" \"%s\"", t.c_str(), p.c_str());
    MC_CHECK(v.starts_with(q) == t.starts_with(p) && v.starts_with(p.c_str()) == t.starts_with(p), "starts_with",
             "\"%s\" \"%s\"", t.c_str(), p.c_str());
    MC_CHECK(v.ends_with(q) == t.ends_with(p) && v.ends_with(p.c_str()) == t.ends_with(p), "ends_with",
             "\"%s\" \"%s\"", t.c_str(), p.c_str());
    for (size_t pos = 0; pos <= n + 1; ++pos) {
      MC_CHECK(v.find_first_of(q, pos) == U(t.find(p, pos)), "find-substring", "\"%s\" \"%s\" from %zu", t.c_str(),
               p.c_str(), pos);
      MC_CHECK(v.find_first_of(p.c_str(), pos) == U(t.find(p, pos)), "find-substring", "\"%s\" \"%s\" from %zu",
               t.c_str(), p.c_str(), pos);
      for (size_t cnt = 0; cnt <= p.size(); ++cnt) {
        MC_CHECK(v.find_first_of(p.c_str(), pos, cnt) == U(t.find(p.c_str(), pos, cnt)), "find-substring",
                 "\"%s\" \"%s\" from %zu count %zu", t.c_str(), p.c_str(), pos, cnt);
      }
      for (size_t cnt = 0; pos <= n && pos + cnt <= n; ++cnt) {
        MC_CHECK(sgn(v.compare(pos, cnt, q)) == sgn(t.compare(pos, cnt, p)), "compare-sub", "\"%s\" %zu %zu \"%s\"",
                 t.c_str(), pos, cnt, p.c_str());
      }
      mc::transition(4);
    }
  }
  // Leading spaces and tokens
  {
    SV l = v;
    l.removeLeadingSpaces();
    auto const f = t.find_first_not_of(' ');
    std::string const e = f == std::string::npos ? "" : t.substr(f);
    MC_CHECK(l.size() == e.size() && (e.empty() || l.data() == t.c_str() + f), "leading-spaces", "\"%s\"", t.c_str());
  }
  for (char delim : {' ', 'a', ','}) {
    std::vector<std::string> expect;
    std::string cur;
    for (char c : t) {
      if (c == delim) {
        if (!cur.empty()) {
          expect.push_back(cur);
        }
        cur.clear();
      } else {
        cur += c;
      }
    }
    if (!cur.empty()) {
      expect.push_back(cur);
    }
    SV rest = v;
    std::vector<std::string> got;
    for (int guard = 0; guard < 20; ++guard) {
      SV const tok = delim == ' ' && n % 2 == 0 ? rest.getTokenAndShrink() : rest.getTokenAndShrink(delim);
      if (tok.empty()) {
        break;
      }
      MC_CHECK(tok.data() >= t.c_str() && tok.end() <= t.c_str() + n, "token", "outside of the text \"%s\"", t.c_str());
      got.emplace_back(tok.data(), tok.size());
      // What remains is what follows the token and one delimiter
      size_t const after = static_cast<size_t>(tok.end() - t.c_str());
      size_t const left = after < n ? n - after - 1 : 0;
      MC_CHECK(rest.size() == left && (left == 0 || rest.data() == tok.end() + 1), "token-rest",
               "\"%s\" after token %zu: %llu characters left", t.c_str(), got.size(),
               static_cast<unsigned long long>(rest.size()));
      mc::transition();
    }
    MC_CHECK(got == expect, "tokens", "\"%s\" by '%c': %zu tokens, expected %zu", t.c_str(), delim, got.size(),
             expect.size());
  }
  mc::state(mc::hashStr(t));
  mc::trace();
  mc::sample("text \"" + t + "\"");
}

std::vector<double> dvals;
std::vector<int64_t> ivals;

void
numbers(mc::u64 idx)
{
  char b[512];
  auto const same = [](um2::String const & s, char const * e) {
    return strcmp(s.data(), e) == 0 && static_cast<size_t>(s.size()) == strlen(e);
  };
  if (idx < ivals.size()) {
    int64_t const v = ivals[idx];
    snprintf(b, sizeof b, "%lld", static_cast<long long>(v));
    MC_CHECK(same(um2::String(v), b), "int64", "%s", b);
    if (v >= INT32_MIN && v <= INT32_MAX) {
      MC_CHECK(same(um2::String(static_cast<int32_t>(v)), b), "int32", "%s", b);
    }
  } else {
    double const v = dvals[idx - ivals.size()];
    snprintf(b, sizeof b, "%f", v);
    MC_CHECK(same(um2::String(v), b), "double", "%s", b);
    auto const f = static_cast<float>(v);
    snprintf(b, sizeof b, "%f", static_cast<double>(f));
    MC_CHECK(same(um2::String(f), b), "float", "%s", b);
  }
  mc::state(idx);
  mc::transition();
  mc::trace();
}

void
setup()
{
  mc::u64 const k = alphabet().size();
  mc::u64 n = k + k * k + k * k * k;
  if (mc::thorough()) {
    n += k * k * k * k;
  }
  mc::space("histories", n, histories);
  texts = words(mc::thorough() ? 8 : 6);
  pats = words(3);
  mc::space("queries", texts.size(), queries);
  for (int64_t v = -1100; v <= 1100; ++v) {
    ivals.push_back(v);
  }
  for (int s = 10; s < 63; ++s) {
    for (int64_t d = -1; d <= 1; ++d) {
      ivals.push_back((int64_t(1) << s) + d);
      ivals.push_back(-(int64_t(1) << s) + d);
    }
  }
  ivals.push_back(INT64_MAX);
  ivals.push_back(INT64_MIN);
  for (int e = -12; e <= 307; ++e) {
    for (double m : {1.0, 9.999999, -1.5, 7.25}) {
      dvals.push_back(m * pow(10.0, e));
    }
  }
  dvals.push_back(0.0);
  mc::space("numbers", ivals.size() + dvals.size(), numbers);
}

} // namespace

MC_MAIN(setup)
