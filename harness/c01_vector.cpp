// C01: um2::Vector against an ideal sequence under all operation histories within bounds.
#include "mc.hpp"

#include <um2/stdlib/string.hpp>
#include <um2/stdlib/vector.hpp>

#include <vector>

namespace
{

//------------------------------------------------------------------------------
// Element types
//------------------------------------------------------------------------------
int64_t live_objs = 0; // objects constructed and not yet destroyed
bool bad_obj = false;  // an object was used outside of its lifetime / read after move

constexpr uint32_t alive_magic = 0xA11FE001U;
constexpr uint32_t moved_magic = 0x0DEAD0FFU;

// Tracked element: every special member is observable
struct Obj {
  uint32_t magic;
  int v;
  int * heap; // so that double destruction / leaks are visible to the sanitizer too

  Obj() noexcept : magic(alive_magic), v(0), heap(new int(0)) { ++live_objs; }
  explicit Obj(int x) noexcept : magic(alive_magic), v(x), heap(new int(x)) { ++live_objs; }
  Obj(Obj const & o) noexcept : magic(alive_magic), v(o.get()), heap(new int(o.v)) { ++live_objs; }
  Obj(Obj && o) noexcept : magic(alive_magic), v(o.get()), heap(o.heap)
  {
    ++live_objs;
    o.heap = nullptr;
    o.magic = moved_magic;
  }
  Obj &
  operator=(Obj const & o) noexcept
  {
    check();
    int const x = o.get();
    if (this != &o) {
      delete heap;
      heap = new int(x);
    }
    v = x;
    magic = alive_magic;
    return *this;
  }
  Obj &
  operator=(Obj && o) noexcept
  {
    check();
    if (this != &o) {
      int const x = o.get();
      delete heap;
      heap = o.heap;
      o.heap = nullptr;
      o.magic = moved_magic;
      v = x;
      magic = alive_magic;
    }
    return *this;
  }
  ~Obj() noexcept
  {
    check();
    delete heap;
    heap = nullptr;
    magic = 0;
    --live_objs;
  }
  void
  check() const
  {
    if (magic != alive_magic && magic != moved_magic) {
      bad_obj = true;
    }
  }
  int
  get() const
  {
    if (magic != alive_magic || heap == nullptr || *heap != v) {
      bad_obj = true;
      return -999;
    }
    return v;
  }
  bool
  operator==(Obj const & o) const
  {
    return get() == o.get();
  }
  bool
  operator<(Obj const & o) const
  {
    return get() < o.get();
  }
};

struct alignas(64) Wide { // over-aligned and trivially copyable
  double a;
  int v;
  bool
  operator==(Wide const & o) const
  {
    return v == o.v;
  }
  bool
  operator<(Wide const & o) const
  {
    return v < o.v;
  }
};

template <class T>
struct Tr;

template <>
struct Tr<int> {
  static int make(int x) { return x; }
  static int get(int x) { return x; }
};
template <>
struct Tr<int8_t> {
  static int8_t make(int x) { return static_cast<int8_t>(x); }
  static int get(int8_t x) { return x; }
};
template <>
struct Tr<Obj> {
  static Obj make(int x) { return Obj(x); }
  static int get(Obj const & x) { return x.get(); }
};
template <>
struct Tr<Wide> {
  static Wide make(int x) { return Wide{x * 0.5, x}; }
  static int
  get(Wide const & x)
  {
    return x.a == x.v * 0.5 ? x.v : -998;
  }
};
template <>
struct Tr<um2::Vector<int>> { // nested vector; value x <-> {x, x+1, ... } of x%3 elements + marker
  static um2::Vector<int>
  make(int x)
  {
    um2::Vector<int> r;
    if (x == 0) {
      return r;
    }
    for (int i = 0; i < 1 + x % 3; ++i) {
      r.push_back(x + i);
    }
    return r;
  }
  static int
  get(um2::Vector<int> const & v)
  {
    if (v.empty()) {
      return 0;
    }
    int const x = v[0];
    if (v.size() != 1 + x % 3) {
      return -997;
    }
    for (int i = 0; i < v.size(); ++i) {
      if (v[i] != x + i) {
        return -996;
      }
    }
    return x;
  }
};
template <>
struct Tr<um2::String> { // short and long strings alternate
  static um2::String
  make(int x)
  {
    if (x == 0) {
      return {};
    }
    std::string s = std::to_string(x);
    if (x % 2 == 1) {
      s += std::string(30, static_cast<char>('a' + x % 26));
    }
    return um2::String(s.c_str());
  }
  static int
  get(um2::String const & s)
  {
    if (s.size() == 0) {
      return 0;
    }
    int const x = atoi(s.data());
    std::string e = std::to_string(x);
    if (x % 2 == 1) {
      e += std::string(30, static_cast<char>('a' + x % 26));
    }
    return e == s.data() && static_cast<size_t>(s.size()) == e.size() ? x : -995;
  }
};

//------------------------------------------------------------------------------
// The model and the operations
//------------------------------------------------------------------------------
enum Op {
  PUSH,
  PUSH_MOVE,
  EMPLACE,
  PUSH_ALIAS_FRONT,
  EMPLACE_ALIAS_BACK,
  PUSH_ALIAS_BACK,
  POP,
  RESIZE_UP1,
  RESIZE_UP3,
  RESIZE_DOWN1,
  RESIZE_0,
  RESIZE_SAME,
  RESERVE_UP1,
  RESERVE_UP5,
  RESERVE_0,
  CLEAR,
  COPY_ASSIGN,
  COPY_SELF,
  MOVE_ASSIGN,
  MOVE_SELF,
  COPY_CTOR,
  MOVE_CTOR,
  ASSIGN_0,
  ASSIGN_1,
  ASSIGN_4,
  ASSIGN_FROM_OTHER_TAIL,
  LIST_ASSIGN_2,
  SET_FRONT,
  SET_BACK,
  SWAP,
  CTOR_N,
  CTOR_NV,
  CTOR_RANGE,
  CTOR_LIST,
  NUM_OPS
};
char const * const op_name[] = {
    "push",       "push_move",   "emplace",     "push_alias_front", "emplace_alias_back",
    "push_alias_back", "pop",    "resize+1",    "resize+3",         "resize-1",
    "resize0",    "resize_same", "reserve+1",   "reserve+5",        "reserve0",
    "clear",      "copy_assign", "copy_self",   "move_assign",      "move_self",
    "copy_ctor",  "move_ctor",   "assign0",     "assign1",          "assign4",
    "assign_tail","list_assign2","set_front",   "set_back",         "swap",
    "ctor_n",     "ctor_nv",     "ctor_range",  "ctor_list"};

template <class T>
struct World {
  um2::Vector<T> v[2];
  std::vector<int> r[2];
  bool ok = true;

  // Returns false if the operation is not enabled in this state
  bool
  apply(int op, int i, int val)
  {
    using X = Tr<T>;
    int const j = 1 - i;
    auto & a = v[i];
    auto & b = v[j];
    auto & ra = r[i];
    auto & rb = r[j];
    auto const cap0 = a.capacity();
    auto const * const data0 = a.data();
    auto const size0 = a.size();
    bool grows = false;    // an operation that must not shrink capacity
    bool in_place = false; // must not move elements when capacity suffices
    bool same_cap = false;
    switch (op) {
    case PUSH: {
      T const x = X::make(val);
      a.push_back(x);
      ra.push_back(val);
      grows = in_place = true;
      if (X::get(x) != val) {
        mc::fail("source-changed", "push_back(const &) changed its argument");
      }
      break;
    }
    case PUSH_MOVE:
      a.push_back(X::make(val));
      ra.push_back(val);
      grows = in_place = true;
      break;
    case EMPLACE:
      a.emplace_back(X::make(val));
      ra.push_back(val);
      grows = in_place = true;
      break;
    case PUSH_ALIAS_FRONT:
      if (ra.empty()) {
        return false;
      }
      a.push_back(a.front());
      ra.push_back(ra.front());
      grows = in_place = true;
      break;
    case EMPLACE_ALIAS_BACK:
      if (ra.empty()) {
        return false;
      }
      a.emplace_back(a.back());
      ra.push_back(ra.back());
      grows = in_place = true;
      break;
    case PUSH_ALIAS_BACK: {
      if (ra.empty()) {
        return false;
      }
      T const & last = a[a.size() - 1];
      a.push_back(last);
      ra.push_back(ra.back());
      grows = in_place = true;
      break;
    }
    case POP:
      if (ra.empty()) {
        return false;
      }
      a.pop_back();
      ra.pop_back();
      same_cap = true;
      break;
    case RESIZE_UP1:
    case RESIZE_UP3: {
      int const n = static_cast<int>(ra.size()) + (op == RESIZE_UP1 ? 1 : 3);
      a.resize(n);
      ra.resize(static_cast<size_t>(n), 0);
      grows = in_place = true;
      break;
    }
    case RESIZE_DOWN1:
      if (ra.empty()) {
        return false;
      }
      a.resize(static_cast<int>(ra.size()) - 1);
      ra.pop_back();
      same_cap = true;
      break;
    case RESIZE_0:
      a.resize(0);
      ra.clear();
      same_cap = true;
      break;
    case RESIZE_SAME:
      a.resize(static_cast<int>(ra.size()));
      same_cap = true;
      break;
    case RESERVE_UP1:
    case RESERVE_UP5: {
      int const n = a.capacity() + (op == RESERVE_UP1 ? 1 : 5);
      a.reserve(n);
      MC_CHECK(a.capacity() >= n, "reserve", "capacity %d after reserve(%d)", a.capacity(), n);
      grows = true;
      break;
    }
    case RESERVE_0:
      // Every request that the capacity already satisfies
      for (int n = 0; n <= cap0; ++n) {
        a.reserve(n);
        MC_CHECK(a.capacity() == cap0, "reserve", "reserve(%d) changed capacity %d -> %d", n, cap0,
                 a.capacity());
      }
      same_cap = true;
      break;
    case CLEAR:
      a.clear();
      ra.clear();
      same_cap = true;
      break;
    case COPY_ASSIGN:
      a = b;
      ra = rb;
      break;
    case COPY_SELF: {
      auto & alias = a;
      a = alias;
      break;
    }
    case MOVE_ASSIGN:
      a = um2::move(b);
      ra = rb;
      rb.clear();
      break;
    case MOVE_SELF: {
      auto & alias = a;
      a = um2::move(alias);
      break;
    }
    case COPY_CTOR: {
      um2::Vector<T> t(b);
      MC_CHECK(t.size() == static_cast<int>(rb.size()), "copy-ctor", "size %d", t.size());
      if (!rb.empty()) {
        t[0] = X::make(val); // must not write through to b
      }
      a = um2::move(t);
      ra = rb;
      if (!ra.empty()) {
        ra[0] = val;
      }
      break;
    }
    case MOVE_CTOR: {
      um2::Vector<T> t(um2::move(a));
      MC_CHECK(a.empty() && a.size() == 0, "moved-from", "size %d after move", a.size());
      a.push_back(X::make(val)); // a moved-from vector is usable
      t.push_back(X::make(val + 1));
      b = um2::move(t);
      rb = ra;
      rb.push_back(val + 1);
      ra.assign(1, val);
      break;
    }
    case ASSIGN_0:
    case ASSIGN_1:
    case ASSIGN_4: {
      int const n = op == ASSIGN_0 ? 0 : (op == ASSIGN_1 ? 1 : 4);
      std::vector<T> src;
      std::vector<int> rs;
      for (int k = 0; k < n; ++k) {
        src.push_back(X::make(val + k));
        rs.push_back(val + k);
      }
      T const * const p = src.data();
      a.assign(p, p + n);
      ra = rs;
      break;
    }
    case ASSIGN_FROM_OTHER_TAIL: {
      if (rb.size() < 2) {
        return false;
      }
      a.assign(b.cbegin() + 1, b.cend());
      ra.assign(rb.begin() + 1, rb.end());
      break;
    }
    case LIST_ASSIGN_2:
      a = {X::make(val), X::make(val + 1)};
      ra = {val, val + 1};
      break;
    case SET_FRONT:
      if (ra.empty()) {
        return false;
      }
      a.front() = X::make(val);
      ra.front() = val;
      same_cap = true;
      break;
    case SET_BACK:
      if (ra.empty()) {
        return false;
      }
      a[a.size() - 1] = X::make(val);
      ra.back() = val;
      same_cap = true;
      break;
    case SWAP:
    {
      um2::Vector<T> t(um2::move(a));
      a = um2::move(b);
      b = um2::move(t);
      ra.swap(rb);
    }
      break;
    case CTOR_N: {
      um2::Vector<T> t(3);
      a = um2::move(t);
      ra.assign(3, 0);
      break;
    }
    case CTOR_NV: {
      T const x = X::make(val);
      um2::Vector<T> t(2, x);
      a = um2::move(t);
      ra.assign(2, val);
      break;
    }
    case CTOR_RANGE: {
      // from the other vector's storage
      um2::Vector<T> t(b.cbegin(), b.cend());
      a = um2::move(t);
      ra = rb;
      break;
    }
    case CTOR_LIST: {
      um2::Vector<T> t = {X::make(val), X::make(val + 1), X::make(val + 2)};
      a = um2::move(t);
      ra = {val, val + 1, val + 2};
      break;
    }
    default:
      return false;
    }
    if (grows) {
      MC_CHECK(a.capacity() >= cap0, "capacity", "%s shrank capacity %d -> %d", op_name[op], cap0,
               a.capacity());
    }
    if (in_place && a.size() <= cap0 && size0 > 0) {
      MC_CHECK(a.data() == data0, "relocated", "%s moved elements although capacity sufficed",
               op_name[op]);
    }
    if (same_cap) {
      MC_CHECK(a.capacity() == cap0 && a.data() == data0, "capacity",
               "%s changed the buffer (capacity %d -> %d)", op_name[op], cap0, a.capacity());
    }
    return true;
  }

  template <class V>
  void
  compareOne(V & x, std::vector<int> const & e, char const * what)
  {
    auto const n = static_cast<int>(e.size());
    if (x.size() != n || x.empty() != e.empty() || x.capacity() < n ||
        x.end() - x.begin() != n || x.cend() - x.cbegin() != n || x.begin() != x.data() ||
        x.cbegin() != x.data()) {
      mc::fail("size", mc::fmt("%s: size %d (expected %d), capacity %d", what, x.size(), n,
                               x.capacity()));
      ok = false;
      return;
    }
    if (reinterpret_cast<uintptr_t>(x.data()) % alignof(T) != 0) {
      mc::fail("alignment", "misaligned storage");
    }
    for (int k = 0; k < n; ++k) {
      int const g = Tr<T>::get(x[k]);
      if (g != e[static_cast<size_t>(k)]) {
        mc::fail("element", mc::fmt("%s: element %d is %d, expected %d", what, k, g,
                                    e[static_cast<size_t>(k)]));
        ok = false;
        return;
      }
    }
    if (n > 0 && (Tr<T>::get(x.front()) != e.front() || Tr<T>::get(x.back()) != e.back() ||
                  &x.front() != &x[0] || &x.back() != &x[n - 1])) {
      mc::fail("front-back", what);
      ok = false;
    }
  }

  void
  compare()
  {
    for (int i = 0; i < 2; ++i) {
      compareOne(v[i], r[i], i == 0 ? "v0" : "v1");
      um2::Vector<T> const & c = v[i];
      compareOne(c, r[i], i == 0 ? "const v0" : "const v1");
    }
    if (!ok) {
      return;
    }
    auto const & a = v[0];
    auto const & b = v[1];
    MC_CHECK((a == b) == (r[0] == r[1]) && (a != b) == (r[0] != r[1]), "equality",
             "== or != disagrees");
    if constexpr (!std::is_same_v<T, um2::Vector<int>> && !std::is_same_v<T, um2::String>) {
      MC_CHECK((a < b) == (r[0] < r[1]) && (a > b) == (r[0] > r[1]) && (a <= b) == (r[0] <= r[1]) &&
                   (a >= b) == (r[0] >= r[1]),
               "ordering", "relational operator disagrees");
    }
  }

  mc::u64
  hash() const
  {
    mc::u64 h = 7;
    for (int i = 0; i < 2; ++i) {
      h = mc::hash(h, r[i].size());
      h = mc::hash(h, static_cast<mc::u64>(v[i].capacity()));
      for (int x : r[i]) {
        h = mc::hash(h, static_cast<mc::u64>(x));
      }
    }
    return h;
  }
};

template <class T>
void
runSeq(std::vector<int> const & ops, std::vector<int> const & who)
{
  int64_t const blocks0 = mc::live_blocks.load();
  live_objs = 0;
  bad_obj = false;
  std::string text;
  {
    World<T> w;
    for (size_t s = 0; s < ops.size(); ++s) {
      if (!w.apply(ops[s], who[s], 11 + 10 * static_cast<int>(s))) {
        return; // not enabled: the same history without this step is another case
      }
      mc::transition();
    }
    w.compare();
    mc::state(w.hash());
  }
  auto const describe = [&] {
    std::string d;
    for (size_t s = 0; s < ops.size(); ++s) {
      d += mc::fmt("%s%s(v%d)", s ? " " : "", op_name[ops[s]], who[s]);
    }
    return d;
  };
  if (live_objs != 0) {
    mc::fail("lifetime", mc::fmt("%lld objects not destroyed exactly once: %s",
                                 static_cast<long long>(live_objs), describe().c_str()));
  }
  if (bad_obj) {
    mc::fail("lifetime", "object used outside its lifetime or after move: " + describe());
  }
  if (mc::live_blocks.load() != blocks0) {
    mc::fail("leak", mc::fmt("%lld heap blocks leaked: %s",
                             static_cast<long long>(mc::live_blocks.load() - blocks0),
                             describe().c_str()));
  }
  mc::trace();
  if (mc::cur_idx > 5000) {
    mc::sample(describe());
  }
}

// All sequences of length 1..depth over the alphabet of (op, vector)
template <class T>
void
addSpace(std::string const & name, std::vector<std::pair<int, int>> const & alphabet, int depth)
{
  auto const k = static_cast<mc::u64>(alphabet.size());
  mc::u64 n = 0;
  for (int d = 1; d <= depth; ++d) {
    n += mc::ipow(k, static_cast<mc::u64>(d));
  }
  mc::space(name, n, [alphabet, k](mc::u64 idx) {
    mc::u64 d = 1;
    while (idx >= mc::ipow(k, d)) {
      idx -= mc::ipow(k, d);
      ++d;
    }
    std::vector<int> ops;
    std::vector<int> who;
    ops.reserve(d);
    who.reserve(d);
    for (mc::u64 s = 0; s < d; ++s) {
      auto const & a = alphabet[idx % k];
      idx /= k;
      ops.push_back(a.first);
      who.push_back(a.second);
    }
    runSeq<T>(ops, who);
  });
}

void
setup()
{
  std::vector<std::pair<int, int>> full; // every operation on both vectors
  for (int o = 0; o < NUM_OPS; ++o) {
    full.emplace_back(o, 0);
    full.emplace_back(o, 1);
  }
  // growth-centred alphabet for deeper histories
  std::vector<std::pair<int, int>> const grow = {
      {PUSH, 0},        {PUSH_ALIAS_FRONT, 0}, {EMPLACE_ALIAS_BACK, 0}, {POP, 0},
      {RESIZE_UP3, 0},  {RESERVE_UP1, 0},      {COPY_ASSIGN, 1},        {MOVE_ASSIGN, 0},
      {RESIZE_DOWN1, 0}};
  bool const t = mc::thorough();
  addSpace<Obj>("tracked/all-ops", full, t ? 4 : 3);
  addSpace<int>("int/all-ops", full, t ? 4 : 3);
  addSpace<Wide>("aligned/all-ops", full, 3);
  addSpace<um2::String>("string/all-ops", full, 3);
  addSpace<um2::Vector<int>>("nested/all-ops", full, 3);
  addSpace<int8_t>("int8/all-ops", full, 2);
  addSpace<Obj>("tracked/growth", grow, t ? 8 : 6);
  addSpace<int>("int/growth", grow, t ? 8 : 6);
}

} // namespace

MC_MAIN(setup)
