// C16: polytope soups under every edit history, and subset extraction.
#include "soupref.hpp"

namespace
{
using namespace soupref;

void
checkSubset(PolytopeSoup const & a, Ref const & r, size_t which, std::string const & w)
{
  PolytopeSoup sub;
  a.getSubset(str(r.s[which].name), sub);
  // element k of the subset is the k-th element of the set; its vertices have the same coordinates
  auto const & ids = r.s[which].ids;
  MC_REQUIRE(sub.numElements() == Int(ids.size()), "subset-elements", "%s subset %s: %d", w.c_str(), r.s[which].name.c_str(), int(sub.numElements()));
  std::map<int, int> old_of; // new vertex -> old vertex
  std::set<int> used;
  VTKElemType t{};
  um2::Vector<Int> conn;
  for (size_t i = 0; i < ids.size(); ++i) {
    auto const & e = r.e[size_t(ids[i])];
    sub.getElement(Int(i), t, conn);
    MC_REQUIRE(t == e.first && conn.size() == Int(e.second.size()), "subset-element", "%s subset %s element %zu", w.c_str(), r.s[which].name.c_str(), i);
    for (size_t k = 0; k < e.second.size(); ++k) {
      int const nv = int(conn[Int(k)]);
      MC_REQUIRE(nv >= 0 && nv < int(sub.numVertices()), "subset-conn", "%s subset %s element %zu", w.c_str(), r.s[which].name.c_str(), i);
      auto const it = old_of.emplace(nv, e.second[k]).first;
      MC_CHECK(it->second == e.second[k], "subset-conn", "%s subset %s element %zu corner %zu", w.c_str(), r.s[which].name.c_str(), i, k);
      used.insert(e.second[k]);
      auto const & p = sub.getVertex(nv);
      auto const & q = r.v[size_t(e.second[k])];
      MC_CHECK(std::abs(p[0] - q[0]) + std::abs(p[1] - q[1]) + std::abs(p[2] - q[2]) < 1e-12, "subset-geometry", "%s subset %s element %zu corner %zu",
               w.c_str(), r.s[which].name.c_str(), i, k);
    }
  }
  MC_CHECK(sub.numVertices() == Int(used.size()) && old_of.size() == used.size(), "subset-vertices", "%s subset %s: %d expected %zu", w.c_str(),
           r.s[which].name.c_str(), int(sub.numVertices()), used.size());
  // restriction of every other set
  std::vector<Set> want;
  for (size_t k = 0; k < r.s.size(); ++k) {
    if (k == which) {
      continue;
    }
    Set x{r.s[k].name, {}, {}};
    for (size_t i = 0; i < ids.size(); ++i) {
      auto const it = std::find(r.s[k].ids.begin(), r.s[k].ids.end(), ids[i]);
      if (it != r.s[k].ids.end()) {
        x.ids.push_back(int(i));
        if (!r.s[k].data.empty()) {
          x.data.push_back(r.s[k].data[size_t(it - r.s[k].ids.begin())]);
        }
      }
    }
    if (!x.ids.empty()) {
      want.push_back(x);
    }
  }
  MC_REQUIRE(sub.numElsets() == Int(want.size()), "subset-sets", "%s subset %s: %d sets expected %zu", w.c_str(), r.s[which].name.c_str(),
             int(sub.numElsets()), want.size());
  for (auto const & x : want) {
    um2::Vector<Int> i2;
    um2::Vector<Float> d2;
    sub.getElset(str(x.name), i2, d2);
    bool same = i2.size() == Int(x.ids.size()) && d2.size() == Int(x.data.size());
    for (size_t k = 0; same && k < x.ids.size(); ++k) {
      same = i2[Int(k)] == x.ids[k] && (x.data.empty() || d2[Int(k)] == x.data[k]);
    }
    MC_CHECK(same, "subset-set", "%s subset %s set %s", w.c_str(), r.s[which].name.c_str(), x.name.c_str());
  }
  mc::transition();
}

std::vector<int>
every(Ref const & r, int step, int first)
{
  std::vector<int> ids;
  for (int i = first; i < int(r.e.size()); i += step) {
    ids.push_back(i);
  }
  return ids;
}

std::vector<double>
values(std::vector<int> const & ids, double base)
{
  std::vector<double> d;
  for (int i : ids) {
    d.push_back(base - 0.5 * i);
  }
  return d;
}

void
append(Ref & a, Ref const & b0)
{
  Ref const b = b0;
  int const nv = int(a.v.size());
  int const ne = int(a.e.size());
  a.v.insert(a.v.end(), b.v.begin(), b.v.end());
  for (auto e : b.e) {
    for (int & k : e.second) {
      k += nv;
    }
    a.e.push_back(e);
  }
  for (auto s : b.s) {
    for (int & k : s.ids) {
      k += ne;
    }
    auto const it = std::find_if(a.s.begin(), a.s.end(), [&](Set const & x) { return x.name == s.name; });
    if (it == a.s.end()) {
      a.s.push_back(s);
    } else {
      it->ids.insert(it->ids.end(), s.ids.begin(), s.ids.end());
      it->data.insert(it->data.end(), s.data.begin(), s.data.end());
    }
  }
  if (!b.s.empty()) {
    std::sort(a.s.begin(), a.s.end(), [](Set const & x, Set const & y) { return x.name < y.name; });
  }
}

bool
oneSided(Ref const & a, Ref const & b)
{
  for (auto const & x : a.s) {
    for (auto const & y : b.s) {
      if (x.name == y.name && x.data.empty() != y.data.empty()) {
        return true;
      }
    }
  }
  return false;
}

int const OPS = 16;

// true if applied
bool
apply(int op, PolytopeSoup & a, Ref & ra, PolytopeSoup & b, Ref & rb, std::string & w)
{
  switch (op) {
  case 0:
    w += " +vertex";
    addVertices(a, ra, 1, false);
    break;
  case 1:
    w += " +3vertices";
    a.reserveMoreVertices(3);
    addVertices(a, ra, 3, true);
    break;
  case 2:
  case 3:
  case 4: {
    if (ra.v.empty()) {
      return false;
    }
    int const type = op == 2 ? 2 : (op == 3 ? 6 : int(ra.e.size()) % 7);
    w += mc::fmt(" +element%d", type);
    if (op == 3) {
      a.reserveMoreElements(TYPES[type], 2);
    }
    addElement(a, ra, type);
    break;
  }
  case 5:
    w += " +set b";
    addSet(a, ra, "b", every(ra, 2, 0), {}, w);
    break;
  case 6:
    w += " +set a data";
    addSet(a, ra, "a", every(ra, 1, int(ra.e.size()) / 2), values(every(ra, 1, int(ra.e.size()) / 2), 7), w);
    break;
  case 7: {
    std::string const name = "a longer set name, number " + std::to_string(ra.s.size());
    w += " +set long data";
    addSet(a, ra, name, every(ra, 1, 0), values(every(ra, 1, 0), -3), w);
    break;
  }
  case 8:
    w += " +set bad data";
    addSet(a, ra, "Z", every(ra, 1, 0), std::vector<double>(ra.e.size() + 1, 0.5), w);
    break;
  case 9: {
    w += " translate";
    um2::Point3<Float> d;
    d[0] = 0.5;
    d[1] = -1;
    d[2] = 4;
    a.translate(d);
    for (auto & p : ra.v) {
      p = {p[0] + 0.5, p[1] - 1, p[2] + 4};
    }
    break;
  }
  case 10:
    w += " sort";
    a.sortElsets();
    std::sort(ra.s.begin(), ra.s.end(), [](Set const & x, Set const & y) { return x.name < y.name; });
    break;
  case 11:
  case 12: {
    // the documented requirement for merging: sets sorted by name
    Ref const & other = op == 11 ? rb : ra;
    if (!other.s.empty() && (!ra.sorted() || !other.sorted())) {
      return false;
    }
    if (oneSided(ra, other)) {
      return false; // see the merge space
    }
    w += op == 11 ? " +=other" : " +=self";
    PolytopeSoup & result = op == 11 ? (a += b) : (a += a);
    MC_CHECK(&result == &a, "append-result", "%s", w.c_str());
    append(ra, other);
    break;
  }
  case 13:
    w += " swap";
    std::swap(a, b);
    std::swap(ra, rb);
    break;
  case 14: {
    w += " copy";
    PolytopeSoup c(a);
    b = c;
    rb = ra;
    break;
  }
  default:
    // unknown set: reported, output left alone
    w += " bad subset";
    PolytopeSoup sub;
    u64 const before = mc::outputSize();
    a.getSubset("no such set", sub);
    MC_CHECK(mc::outputSize() > before && sub.numVertices() == 0 && sub.numElements() == 0 && sub.numElsets() == 0, "subset-unknown", "%s", w.c_str());
    break;
  }
  return true;
}

void
start(int kind, PolytopeSoup & a, Ref & ra, PolytopeSoup & b, Ref & rb)
{
  std::string w;
  if (kind >= 1) {
    addVertices(a, ra, 8, false);
    addElement(a, ra, 2);
    addElement(a, ra, 3);
    addElement(a, ra, 2);
  }
  if (kind >= 2) {
    addVertices(b, rb, 5, true);
    addElement(b, rb, 3);
    addElement(b, rb, 4);
    addSet(b, rb, "a", {1}, {2.5}, w);
    addSet(b, rb, "b", {0, 1}, {}, w);
    addSet(b, rb, "c", {0}, {}, w);
  }
  if (kind >= 3) {
    addSet(a, ra, "c", {0, 2}, {}, w);
    addSet(a, ra, "d", {1, 2}, {9, 8}, w);
  }
}

void
history(u64 idx, int depth)
{
  mc::Dec q(idx);
  int const kind = q.geti(4);
  PolytopeSoup a;
  PolytopeSoup b;
  Ref ra;
  Ref rb;
  start(kind, a, ra, b, rb);
  std::string w = mc::fmt("start %d", kind);
  bool done = true;
  for (int i = 0; i < depth && done; ++i) {
    done = apply(q.geti(OPS), a, ra, b, rb, w);
    mc::transition();
  }
  if (!done) {
    return;
  }
  compare(a, ra, w);
  compare(b, rb, w + " (other)");
  for (size_t i = 0; i < ra.s.size(); ++i) {
    checkSubset(a, ra, i, w);
  }
  MC_CHECK((a.compare(b) == 0) == (ra == rb) && a.compare(a) == 0, "compare", "%s: %d", w.c_str(), a.compare(b));
  u64 h = 0;
  for (auto const & s : ra.s) {
    h = mc::hash(h, mc::hashStr(s.name) + s.ids.size() * 31 + s.data.size());
  }
  for (auto const & e : ra.e) {
    h = mc::hash(h, u64(e.first) * 97 + u64(e.second.back()));
  }
  mc::state(mc::hash(h, ra.v.size() * 1000 + rb.v.size()));
  mc::trace();
  if (idx % 1000 == 777) {
    mc::sample(w);
  }
}

// All families of sets over a small soup, then every subset and a merge with every other family
void
families(u64 idx, int elems, int sets)
{
  mc::Dec q(idx);
  PolytopeSoup a;
  Ref r;
  addVertices(a, r, 9, false);
  for (int i = 0; i < elems; ++i) {
    addElement(a, r, (i * 3 + 2) % 7);
    addVertices(a, r, 1, true);
  }
  std::string w = "sets";
  int const order = q.geti(2);
  for (int s = 0; s < sets; ++s) {
    int const mask = q.geti(1 << elems);
    int const with_data = q.geti(2);
    std::vector<int> ids;
    for (int i = 0; i < elems; ++i) {
      if (((mask >> i) & 1) != 0) {
        ids.push_back(i);
      }
    }
    if (ids.empty()) {
      return;
    }
    std::string const name = mc::fmt("s%d", order == 0 ? s : sets - s);
    w += mc::fmt(" %s:%x%s", name.c_str(), unsigned(mask), with_data != 0 ? "d" : "");
    addSet(a, r, name, ids, with_data != 0 ? values(ids, 3.25 * s) : std::vector<double>{}, w);
  }
  compare(a, r, w);
  for (size_t i = 0; i < r.s.size(); ++i) {
    checkSubset(a, r, i, w);
  }
  a.sortElsets();
  std::sort(r.s.begin(), r.s.end(), [](Set const & x, Set const & y) { return x.name < y.name; });
  compare(a, r, w + " sorted");
  for (size_t i = 0; i < r.s.size(); ++i) {
    checkSubset(a, r, i, w + " sorted");
  }
  PolytopeSoup c = a;
  c += a;
  Ref rc = r;
  append(rc, r);
  compare(c, rc, w + " doubled");
  for (size_t i = 0; i < rc.s.size(); ++i) {
    checkSubset(c, rc, i, w + " doubled");
  }
  mc::state(mc::hashStr(w));
  mc::transition(3);
  mc::trace();
}

// Merging equally named sets where only one side carries data
void
oneSidedMerge(u64 idx)
{
  bool const left = idx % 2 == 0;
  PolytopeSoup a;
  PolytopeSoup b;
  Ref ra;
  Ref rb;
  addVertices(a, ra, 4, false);
  addElement(a, ra, 2);
  addElement(a, ra, 3);
  addVertices(b, rb, 4, false);
  addElement(b, rb, 3);
  std::string const w = left ? "data on the left only" : "data on the right only";
  addSet(a, ra, "m", {0, 1}, left ? std::vector<double>{1, 2} : std::vector<double>{}, w);
  addSet(b, rb, "m", {0}, left ? std::vector<double>{} : std::vector<double>{3}, w);
  u64 const before = mc::outputSize();
  a += b;
  um2::Vector<Int> ids;
  um2::Vector<Float> data;
  a.getElset("m", ids, data);
  MC_CHECK(ids.size() == 3, "merge-ids", "%s", w.c_str());
  MC_CHECK(mc::outputSize() > before || data.empty() || data.size() == ids.size(), "one-sided-data", "%s: %d values for %d elements", w.c_str(),
           int(data.size()), int(ids.size()));
  mc::state(idx);
  mc::transition();
  mc::trace();
}

void
setup()
{
  um2::logger::exit_on_error = false;
  um2::logger::level = 1;
  int const depth = static_cast<int>(mc::pick(5, 6));
  mc::space("histories", 4 * mc::ipow(OPS, depth), [=](u64 i) { history(i, depth); });
  int const elems = static_cast<int>(mc::pick(4, 5));
  mc::space("families-1", 2 * mc::ipow(u64(2) << 8, 1), [=](u64 i) { families(i, 8, 1); });
  mc::space("families-2", 2 * mc::ipow(u64(2) << 5, 2), [=](u64 i) { families(i, 5, 2); });
  mc::space("families-3", 2 * mc::ipow(u64(2) << elems, 3), [=](u64 i) { families(i, elems, 3); });
  mc::space("families-many", 24, [=](u64 i) { // each number of sets
    PolytopeSoup a;
    Ref r;
    std::string const w = mc::fmt("%d sets", int(i));
    addVertices(a, r, 12, false);
    for (int k = 0; k < 12; ++k) {
      addElement(a, r, k % 7);
    }
    for (int k = 0; k < int(i); ++k) {
      auto const ids = every(r, 1 + k % 5, k % 7);
      addSet(a, r, mc::fmt("set %02d", (k * 7) % 24), ids, k % 2 == 0 ? values(ids, k) : std::vector<double>{}, w);
    }
    a.sortElsets();
    std::sort(r.s.begin(), r.s.end(), [](Set const & x, Set const & y) { return x.name < y.name; });
    for (int rep = 0; rep < 4; ++rep) {
      compare(a, r, w);
      for (size_t k = 0; k < r.s.size(); ++k) {
        checkSubset(a, r, k, w);
      }
      PolytopeSoup const b = a;
      Ref const rb = r;
      a += b;
      append(r, rb);
    }
    compare(a, r, w);
    mc::state(mc::hash(i, 5));
    mc::trace();
    mc::transition(4);
  });
  mc::space("merge-one-sided", 2, oneSidedMerge);
}

} // namespace

MC_MAIN(setup)
