// C16: sets whose elements were given in any order, which only builds without assertions accept.
#include "soupref.hpp"

namespace
{
using namespace soupref;

std::vector<std::vector<int>>
sequences(int n)
{
  std::vector<std::vector<int>> all;
  std::vector<int> cur;
  auto rec = [&](auto const & self) -> void {
    if (!cur.empty()) {
      all.push_back(cur);
    }
    for (int i = 0; i < n; ++i) {
      if (std::find(cur.begin(), cur.end(), i) == cur.end()) {
        cur.push_back(i);
        self(self);
        cur.pop_back();
      }
    }
  };
  rec(rec);
  return all;
}

void
unsorted(u64 idx, std::vector<std::vector<int>> const & seqs, int n, int sets)
{
  mc::Dec d{idx};
  int const order = d.geti(2);
  PolytopeSoup a;
  for (int i = 0; i < 2 * n + 2; ++i) {
    a.addVertex(i / 2, i % 2, 0);
  }
  for (Int i = 0; i < n; ++i) {
    a.addElement(VTKElemType::Quad, {2 * i, 2 * i + 2, 2 * i + 3, 2 * i + 1});
  }
  std::vector<Set> want;
  std::string w;
  for (int s = 0; s < sets; ++s) {
    bool const with_data = d.geti(2) == 1;
    auto const & ids = seqs[size_t(d.geti(int(seqs.size())))];
    Set x{mc::fmt("s%d", order == 0 ? s : sets - s), ids, {}};
    w += " " + x.name + (with_data ? "d" : "") + ":";
    for (int const i : ids) {
      w += mc::fmt("%d", i);
      if (with_data) {
        x.data.push_back(10.0 * (s + 1) + i);
      }
    }
    Int const got = a.addElset(str(x.name), ints(x.ids), floats(x.data));
    MC_REQUIRE(got == Int(s), "add", "%s", w.c_str());
    want.push_back(x);
  }
  a.sortElsets();
  std::sort(want.begin(), want.end(), [](Set const & x, Set const & y) { return x.name < y.name; });
  MC_REQUIRE(a.numElsets() == Int(want.size()), "sets", "%s", w.c_str());
  for (size_t s = 0; s < want.size(); ++s) {
    um2::String name;
    um2::Vector<Int> ids;
    um2::Vector<Float> data;
    a.getElset(Int(s), name, ids, data);
    MC_CHECK(std::string(name.data()) == want[s].name, "sorted-name", "%s set %zu", w.c_str(), s);
    auto sorted = want[s].ids;
    std::sort(sorted.begin(), sorted.end());
    MC_REQUIRE(ids.size() == Int(sorted.size()) && data.size() == Int(want[s].data.size()), "sorted-size", "%s set %zu", w.c_str(), s);
    for (size_t i = 0; i < sorted.size(); ++i) {
      MC_CHECK(ids[Int(i)] == sorted[i], "sorted-ids", "%s set %zu element %zu: %d expected %d", w.c_str(), s, i, int(ids[Int(i)]), sorted[i]);
      if (!want[s].data.empty()) {
        double const v = std::floor(want[s].data[0] / 10.0) * 10.0 + sorted[i];
        MC_CHECK(data[Int(i)] == v, "sorted-data", "%s set %zu element %d: %g expected %g", w.c_str(), s, sorted[i], double(data[Int(i)]), v);
      }
    }
    PolytopeSoup sub;
    a.getSubset(name, sub);
    MC_CHECK(sub.numElements() == Int(sorted.size()), "sorted-subset", "%s set %zu", w.c_str(), s);
  }
  mc::state(mc::hashStr(w));
  mc::transition(u64(sets) + 1);
  mc::trace();
}

void
setup()
{
  um2::logger::exit_on_error = false;
  um2::logger::level = 1;
  auto const one = sequences(5);
  auto const two = sequences(int(mc::pick(4, 5)));
  int const n = int(mc::pick(4, 5));
  mc::space("one-set", 4 * one.size(), [=](u64 i) { unsorted(i, one, 5, 1); });
  mc::space("two-sets", 2 * mc::ipow(2 * two.size(), 2), [=](u64 i) { unsorted(i, two, n, 2); });
}
} // namespace

MC_MAIN(setup)
