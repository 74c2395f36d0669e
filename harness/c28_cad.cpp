// C28: fragmenting, intersecting and cutting CAD shapes with groups and a material hierarchy.
#include "cad.hpp"

namespace
{
using namespace cad;

enum Op { fragment, intersect, cut };
char const * const OPS[] = {"fragment", "intersect", "cut"};

// An axis-aligned shape on a small lattice of unit cells
struct Box {
  int lo[3], hi[3];
  bool
  covers(int x, int y, int z) const
  {
    return lo[0] <= x && x < hi[0] && lo[1] <= y && y < hi[1] && lo[2] <= z && z < hi[2];
  }
};

std::vector<std::pair<int, int>>
spans(int n)
{
  std::vector<std::pair<int, int>> s;
  for (int a = 0; a < n; ++a) {
    for (int b = a + 1; b <= n; ++b) {
      s.emplace_back(a, b);
    }
  }
  return s;
}

Box
boxOf(int dim, int n, u64 k)
{
  auto const s = spans(n);
  Box b{};
  for (int d = 0; d < 3; ++d) {
    if (d < dim) {
      b.lo[d] = s[k % s.size()].first;
      b.hi[d] = s[k % s.size()].second;
      k /= s.size();
    } else {
      b.hi[d] = 1;
    }
  }
  return b;
}

struct Case {
  int dim = 2, n = 2;
  std::vector<Box> shapes;
  std::vector<int> role; // 0 object, 1 tool, 2 bystander
  std::vector<int> mat;  // 0 A, 1 B, 2 C, 3 none
  std::vector<int> hierarchy;
  std::vector<int> tags; // tag of each shape
  bool unsorted = false;
  Op op = fragment;
  std::string text;
};

um2::Material
matOf(int k)
{
  return material(std::string(1, char('A' + k)), 200 - 50 * k, 10 + 60 * k, 30 * k + 5);
}

// Hierarchies: none, the orders of A B C, and partial ones
std::vector<std::vector<int>> const HIER = {{}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {0}, {1, 0}, {2, 1}};

void
run(Case const & c)
{
  std::string const w = c.text;
  char const * const t = w.c_str();
  size_t const n = c.shapes.size();
  fresh();
  for (size_t i = 0; i < n; ++i) {
    Box const & b = c.shapes[i];
    if (c.dim == 2) {
      gmm::occ::addRectangle(b.lo[0], b.lo[1], 0, b.hi[0] - b.lo[0], b.hi[1] - b.lo[1], c.tags[i]);
    } else {
      gmm::occ::addBox(b.lo[0], b.lo[1], b.lo[2], b.hi[0] - b.lo[0], b.hi[1] - b.lo[1], b.hi[2] - b.lo[2], c.tags[i]);
    }
  }
  gmm::occ::synchronize();
  // groups
  std::vector<Names> want(n);
  auto const group = [&](std::string const & name, std::vector<size_t> const & ids) {
    if (ids.empty()) {
      return;
    }
    std::vector<int> g;
    for (size_t i : ids) {
      g.push_back(c.tags[i]);
      want[i].insert(name);
    }
    std::sort(g.begin(), g.end());
    if (c.unsorted) {
      std::reverse(g.begin(), g.end());
    }
    gmm::addPhysicalGroup(c.dim, g, -1, name);
  };
  // created so that order of names, tags and members differ
  std::vector<size_t> all;
  std::vector<size_t> ends;
  for (size_t i = 0; i < n; ++i) {
    all.push_back(i);
    group(mc::fmt("Only_%zu", n - i), {i});
  }
  ends = {0, n - 1};
  if (n > 2) {
    group("Ends", ends);
  }
  for (int m = 2; m >= 0; --m) {
    std::vector<size_t> ids;
    for (size_t i = 0; i < n; ++i) {
      if (c.mat[i] == m) {
        ids.push_back(i);
      }
    }
    group(mc::fmt("Material_%c", 'A' + m), ids);
  }
  group("All", all);
  // what the operation works on
  Pairs obj;
  Pairs tool;
  for (size_t i = 0; i < n; ++i) {
    if (c.role[i] < 2) {
      (c.role[i] == 0 ? obj : tool).emplace_back(c.dim, c.tags[i]);
    }
  }
  std::sort(obj.begin(), obj.end());
  std::sort(tool.begin(), tool.end());
  std::vector<um2::Material> hier;
  for (int m : c.hierarchy) {
    hier.push_back(matOf(m));
  }
  mc::state(mc::hashStr(w));
  Pairs out;
  std::vector<Pairs> map;
  if (c.op == fragment) {
    gmm::occ::groupPreservingFragment(obj, tool, out, map, hier);
  } else if (c.op == intersect) {
    gmm::occ::groupPreservingIntersect(obj, tool, out, map, hier);
  } else {
    gmm::occ::groupPreservingCut(obj, tool, out, map);
  }
  // every cell of the lattice
  auto const ents = entities(c.dim);
  std::set<int> bystanders;
  for (size_t i = 0; i < n; ++i) {
    if (c.role[i] == 2) {
      bystanders.insert(c.tags[i]);
      Names const got = groupsOf(c.dim, c.tags[i]);
      Names expect = want[i];
      // the hierarchy leaves an entity with a single material alone
      MC_CHECK(got == expect, "bystander", "%s: groups %s, expected %s", t, str(got).c_str(), str(expect).c_str());
    }
  }
  double total = 0;
  std::map<int, double> volume;
  std::map<int, Names> names;
  for (int e : ents) {
    names[e] = groupsOf(c.dim, e);
    volume[e] = mass(c.dim, e);
    if (bystanders.count(e) == 0) {
      total += volume[e];
    }
  }
  int cells = 0;
  std::map<int, int> hits;
  for (int x = 0; x < c.n; ++x) {
    for (int y = 0; y < c.n; ++y) {
      for (int z = 0; z < (c.dim == 3 ? c.n : 1); ++z) {
        bool in_obj = false;
        bool in_tool = false;
        Names expect;
        std::set<int> mats;
        for (size_t i = 0; i < n; ++i) {
          if (c.role[i] == 2 || !c.shapes[i].covers(x, y, z)) {
            continue;
          }
          (c.role[i] == 0 ? in_obj : in_tool) = true;
          expect.insert(want[i].begin(), want[i].end());
          if (c.mat[i] < 3) {
            mats.insert(c.mat[i]);
          }
        }
        bool const exists = c.op == fragment ? in_obj || in_tool : (c.op == intersect ? in_obj && in_tool : in_obj && !in_tool);
        int best = -1;
        if (c.op != cut) {
          for (int m : c.hierarchy) {
            if (mats.count(m) != 0) {
              if (best < 0) {
                best = m;
              } else {
                expect.erase(mc::fmt("Material_%c", 'A' + m));
              }
            }
          }
        }
        std::vector<int> found;
        for (int e : ents) {
          if (bystanders.count(e) == 0 && gmm::isInside(c.dim, e, {x + 0.5, y + 0.5, c.dim == 3 ? z + 0.5 : 0.0}) > 0) {
            found.push_back(e);
          }
        }
        mc::transition(1);
        if (!exists) {
          MC_CHECK(found.empty(), "left-over", "%s: cell (%d,%d,%d) is covered by %zu entities, expected none", t, x, y, z, found.size());
          continue;
        }
        ++cells;
        MC_REQUIRE(found.size() == 1, "cover", "%s: cell (%d,%d,%d) is covered by %zu entities, expected one", t, x, y, z, found.size());
        ++hits[found[0]];
        Names const & got = names[found[0]];
        MC_CHECK(got == expect, "groups", "%s: cell (%d,%d,%d) is in %s, expected %s", t, x, y, z, str(got).c_str(), str(expect).c_str());
        if (best >= 0) {
          auto const col = color(c.dim, found[0]);
          auto const m = matOf(best).getColor();
          MC_CHECK(col[0] == m.r() && col[1] == m.g() && col[2] == m.b() && col[3] == m.a(), "colour", "%s: cell (%d,%d,%d) is coloured %d %d %d %d", t, x, y, z, col[0], col[1], col[2], col[3]);
        }
      }
    }
  }
  MC_CHECK(std::abs(total - cells) < 1e-6, "amount", "%s: the result covers %.9g cells, expected %d", t, total, cells);
  for (auto const & [e, k] : hits) {
    MC_CHECK(std::abs(volume[e] - k) < 1e-6, "extent", "%s: entity %d measures %.9g and covers %d cells", t, e, volume[e], k);
  }
  mc::trace(1);
}

std::string
show(Case const & c)
{
  std::string s = OPS[c.op];
  for (size_t i = 0; i < c.shapes.size(); ++i) {
    Box const & b = c.shapes[i];
    s += mc::fmt(" [%d-%d %d-%d", b.lo[0], b.hi[0], b.lo[1], b.hi[1]);
    if (c.dim == 3) {
      s += mc::fmt(" %d-%d", b.lo[2], b.hi[2]);
    }
    s += mc::fmt(" %c %c #%d]", "otx"[c.role[i]], "ABC-"[c.mat[i]], c.tags[i]);
  }
  s += " order ";
  for (int m : c.hierarchy) {
    s += char('A' + m);
  }
  return s + (c.unsorted ? " unsorted" : "");
}

std::vector<int>
tagsOf(size_t n, int kind)
{
  static int const odd[4][5] = {{1, 2, 3, 4, 5}, {5, 4, 3, 2, 1}, {7, 3, 11, 2, 9}, {2, 9, 4, 30, 6}};
  return {odd[kind], odd[kind] + n};
}

void
setup()
{
  um2::logger::level = 1;
  um2::logger::exit_on_error = false;
  // two shapes: every pair on a 3x3 lattice, every operation
  mc::space("pairs", 36 * 36 * 3 * 2, [](u64 i) {
    mc::Dec d(i);
    Case c;
    c.op = Op(d.geti(3));
    c.n = 3;
    c.shapes = {boxOf(2, 3, d.get(36)), boxOf(2, 3, d.get(36))};
    c.role = {0, 1};
    c.mat = {0, 1};
    c.hierarchy = d.geti(2) == 0 ? HIER[1] : HIER[3];
    c.tags = tagsOf(2, int(i % 4));
    c.text = show(c);
    run(c);
  });
  // two shapes: every material of each and every hierarchy
  mc::space("pair-materials", 9 * 9 * 16 * 10 * 2, [](u64 i) {
    mc::Dec d(i);
    Case c;
    c.op = d.geti(2) == 0 ? fragment : intersect;
    c.shapes = {boxOf(2, 2, d.get(9)), boxOf(2, 2, d.get(9))};
    c.role = {0, 1};
    c.mat = {d.geti(4), d.geti(4)};
    c.hierarchy = HIER[size_t(d.geti(10))];
    c.tags = tagsOf(2, int(i / 2 % 4));
    c.text = show(c);
    run(c);
  });
  // three shapes: all arrangements, roles and operations
  static int const roles[6][3] = {{0, 1, 1}, {0, 0, 1}, {1, 0, 1}, {1, 0, 0}, {0, 1, 2}, {2, 0, 1}};
  static int const mats[6][3] = {{0, 1, 2}, {0, 0, 1}, {1, 0, 1}, {2, 3, 0}, {3, 1, 1}, {2, 1, 0}};
  mc::space("triples", 729 * 6 * 3 * mc::pick(1, 6), [](u64 i) {
    mc::Dec d(i);
    Case c;
    c.op = Op(d.geti(3));
    u64 const r = d.get(6);
    u64 const a = d.get(729);
    u64 const m = (a + r + d.get(6)) % 6;
    c.shapes = {boxOf(2, 2, a % 9), boxOf(2, 2, a / 9 % 9), boxOf(2, 2, a / 81)};
    c.role = {roles[r], roles[r] + 3};
    c.mat = {mats[m], mats[m] + 3};
    c.hierarchy = c.op == cut ? HIER[0] : HIER[(i / 3) % 7];
    c.tags = tagsOf(3, int(i / 7 % 4));
    c.unsorted = i / 5 % 2 == 1;
    c.text = show(c);
    run(c);
  });
  // three shapes: all materials and hierarchies on overlapping arrangements
  mc::space("triple-materials", 6 * 64 * 10 * 2, [](u64 i) {
    mc::Dec d(i);
    static u64 const arr[6][3] = {{8, 8, 8}, {2, 5, 8}, {7, 4, 1}, {2, 2, 7}, {6, 2, 5}, {0, 8, 4}};
    Case c;
    c.op = d.geti(2) == 0 ? fragment : intersect;
    u64 const a = d.get(6);
    c.shapes = {boxOf(2, 2, arr[a][0]), boxOf(2, 2, arr[a][1]), boxOf(2, 2, arr[a][2])};
    c.mat = {d.geti(4), d.geti(4), d.geti(4)};
    c.hierarchy = HIER[size_t(d.geti(10))];
    c.role = {roles[i % 4], roles[i % 4] + 3};
    c.tags = tagsOf(3, int(i / 3 % 4));
    c.unsorted = i / 11 % 2 == 1;
    c.text = show(c);
    run(c);
  });
  // five shapes
  mc::space("fives", 3 * 32 * mc::pick(12, 120), [](u64 i) {
    mc::Dec d(i);
    Case c;
    c.op = Op(d.geti(3));
    int const r = d.geti(32);
    u64 const k = d.get(120);
    c.n = 3;
    for (int s = 0; s < 5; ++s) {
      c.shapes.push_back(boxOf(2, 3, (k * 7 + u64(s) * (11 + k % 5) + u64(s * s)) % 36));
      c.role.push_back((r >> s) & 1);
      c.mat.push_back(int((k + u64(s) * 3 + u64(r)) % 4));
    }
    if (r == 0 || r == 31) {
      c.role[2] = 1 - c.role[2];
    }
    c.hierarchy = c.op == cut ? HIER[0] : HIER[k % 7];
    c.tags = tagsOf(5, int(k % 4));
    c.unsorted = k % 3 == 1;
    c.text = show(c);
    run(c);
  });
  // solids
  mc::space("solids", 27 * 27 * 3, [](u64 i) {
    mc::Dec d(i);
    Case c;
    c.dim = 3;
    c.op = Op(d.geti(3));
    c.shapes = {boxOf(3, 2, d.get(27)), boxOf(3, 2, d.get(27))};
    c.role = {0, 1};
    c.mat = {int(i % 2), int(i / 2 % 3)};
    c.hierarchy = c.op == cut ? HIER[0] : HIER[i % 7];
    c.tags = tagsOf(2, int(i / 3 % 4));
    c.text = show(c);
    run(c);
  });
}
} // namespace

MC_MAIN(setup)
