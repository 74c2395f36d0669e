// C29: groups and colours of CAD models through write and open.
#include "cad.hpp"

#include <filesystem>

namespace
{
using namespace cad;

// What is known about an entity, by where it is and how large it is
struct Info {
  std::multiset<std::string> groups;
  std::array<int, 4> color{};
  bool
  operator==(Info const & o) const
  {
    return groups == o.groups && color == o.color;
  }
};
using Key = std::array<long, 8>;
using Snapshot = std::multimap<Key, Info>;

Key
keyOf(int dim, int tag)
{
  double b[6];
  gmm::getBoundingBox(dim, tag, b[0], b[1], b[2], b[3], b[4], b[5]);
  Key k{};
  k[0] = dim;
  for (size_t i = 0; i < 6; ++i) {
    k[i + 1] = std::lround(b[i] * 1000);
  }
  k[7] = dim == 0 ? 0 : std::lround(mass(dim, tag) * 1000);
  return k;
}

Snapshot
snapshot()
{
  Snapshot s;
  Pairs all;
  gmm::getEntities(all);
  for (auto const & e : all) {
    Info x;
    std::vector<int> p;
    gmm::getPhysicalGroupsForEntity(e.first, e.second, p);
    for (int t : p) {
      std::string n;
      gmm::getPhysicalName(e.first, t, n);
      x.groups.insert(n);
    }
    // colours of curves and points are not kept
    if (e.first >= 2) {
      x.color = color(e.first, e.second);
    }
    s.emplace(keyOf(e.first, e.second), x);
  }
  return s;
}

std::multiset<std::string>
groupList()
{
  std::multiset<std::string> r;
  Pairs g;
  gmm::getPhysicalGroups(g);
  for (auto const & x : g) {
    std::string n;
    gmm::getPhysicalName(x.first, x.second, n);
    std::vector<int> tags;
    gmm::getEntitiesForPhysicalGroup(x.first, x.second, tags);
    r.insert(mc::fmt("%d:%s:%zu", x.first, n.c_str(), tags.size()));
  }
  return r;
}

void
roundTrip(std::string const & w, std::string const & file = "m.brep")
{
  char const * const t = w.c_str();
  std::string const path = std::string(mc::scratch()) + "/" + file;
  std::filesystem::create_directories(std::filesystem::path(path).parent_path());
  gmm::occ::synchronize();
  auto const before = snapshot();
  auto const groups = groupList();
  mc::state(mc::hashStr(w));
  auto const mark = mc::outputSize();
  gm::write(path, true);
  gm::clear();
  gm::open(path, true);
  MC_CHECK(mc::outputSize() == mark, "message", "%s: %s", t, mc::outputFrom(mark).c_str());
  auto const after = snapshot();
  auto const groups2 = groupList();
  auto const show = [](std::multiset<std::string> const & m) {
    std::string s;
    for (auto const & x : m) {
      s += x + " ";
    }
    return s;
  };
  MC_CHECK(groups == groups2, "groups", "%s: groups %s, expected %s", t, show(groups2).c_str(), show(groups).c_str());
  MC_REQUIRE(before.size() == after.size(), "entities", "%s: %zu entities, expected %zu", t, after.size(), before.size());
  auto a = before.begin();
  auto b = after.begin();
  for (; a != before.end(); ++a, ++b) {
    mc::transition(1);
    MC_REQUIRE(a->first == b->first, "geometry", "%s: entities of dimension %ld differ", t, a->first[0]);
    MC_CHECK(a->second.groups == b->second.groups, "members", "%s: entity of dimension %ld at %ld %ld %ld is in %s, expected %s", t, a->first[0], a->first[1], a->first[2], a->first[3], show(b->second.groups).c_str(), show(a->second.groups).c_str());
    auto const & c = a->second.color;
    auto const & d = b->second.color;
    MC_CHECK(c == d, "colour", "%s: entity of dimension %ld at %ld %ld %ld is coloured %d %d %d %d, expected %d %d %d %d", t, a->first[0], a->first[1], a->first[2], a->first[3], d[0], d[1], d[2], d[3], c[0], c[1], c[2], c[3]);
  }
  mc::trace(1);
}

// Shapes that do not touch each other, each of another size
int
addShape(int dim, int k, int tag)
{
  double const x = 3.0 * (k % 5) + 20 * dim;
  double const y = 3.0 * (k / 5);
  double const s = 1 + 0.03125 * k;
  switch (dim) {
  case 0:
    return gmm::occ::addPoint(x, y, 1, 0, tag);
  case 1: {
    int const p = gmm::occ::addPoint(x, y, 2);
    int const q = gmm::occ::addPoint(x + s, y, 2);
    return gmm::occ::addLine(p, q, tag);
  }
  case 2:
    return gmm::occ::addRectangle(x, y, 0, s, 1, tag);
  default:
    return gmm::occ::addBox(x, y, 0, s, 1, 1, tag);
  }
}

std::array<std::array<int, 4>, 4> const COLORS = {{{1, 20, 255, 255}, {255, 0, 7, 128}, {0, 0, 0, 255}, {0, 0, 254, 0}}};

void
paint(int dim, std::vector<int> const & tags, int color, bool recursive)
{
  Pairs p;
  for (int t : tags) {
    p.emplace_back(dim, t);
  }
  auto const & c = COLORS[size_t(color)];
  gmm::setColor(p, c[0], c[1], c[2], c[3], recursive);
}

void
setup()
{
  um2::logger::level = 1;
  um2::logger::exit_on_error = false;
  static constexpr int N = 18;
  // one group of every size and pattern out of n shapes of each dimension
  mc::space("sizes", u64(4 * N * N * 3), [](u64 i) {
    mc::Dec d(i);
    int const dim = d.geti(4);
    int const pattern = d.geti(3);
    int const k = d.geti(N) + 1;
    int const n = d.geti(N) + 1;
    if (k > n || (!mc::thorough() && dim != 2 && n % 3 != 0)) {
      return;
    }
    fresh();
    std::vector<int> member;
    std::vector<int> rest;
    for (int s = 0; s < n; ++s) {
      addShape(dim, s, 100 + s);
      int const rank = pattern == 0 ? s : (pattern == 1 ? n - 1 - s : (s * 2 < n ? 2 * s : 2 * (n - 1 - s) + 1));
      (rank < k ? member : rest).push_back(100 + s);
    }
    gmm::occ::synchronize();
    gmm::addPhysicalGroup(dim, member, -1, "Material_Member");
    if (!rest.empty() && pattern != 1) {
      gmm::addPhysicalGroup(dim, rest, -1, "Rest");
    }
    if (dim >= 2) {
      paint(dim, member, int(i % 4), pattern == 0);
      if (!rest.empty() && pattern == 2) {
        paint(dim, rest, int(i / 4 % 4), false);
      }
    }
    roundTrip(mc::fmt("dimension %d, %d of %d shapes, pattern %d", dim, k, n, pattern));
  });
  // groups of every dimension side by side
  mc::space("dimensions", 16 * 4 * 4, [](u64 i) {
    mc::Dec d(i);
    int const mask = d.geti(16);
    int const size = std::array<int, 4>{1, 7, 8, 9}[size_t(d.geti(4))];
    int const colors = d.geti(4);
    fresh();
    for (int dim = 3; dim >= 0; --dim) {
      std::vector<int> tags;
      for (int s = 0; s < size; ++s) {
        tags.push_back(addShape(dim, s, -1));
      }
      gmm::occ::synchronize();
      if (((mask >> dim) & 1) != 0) {
        gmm::addPhysicalGroup(dim, tags, dim == 2 ? 40 : -1, mc::fmt("G %d", dim));
        gmm::addPhysicalGroup(dim, {tags[0]}, dim == 2 ? 7 : -1, "First");
      }
      if (dim >= 2 && ((colors >> (dim - 2)) & 1) != 0) {
        paint(dim, tags, dim - 2 + 2 * (mask % 2), mask % 3 == 0);
      }
    }
    roundTrip(mc::fmt("groups of dimensions %x of %d shapes, colours %d", mask, size, colors));
  });
  // any membership of three groups on three shapes, any order of the tags
  mc::space("memberships", 7 * 7 * 7 * 6 * 2, [](u64 i) {
    mc::Dec d(i);
    int const dim = 2 + d.geti(2);
    int perm[3] = {3, 5, 9};
    for (int p = d.geti(6); p > 0; --p) {
      std::next_permutation(perm, perm + 3);
    }
    fresh();
    for (int s = 0; s < 3; ++s) {
      addShape(dim, s, perm[s]);
    }
    gmm::occ::synchronize();
    std::string w = mc::fmt("dimension %d, tags %d %d %d, members", dim, perm[0], perm[1], perm[2]);
    for (int g = 0; g < 3; ++g) {
      int const m = d.geti(7) + 1;
      std::vector<int> tags;
      for (int s = 0; s < 3; ++s) {
        if (((m >> s) & 1) != 0) {
          tags.push_back(perm[s]);
        }
      }
      if (m == 3) {
        std::reverse(tags.begin(), tags.end());
      }
      // a lone name, one of several words, one with a number
      static char const * const NAMES[] = {"Material_UO2, 3.3%", "a b  c", "12 2 3"};
      gmm::addPhysicalGroup(dim, tags, 9 - 4 * g, NAMES[g]);
      paint(dim, {tags[0]}, g, g == 1 && dim == 2);
      w += mc::fmt(" %d", m);
    }
    roundTrip(w);
  });
  // every assignment of colours (or none) to five shapes
  mc::space("colours", mc::ipow(5, 5) * 2, [](u64 i) {
    mc::Dec d(i);
    int const dim = 2 + d.geti(2);
    if (dim == 3 && !mc::thorough() && i / 2 % 5 != 0) {
      return;
    }
    fresh();
    std::string w = mc::fmt("dimension %d, colours", dim);
    std::vector<int> col;
    for (int s = 0; s < 5; ++s) {
      addShape(dim, s, 20 - 3 * s);
      col.push_back(d.geti(5));
      w += mc::fmt(" %d", col.back());
    }
    gmm::occ::synchronize();
    for (int s = 0; s < 5; ++s) {
      if (col[size_t(s)] < 4) {
        paint(dim, {20 - 3 * s}, col[size_t(s)], i % 2 == 0);
      }
    }
    roundTrip(w);
  });
  // every combination of extreme components on one shape of two
  mc::space("components", 2 * 256, [](u64 i) {
    mc::Dec d(i);
    static int const V[] = {0, 1, 128, 255};
    int const dim = 2 + d.geti(2);
    int c[4];
    for (int & x : c) {
      x = V[d.geti(4)];
    }
    fresh();
    addShape(dim, 0, 4);
    addShape(dim, 1, 9);
    gmm::occ::synchronize();
    gmm::setColor({{dim, i % 4 < 2 ? 4 : 9}}, c[0], c[1], c[2], c[3], false);
    roundTrip(mc::fmt("dimension %d, colour %d %d %d %d", dim, c[0], c[1], c[2], c[3]));
  });
  // information on entities of a dimension whose tags are not in the order of the shapes they bound
  mc::space("unordered", 2, [](u64 i) {
    fresh();
    if (i == 0) {
      addShape(2, 0, 1);
      addShape(3, 0, 1);
      gmm::occ::synchronize();
      gmm::addPhysicalGroup(2, {1}, -1, "Flat");
      roundTrip("unordered: a rectangle in a group, then a box");
    } else {
      addShape(3, 0, 2);
      addShape(3, 1, 1);
      gmm::occ::synchronize();
      paint(3, {2}, 0, true);
      roundTrip("unordered: box 2 then box 1, box 2 and its faces painted");
    }
  });
  // shapes that share faces and edges, and names of files
  mc::space("fragments", 6 * 3, [](u64 i) {
    mc::Dec d(i);
    int const n = d.geti(6) + 1;
    static char const * const FILES[] = {"m.brep", "a.b.brep", "dir.x/m.brep"};
    std::string const file = FILES[d.geti(3)];
    fresh();
    Pairs obj;
    Pairs tool;
    for (int s = 0; s <= n; ++s) {
      gmm::occ::addRectangle(0.75 * s, 0.125 * s, 0, 1, 1 + 0.0625 * s, 30 - s);
      (s == n ? obj : tool).emplace_back(2, 30 - s);
    }
    std::sort(tool.begin(), tool.end());
    gmm::occ::synchronize();
    gmm::addPhysicalGroup(2, {30}, -1, "Material_A");
    gmm::addPhysicalGroup(2, {30 - n, 30}, -1, "Both");
    Pairs out;
    std::vector<Pairs> map;
    gmm::occ::groupPreservingFragment(obj, tool, out, map, {material("A", 200, 10, 3)});
    roundTrip(mc::fmt("%d fragmented rectangles as %s", n + 1, file.c_str()), file);
  });
}
} // namespace

MC_MAIN(setup)
