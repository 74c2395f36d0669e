// C17: XDMF/HDF5 round trips.
#include "soupref.hpp"

#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

namespace
{
using namespace soupref;

void
clean(std::string const & dir)
{
  // only ever called for directories this harness made below its scratch directory
  if (dir.rfind(mc::scratch() + "/", 0) != 0) {
    return;
  }
  DIR * d = opendir(dir.c_str());
  if (d == nullptr) {
    return;
  }
  while (dirent const * e = readdir(d)) {
    std::string const n = e->d_name;
    if (n == "." || n == "..") {
      continue;
    }
    std::string const p = dir + "/" + n;
    struct stat st {};
    lstat(p.c_str(), &st);
    if (S_ISDIR(st.st_mode)) {
      clean(p);
    } else {
      unlink(p.c_str());
    }
  }
  closedir(d);
  rmdir(dir.c_str());
}

struct Dir {
  std::string path;
  Dir() : path(mc::scratch() + "/x")
  {
    clean(path);
    mkdir(path.c_str(), 0755);
    if (chdir(path.c_str()) != 0) {
      mc::fail("scratch", path);
    }
  }
  ~Dir()
  {
    if (chdir("/") == 0) {
      clean(path);
    }
  }
};

int
entries(std::string const & dir)
{
  int n = 0;
  DIR * d = opendir(dir.c_str());
  while (d != nullptr) {
    dirent const * e = readdir(d);
    if (e == nullptr) {
      break;
    }
    n += e->d_name[0] == '.' ? 0 : 1;
  }
  if (d != nullptr) {
    closedir(d);
  }
  return n;
}

double const COORDS[] = {0, 1.0 / 3, -2.5, 1e-30, 12345678.9, -1e-8, 3e5, 0.1};

void
vertices(PolytopeSoup & a, Ref & r, int n, int zkind)
{
  for (int i = 0; i < n; ++i) {
    std::array<double, 3> p = {COORDS[i % 8] + i, COORDS[(i * 3 + 1) % 8], 0};
    if (zkind == 1) {
      p[2] = 0.5;
    } else if (zkind == 2) {
      p[2] = i == n - 1 ? -4e-3 : 0;
    } else if (zkind == 3) {
      p[2] = COORDS[(i + 2) % 8];
    }
    a.addVertex(p[0], p[1], p[2]);
    r.v.push_back(p);
  }
}

void
roundTrip(PolytopeSoup const & a, Ref const & r, std::string const & file, std::string const & w)
{
  a.write(str(file));
  compare(a, r, w + " (written soup)");
  PolytopeSoup b;
  u64 const before = mc::outputSize();
  b.read(str(file));
  MC_CHECK(mc::outputSize() == before, "read-error", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
  compare(b, r, w);
  PolytopeSoup const c(str(file).data());
  compare(c, r, w + " (constructor)");
  MC_CHECK(a.compare(b) == 0, "compare", "%s: %d", w.c_str(), a.compare(b));
  mc::transition(3);
  mc::trace();
}

bool
writable(Ref const & r)
{
  // single-type meshes of points or two-node lines are documented as unsupported by the writer
  if (r.e.empty()) {
    return false;
  }
  bool const same = std::all_of(r.e.begin(), r.e.end(), [&](auto const & e) { return e.first == r.e[0].first; });
  return !same || (r.e[0].first != VTKElemType::Vertex && r.e[0].first != VTKElemType::Line);
}

std::vector<double>
values(size_t n, int kind)
{
  std::vector<double> d;
  for (size_t i = 0; i < n; ++i) {
    d.push_back(kind == 0 ? 1.5 * double(i) : COORDS[(i + size_t(kind)) % 8] * (i % 2 == 0 ? 1 : -1));
  }
  return d;
}

void
addSets(PolytopeSoup & a, Ref & r, int kind, std::string const & w)
{
  std::vector<int> all;
  std::vector<int> last;
  for (int i = 0; i < int(r.e.size()); ++i) {
    all.push_back(i);
  }
  last.push_back(int(r.e.size()) - 1);
  switch (kind) {
  case 0:
    break;
  case 1:
    addSet(a, r, "fuel", all, {}, w);
    break;
  case 2:
    addSet(a, r, "fuel", last, values(1, 1), w);
    break;
  case 3:
    addSet(a, r, "Material_UO2", last, {}, w);
    addSet(a, r, "Material_ID", all, values(all.size(), 2), w);
    break;
  case 4: // not in alphabetical order
    addSet(a, r, "z", all, values(all.size(), 3), w);
    addSet(a, r, "a", all, values(all.size(), 0), w);
    addSet(a, r, "m", last, {}, w);
    break;
  default:
    addSet(a, r, "a name with spaces, a comma & <markup> \"quotes\"", all, values(all.size(), 1), w);
    addSet(a, r, "x", {0}, {-0.1}, w);
    break;
  }
}

// Every sequence of element types up to a length, z layouts and set structures
void
types(u64 idx, int len)
{
  mc::Dec q(idx);
  int const zkind = q.geti(4);
  int const sets = q.geti(6);
  PolytopeSoup a;
  Ref r;
  vertices(a, r, 9, zkind);
  std::string w = mc::fmt("z%d sets %d types", zkind, sets);
  for (int i = 0; i < len; ++i) {
    int const t = q.geti(7);
    w += mc::fmt(" %d", t);
    addElement(a, r, t);
  }
  if (!writable(r)) {
    return;
  }
  addSets(a, r, sets, w);
  Dir const dir;
  roundTrip(a, r, dir.path + "/mesh.xdmf", w);
  mc::state(mc::hashStr(w));
}

// Every number of elements, vertices and set sizes up to a bound
void
sizes(u64 idx)
{
  mc::Dec q(idx);
  int const kind = q.geti(7);
  int const n = 1 + q.geti(static_cast<int>(mc::pick(70, 300)));
  PolytopeSoup a;
  Ref r;
  vertices(a, r, 8 + n, n % 4);
  std::string const w = mc::fmt("%d elements kind %d", n, kind);
  for (int i = 0; i < n; ++i) {
    addElement(a, r, kind < 5 ? kind + 2 : (kind == 5 ? i % 7 : (i * i) % 5 + 2));
  }
  if (!writable(r)) {
    return;
  }
  std::vector<int> ids;
  for (int i = n % 3; i < n; i += 1 + n % 2) {
    ids.push_back(i);
  }
  if (!ids.empty()) {
    addSet(a, r, "part", ids, values(ids.size(), 1), w);
    addSet(a, r, "marked", ids, {}, w);
  }
  Dir const dir;
  roundTrip(a, r, dir.path + "/mesh.xdmf", w);
  mc::state(mc::hashStr(w));
}

// All families of three sets
void
families(u64 idx, int elems)
{
  mc::Dec q(idx);
  PolytopeSoup a;
  Ref r;
  vertices(a, r, 9, 0);
  for (int i = 0; i < elems; ++i) {
    addElement(a, r, 2 + i % 2);
  }
  std::string w = "sets";
  for (int s = 0; s < 3; ++s) {
    int const mask = q.geti(1 << elems);
    bool const data = q.get(2) == 1;
    std::vector<int> ids;
    for (int i = 0; i < elems; ++i) {
      if (((mask >> i) & 1) != 0) {
        ids.push_back(i);
      }
    }
    if (ids.empty()) {
      continue;
    }
    w += mc::fmt(" %x%s", unsigned(mask), data ? "d" : "");
    addSet(a, r, mc::fmt("s%d", (s * 2) % 3), ids, data ? values(ids.size(), s) : std::vector<double>{}, w);
  }
  Dir const dir;
  roundTrip(a, r, dir.path + "/mesh.xdmf", w);
  mc::state(mc::hashStr(w));
}

char const * const FILES[] = {"a",           "mesh",        "mesh.1",     "a.b.c",  "with space", "with:colon", "UPPER",    "x.h5",     "x.xdmf",
                              "name_that_is_longer_than_the_inline_buffer_of_a_string", "12",      "-dash",      "a=b,c",    "(1)",      "caf\xc3\xa9",
                              "abcdefghijklmnopqr", "abcdefghijklmnopqrstu", "abcdefghijklmnopq", "_",  "~", "a&b", "a<b>", "quote\"s"};
char const * const DIRS[] = {"", "./", "sub/", "sub.dir/", "./sub/deep/", "ABS/", "ABS/sub/", "sub/../sub/", "with space/", "sub//", "a:b/", "x.xdmf/"};
constexpr int NF = int(sizeof(FILES) / sizeof(FILES[0]));
constexpr int ND = int(sizeof(DIRS) / sizeof(DIRS[0]));

void
names(u64 idx)
{
  mc::Dec q(idx);
  std::string const file = FILES[q.geti(NF)];
  std::string d = DIRS[q.geti(ND)];
  Dir const dir;
  for (char const * sub : {"sub", "sub.dir", "sub/deep", "with space", "a:b", "x.xdmf"}) {
    mkdir((dir.path + "/" + sub).c_str(), 0755);
  }
  if (d.rfind("ABS/", 0) == 0) {
    d = dir.path + d.substr(3);
  }
  PolytopeSoup a;
  Ref r;
  vertices(a, r, 6, 0);
  addElement(a, r, 2);
  addElement(a, r, 3);
  addSets(a, r, 3, "names");
  std::string const w = "file " + std::string(DIRS[(idx / NF) % ND]) + file;
  int const before = entries(d.empty() ? "." : d);
  roundTrip(a, r, d + file + ".xdmf", w);
  MC_CHECK(entries(d.empty() ? "." : d) == before + 2, "files-made", "%s: %d", w.c_str(), entries(d.empty() ? "." : d) - before);
  struct stat st {};
  MC_CHECK(stat((d + file + ".xdmf").c_str(), &st) == 0 && stat((d + file + ".h5").c_str(), &st) == 0, "files-made", "%s", w.c_str());
  mc::state(mc::hashStr(w));
}

char const * const SETS[] = {"a", "Material_UO2", "with space", "dots.in.it", "a,b", "a&b", "<x>", "\"", "'", "#1", "_data", "data_", "a_dat", "geometry",
                             "0", "-1", "a:b", "long set name that does not fit the inline buffer", "\xc3\xa9", "a;b", "100%", "[0]", "x=y", "tab\there"};
constexpr int NS = int(sizeof(SETS) / sizeof(SETS[0]));

void
setNames(u64 idx)
{
  mc::Dec q(idx);
  int const i = q.geti(NS);
  int const j = q.geti(NS);
  int const data = q.geti(4);
  if (i == j) {
    return;
  }
  PolytopeSoup a;
  Ref r;
  vertices(a, r, 6, 0);
  addElement(a, r, 2);
  addElement(a, r, 2);
  std::string const w = mc::fmt("sets '%s' '%s' data %d", SETS[i], SETS[j], data);
  addSet(a, r, SETS[i], {0, 1}, (data & 1) != 0 ? values(2, 1) : std::vector<double>{}, w);
  addSet(a, r, SETS[j], {1}, (data & 2) != 0 ? values(1, 2) : std::vector<double>{}, w);
  Dir const dir;
  roundTrip(a, r, dir.path + "/mesh.xdmf", w);
  mc::state(mc::hashStr(w));
}

// Set names that are also used by the file layout itself
void
reserved(u64 idx)
{
  static char const * const pairs[][2] = {{"Geometry", "b"}, {"Topology", "b"}, {"x", "x_data"}, {"x_data", "x"}, {"a/b", "c"}};
  PolytopeSoup a;
  Ref r;
  vertices(a, r, 6, 0);
  addElement(a, r, 2);
  addElement(a, r, 2);
  std::string const w = mc::fmt("sets '%s' '%s'", pairs[idx][0], pairs[idx][1]);
  addSet(a, r, pairs[idx][0], {0, 1}, values(2, 1), w);
  addSet(a, r, pairs[idx][1], {0}, values(1, 1), w);
  Dir const dir;
  bool ok = true;
  try {
    roundTrip(a, r, dir.path + "/mesh.xdmf", w);
  } catch (...) {
    ok = false;
  }
  MC_CHECK(ok, "reserved-name", "%s: not written", w.c_str());
  mc::state(mc::hashStr(w));
}

// Histories of writes of different meshes to two files, each read back after every step
void
overwrite(u64 idx, int depth)
{
  mc::Dec q(idx);
  Dir const dir;
  int content[2] = {-1, -1};
  PolytopeSoup soups[4];
  Ref refs[4];
  for (int k = 0; k < 4; ++k) {
    vertices(soups[k], refs[k], k == 1 ? 40 : 9, k);
    for (int i = 0; i < (k == 1 ? 30 : 1 + k); ++i) {
      addElement(soups[k], refs[k], k == 2 ? i % 7 : 2 + k);
    }
    addSets(soups[k], refs[k], k == 3 ? 0 : k + 2, "overwrite");
  }
  std::string w = "writes";
  for (int s = 0; s < depth; ++s) {
    int const file = q.geti(2);
    int const k = q.geti(4);
    w += mc::fmt(" %d->%d", k, file);
    soups[k].write(str(dir.path + "/f" + std::to_string(file) + ".xdmf"));
    content[file] = k;
    for (int f = 0; f < 2; ++f) {
      if (content[f] >= 0) {
        PolytopeSoup b;
        b.read(str(dir.path + "/f" + std::to_string(f) + ".xdmf"));
        compare(b, refs[content[f]], w + mc::fmt(" file %d", f));
      }
    }
    mc::transition();
  }
  mc::trace();
  mc::state(mc::hashStr(w));
}

void
setup()
{
  um2::logger::exit_on_error = false;
  um2::logger::level = 2;
  for (int len = 1; len <= static_cast<int>(mc::pick(3, 4)); ++len) {
    mc::space(mc::fmt("types-%d", len), 24 * mc::ipow(7, len), [=](u64 i) { types(i, len); });
  }
  mc::space("sizes", 7 * mc::pick(70, 300), sizes);
  int const elems = static_cast<int>(mc::pick(2, 3));
  mc::space("families", mc::ipow(u64(2) << elems, 3), [=](u64 i) { families(i, elems); });
  mc::space("file-names", u64(NF) * ND, names);
  mc::space("set-names", u64(NS) * NS * 4, setNames);
  mc::space("reserved-set-names", 5, reserved);
  int const depth = static_cast<int>(mc::pick(3, 4));
  mc::space("overwrites", mc::ipow(8, depth), [=](u64 i) { overwrite(i, depth); });
}

} // namespace

MC_MAIN(setup)
