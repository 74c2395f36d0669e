// C18: Abaqus and VTK files of the supported subset are read as what they say.
#include "soupref.hpp"

#include <unistd.h>

namespace
{
using namespace soupref;

void
save(std::string const & path, std::string const & text)
{
  FILE * f = fopen(path.c_str(), "wb");
  if (f == nullptr) {
    mc::fail("scratch", path);
    return;
  }
  fwrite(text.data(), 1, text.size(), f);
  fclose(f);
}

double const VALUES[] = {0, 1, -1, 0.5, 1.0 / 3, -2.5e-7, 6.02e23, 123456.789, 1e-30, -40, 0.1, 7};

std::string
number(double x, int style)
{
  switch (style) {
  case 0:
    return mc::fmt("%.17g", x);
  case 1:
    return mc::fmt("%.16E", x);
  case 2:
    return mc::fmt("%+.16e", x);
  default: {
    std::string s = mc::fmt("%.17g", x); // without the zero before the point
    if (s.rfind("0.", 0) == 0) {
      s = s.substr(1);
    } else if (s.rfind("-0.", 0) == 0) {
      s = "-" + s.substr(2);
    } else if (s.find_first_of(".e") == std::string::npos) {
      s += ".";
    }
    return s;
  }
  }
}

int const CPS[] = {3, 4, 6, 8};
int
typeOf(int k)
{
  return k == 0 ? 2 : (k == 1 ? 3 : (k == 2 ? 5 : 6));
}

void
reference(Ref & r, int nv, std::vector<int> const & kinds)
{
  for (int i = 0; i < nv; ++i) {
    r.v.push_back({VALUES[i % 12] + (i >= 12 ? i : 0), VALUES[(i * 5 + 3) % 12], VALUES[(i * 7 + 1) % 12]});
  }
  for (int k : kinds) {
    std::vector<int> c;
    int const n = CPS[k];
    for (int j = 0; j < n; ++j) {
      c.push_back((int(r.e.size()) * 3 + j * 2 + (j * 2 >= nv && nv % 2 == 0 ? 1 : 0)) % nv);
    }
    r.e.push_back({TYPES[typeOf(k)], c});
  }
}

struct Style {
  int heading = 1;   // none, plain, with comments
  int comments = 0;  // bits: between sections, inside nodes, inside elements, inside sets, at the end
  int num = 0;       // number style
  int space = 0;     // ", " "," " ,  " (and trailing blanks)
  int split = 0;     // sections: by type runs, one per element, sets after each element section
  int per_line = 10; // set ids per line
  int end = 0;       // set lines end with ", " "," or nothing
  bool newline = true;
};

std::string
abaqus(Ref const & r, Style const & st, std::vector<int> const & kinds)
{
  std::string t;
  auto const comment = [&](int bit, char const * text) {
    if (((st.comments >> bit) & 1) != 0) {
      t += text;
      t += "\n";
    }
  };
  if (st.heading == 2) {
    t += "** written by hand\n**\n";
  }
  if (st.heading >= 1) {
    t += "*Heading\n a mesh\n";
  }
  comment(0, "** nodes follow");
  char const * const sep = st.space == 0 ? ", " : (st.space == 1 ? "," : ",   ");
  char const * const tail = st.space == 2 ? "  " : "";
  t += "*NODE\n";
  for (size_t i = 0; i < r.v.size(); ++i) {
    if (i > 0 && i % 2 == 0) {
      comment(1, "** a comment between nodes, 1, 2, 3");
    }
    t += std::to_string(i + 1) + sep + number(r.v[i][0], st.num) + sep + number(r.v[i][1], st.num) + sep + number(r.v[i][2], st.num) + tail + "\n";
  }
  size_t next_set = 0;
  auto const sets = [&](size_t available) {
    for (; next_set < r.s.size(); ++next_set) {
      auto const & s = r.s[next_set];
      if (size_t(s.ids.back()) >= available) {
        return;
      }
      comment(0, "** a set");
      t += "*ELSET,ELSET=" + s.name + "\n";
      for (size_t k = 0; k < s.ids.size(); ++k) {
        bool const last = k + 1 == s.ids.size() || int(k % size_t(st.per_line)) == st.per_line - 1;
        t += std::to_string(s.ids[k] + 1);
        if (!last) {
          t += sep;
        } else {
          t += st.end == 0 ? ", " : (st.end == 1 ? "," : "");
          t += "\n";
          if (k + 1 < s.ids.size()) {
            comment(3, "** set continues");
          }
        }
      }
    }
  };
  comment(0, "******* E L E M E N T S *************");
  for (size_t i = 0; i < r.e.size(); ++i) {
    bool const header = i == 0 || kinds[i] != kinds[i - 1] || st.split >= 1;
    if (header) {
      if (st.split == 2 && i > 0) {
        sets(i);
      }
      if (i > 0) {
        comment(0, "** next section");
      }
      t += "*ELEMENT, type=CPS" + std::to_string(CPS[kinds[i]]) + ", ELSET=Surface" + std::to_string(i + 1) + "\n";
    } else {
      comment(2, "**between elements");
    }
    t += std::to_string(i + 1);
    for (int k : r.e[i].second) {
      t += sep + std::to_string(k + 1);
    }
    t += tail;
    t += "\n";
  }
  sets(r.e.size());
  comment(4, "** end of file\n****");
  if (!st.newline && !t.empty()) {
    t.pop_back();
  }
  return t;
}

void
readBack(std::string const & text, char const * ext, Ref r, std::string const & w)
{
  std::string const path = mc::scratch() + "/mesh" + ext;
  save(path, text);
  PolytopeSoup a;
  u64 const before = mc::outputSize();
  a.read(str(path));
  MC_CHECK(mc::outputSize() == before, "read-error", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
  std::sort(r.s.begin(), r.s.end(), [](Set const & x, Set const & y) { return x.name < y.name; });
  compare(a, r, w);
  mc::transition();
  mc::trace();
  mc::state(mc::hashStr(text));
  unlink(path.c_str());
}

// Layout options crossed
void
layout(u64 idx)
{
  mc::Dec q(idx);
  Style st;
  st.comments = q.geti(32);
  st.heading = q.geti(3);
  st.split = q.geti(3);
  st.end = q.geti(3);
  int const lines = q.geti(3);
  st.per_line = lines == 0 ? 1 : (lines == 1 ? 2 : 10);
  st.newline = q.get(2) == 0;
  st.space = q.geti(3);
  st.num = q.geti(4);
  std::vector<int> const kinds = {0, 0, 1, 3, 2, 2};
  Ref r;
  reference(r, 12, kinds);
  r.s.push_back({"Material_UO2", {0, 1, 2}, {}});
  r.s.push_back({"A", {3}, {}});
  r.s.push_back({"Material_H2O", {0, 2, 3, 4, 5}, {}});
  std::string const w = mc::fmt("layout comments %x heading %d split %d end %d per line %d newline %d space %d numbers %d", unsigned(st.comments), st.heading,
                                st.split, st.end, st.per_line, int(st.newline), st.space, st.num);
  readBack(abaqus(r, st, kinds), ".inp", r, w);
  if (idx % 5000 == 77) {
    mc::sample(w);
  }
}

// All sequences of element types, and no, one or two sets
void
sections(u64 idx, int len)
{
  mc::Dec q(idx);
  Style st;
  st.split = q.geti(3);
  st.end = q.geti(3);
  int const sets = q.geti(4);
  st.comments = q.geti(2);
  std::vector<int> kinds;
  std::string w = mc::fmt("sections split %d end %d sets %d comments %d:", st.split, st.end, sets, st.comments);
  for (int i = 0; i < len; ++i) {
    kinds.push_back(q.geti(4));
    w += mc::fmt(" %d", CPS[kinds.back()]);
  }
  Ref r;
  reference(r, 9, kinds);
  if ((sets & 1) != 0) {
    r.s.push_back({"zz", {0}, {}});
  }
  if ((sets & 2) != 0) {
    std::vector<int> all;
    for (int i = 0; i < len; ++i) {
      all.push_back(i);
    }
    r.s.push_back({"Coarse_Cell_00000", all, {}});
  }
  readBack(abaqus(r, st, kinds), ".inp", r, w);
}

// Every subset of elements as a set, every line length
void
subsets(u64 idx, int elems)
{
  mc::Dec q(idx);
  int const mask = q.geti(1 << elems);
  Style st;
  st.per_line = 1 + q.geti(elems);
  st.end = q.geti(3);
  st.newline = q.get(2) == 0;
  st.space = q.geti(2);
  if (mask == 0) {
    return;
  }
  std::vector<int> const kinds(size_t(elems), 0);
  Ref r;
  reference(r, 5, kinds);
  Set s{"s", {}, {}};
  for (int i = 0; i < elems; ++i) {
    if (((mask >> i) & 1) != 0) {
      s.ids.push_back(i);
    }
  }
  r.s.push_back(s);
  r.s.push_back({"after", {elems - 1}, {}});
  readBack(abaqus(r, st, kinds), ".inp", r,
           mc::fmt("set %x per line %d end %d newline %d space %d", unsigned(mask), st.per_line, st.end, int(st.newline), st.space));
}

// Every number of nodes, elements and set members up to a bound (ids of one to four digits)
void
counts(u64 idx)
{
  mc::Dec q(idx);
  int const k = q.geti(4);
  Style st;
  st.end = q.geti(3);
  st.per_line = q.get(2) == 0 ? 10 : 16;
  int const n = 1 + q.geti(static_cast<int>(mc::pick(130, 1200)));
  std::vector<int> const kinds(size_t(n), k);
  Ref r;
  reference(r, n + 8, kinds);
  Set s{"all", {}, {}};
  Set odd{"odd", {}, {}};
  for (int i = 0; i < n; ++i) {
    s.ids.push_back(i);
    if (i % 2 == 0) {
      odd.ids.push_back(i);
    }
  }
  r.s = {odd, s};
  readBack(abaqus(r, st, kinds), ".inp", r, mc::fmt("%d elements CPS%d end %d per line %d", n, CPS[k], st.end, st.per_line));
}

//------------------------------------------------------------------------------
// VTK
//------------------------------------------------------------------------------

struct VStyle {
  int num = 0;
  int blank = 0;   // trailing blanks on lines: none, some
  int types = 0;   // types on one line, one per line, blank line before the data
  int per_line = 3;
  int gap = 1;     // blank lines between blocks of data
  bool newline = true;
  int float_type = 0;
};

std::string
vtk(Ref const & r, VStyle const & st)
{
  char const * const tail = st.blank == 1 ? "   " : "";
  std::string t = "# vtk DataFile Version 3.0\na mesh\nASCII\nDATASET UNSTRUCTURED_GRID\n";
  t += mc::fmt("POINTS %zu %s\n", r.v.size(), st.float_type == 0 ? "float" : "double");
  for (auto const & p : r.v) {
    t += number(p[0], st.num) + " " + number(p[1], st.num) + " " + number(p[2], st.num) + tail + "\n";
  }
  t += "\n";
  size_t len = 0;
  for (auto const & e : r.e) {
    len += e.second.size() + 1;
  }
  t += mc::fmt("CELLS %zu %zu\n", r.e.size(), len);
  for (auto const & e : r.e) {
    t += std::to_string(e.second.size());
    for (int k : e.second) {
      t += " " + std::to_string(k);
    }
    t += tail;
    t += "\n";
  }
  t += mc::fmt("\nCELL_TYPES %zu\n", r.e.size());
  for (size_t i = 0; i < r.e.size(); ++i) {
    t += std::to_string(int(r.e[i].first));
    t += st.types == 1 || i + 1 == r.e.size() ? "\n" : " ";
  }
  for (size_t k = 0; k < r.s.size(); ++k) {
    for (int g = 0; g < (k == 0 ? std::max(1, st.gap) : st.gap); ++g) {
      t += "\n";
    }
    if (k > 0 && st.gap == 0) {
      t += "\n"; // at least one blank line ends a block of data
    }
    auto const & s = r.s[k];
    bool const integer = std::all_of(s.data.begin(), s.data.end(), [](double x) { return x == std::floor(x) && std::abs(x) < 1e6; });
    t += mc::fmt("CELL_DATA %zu\nSCALARS %s %s%s\nLOOKUP_TABLE %s\n", r.e.size(), s.name.c_str(),
                 integer ? "int" : (st.float_type == 0 ? "float" : "double"), st.blank == 1 ? " 1" : "", k == 0 ? "default" : "table_1");
    for (size_t i = 0; i < s.data.size(); ++i) {
      t += integer ? mc::fmt("%d", int(s.data[i])) : number(s.data[i], st.num);
      bool const last = i + 1 == s.data.size() || int(i % size_t(st.per_line)) == st.per_line - 1;
      t += last ? std::string(tail) + "\n" : " ";
    }
  }
  if (!st.newline) {
    t.pop_back();
  }
  return t;
}

void
vtkReference(Ref & r, int nv, std::vector<int> const & kinds, int sets)
{
  // kinds index element sizes 1,2,3,4,6,8
  static int const ty[] = {0, 1, 2, 3, 5, 6};
  for (int i = 0; i < nv; ++i) {
    r.v.push_back({VALUES[i % 12] + (i >= 12 ? i : 0), VALUES[(i * 5 + 3) % 12], VALUES[(i * 7 + 1) % 12]});
  }
  for (int k : kinds) {
    std::vector<int> c;
    for (int j = 0; j < COUNT[ty[k]]; ++j) {
      c.push_back((int(r.e.size()) * 3 + j) % nv);
    }
    r.e.push_back({TYPES[ty[k]], c});
  }
  std::vector<int> ids;
  for (size_t i = 0; i < r.e.size(); ++i) {
    ids.push_back(int(i));
  }
  for (int s = 0; s < sets; ++s) {
    std::vector<double> d;
    for (int i : ids) {
      d.push_back(s % 2 == 0 ? VALUES[(i + 4 + s) % 12] : double(i - 2));
    }
    r.s.push_back({s == 0 ? "flux" : (s == 1 ? "A" : "power_density"), ids, d});
  }
}

void
vtkLayout(u64 idx)
{
  mc::Dec q(idx);
  VStyle st;
  st.num = q.geti(4);
  st.blank = q.geti(2);
  st.types = q.geti(2);
  st.per_line = 1 + q.geti(6);
  st.gap = q.geti(3);
  st.float_type = q.geti(2);
  int const sets = q.geti(4);
  st.newline = q.get(2) == 0;
  if (sets == 0 && !st.newline) {
    return;
  }
  std::vector<int> const kinds = {2, 3, 5, 4, 2, 3};
  Ref r;
  vtkReference(r, 12, kinds, sets);
  readBack(vtk(r, st), ".vtk", r,
           mc::fmt("vtk numbers %d blanks %d types %d per line %d gap %d float %d sets %d newline %d", st.num, st.blank, st.types, st.per_line, st.gap,
                   st.float_type, sets, int(st.newline)));
}

void
vtkCells(u64 idx, int len)
{
  mc::Dec q(idx);
  VStyle st;
  int const sets = q.geti(3);
  std::vector<int> kinds;
  std::string w = mc::fmt("vtk sets %d cells", sets);
  for (int i = 0; i < len; ++i) {
    kinds.push_back(q.geti(6));
    w += mc::fmt(" %d", kinds.back());
  }
  Ref r;
  vtkReference(r, 9, kinds, sets);
  readBack(vtk(r, st), ".vtk", r, w);
}

void
vtkCounts(u64 idx)
{
  mc::Dec q(idx);
  VStyle st;
  st.types = q.geti(2);
  st.per_line = 1 + 6 * q.geti(5);
  int const kind = q.geti(7);
  int const n = 1 + q.geti(static_cast<int>(mc::pick(130, 900)));
  std::vector<int> kinds;
  for (int i = 0; i < n; ++i) {
    kinds.push_back(kind < 6 ? kind : (i * i + i / 3) % 6);
  }
  Ref r;
  vtkReference(r, n + 9, kinds, 2);
  readBack(vtk(r, st), ".vtk", r, mc::fmt("vtk %d cells kind %d types %d per line %d", n, kind, st.types, st.per_line));
}

// Integers around every power of two: kept exactly, or reported when a floating point number cannot hold them
void
vtkIntegers(u64 idx)
{
  mc::Dec q(idx);
  int const power = q.geti(67);
  int const delta = q.geti(3) - 1;
  bool const negative = q.get(2) == 1;
  int const where = q.geti(3);
  __int128 const mag = (__int128(1) << power) + delta;
  std::string digits;
  for (__int128 m = mag; m > 0; m /= 10) {
    digits.insert(digits.begin(), char('0' + int(m % 10)));
  }
  std::string const value = digits.empty() ? "0" : (negative ? "-" : "") + digits;
  Ref r;
  vtkReference(r, 9, {2, 3, 2}, 0);
  std::vector<double> data = {5, -3, 8};
  data[size_t(where)] = double(negative ? -mag : mag);
  std::string t = vtk(r, VStyle());
  t += "\nCELL_DATA 3\nSCALARS count int\nLOOKUP_TABLE default\n";
  for (int i = 0; i < 3; ++i) {
    t += (i == where ? value : mc::fmt("%d", int(data[size_t(i)]))) + "\n";
  }
  std::string const w = mc::fmt("vtk integer %s as value %d", value.c_str(), where);
  r.s.push_back({"count", {0, 1, 2}, data});
  if (mag <= (__int128(1) << 52)) {
    readBack(t, ".vtk", r, w);
    return;
  }
  std::string const path = mc::scratch() + "/mesh.vtk";
  save(path, t);
  PolytopeSoup a;
  u64 const before = mc::outputSize();
  a.read(str(path));
  MC_CHECK(mc::outputSize() != before, "too-large", "%s: read without a message", w.c_str());
  mc::transition();
  mc::trace();
  mc::state(mc::hashStr(t));
  unlink(path.c_str());
}

void
setup()
{
  um2::logger::exit_on_error = false;
  um2::logger::level = 2;
  mc::space("abaqus-layout", u64(32) * 3 * 3 * 3 * 3 * 2 * 3 * 4, layout);
  for (int len = 1; len <= static_cast<int>(mc::pick(4, 6)); ++len) {
    mc::space(mc::fmt("abaqus-sections-%d", len), 72 * mc::ipow(4, len), [=](u64 i) { sections(i, len); });
  }
  int const elems = static_cast<int>(mc::pick(8, 12));
  mc::space("abaqus-subsets", (u64(1) << elems) * u64(elems) * 12, [=](u64 i) { subsets(i, elems); });
  mc::space("abaqus-counts", 24 * mc::pick(130, 1200), counts);
  mc::space("vtk-layout", u64(4) * 2 * 2 * 6 * 3 * 2 * 4 * 2, vtkLayout);
  for (int len = 1; len <= static_cast<int>(mc::pick(4, 6)); ++len) {
    mc::space(mc::fmt("vtk-cells-%d", len), 3 * mc::ipow(6, len), [=](u64 i) { vtkCells(i, len); });
  }
  mc::space("vtk-integers", 67 * 3 * 2 * 3, vtkIntegers);
  mc::space("vtk-counts", 70 * mc::pick(130, 900), vtkCounts);
}

} // namespace

MC_MAIN(setup)
