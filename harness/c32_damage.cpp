// C32: mesh file pairs cut short at every byte or with a part missing.
#include "soupref.hpp"

#include <csignal>
#include <fstream>
#include <iterator>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>

namespace
{
using namespace soupref;

// A few small meshes: one element type, mixed types, sets with and without data, three dimensions
void
make(int kind, PolytopeSoup & a, Ref & r)
{
  double const h = kind == 3 ? 0.5 : 0;
  for (int i = 0; i < 9; ++i) {
    std::array<double, 3> const p = {double(i % 3) + 0.1, double(i / 3) - 1.0 / 3, h * i};
    a.addVertex(p[0], p[1], p[2]);
    r.v.push_back(p);
  }
  switch (kind) {
  case 0:
    addElement(a, r, 3);
    break;
  case 1:
    addElement(a, r, 2);
    addElement(a, r, 2);
    addSet(a, r, "fuel", {0, 1}, {}, "make");
    break;
  case 2:
    addElement(a, r, 2);
    addElement(a, r, 3);
    addElement(a, r, 6);
    addSet(a, r, "all", {0, 1, 2}, {1.5, -2.5, 1e-3}, "make");
    addSet(a, r, "last", {2}, {}, "make");
    break;
  default:
    addElement(a, r, 5);
    addElement(a, r, 5);
    addElement(a, r, 5);
    addSet(a, r, "a", {1}, {7}, "make");
    addSet(a, r, "b", {0, 1, 2}, {}, "make");
    addSet(a, r, "c", {0, 2}, {3, 4}, "make");
    break;
  }
}

bool
same(PolytopeSoup const & a, Ref const & r)
{
  if (a.numVertices() != Int(r.v.size()) || a.numElements() != Int(r.e.size()) || a.numElsets() != Int(r.s.size())) {
    return false;
  }
  for (size_t i = 0; i < r.v.size(); ++i) {
    auto const & p = a.getVertex(Int(i));
    if (p[0] != r.v[i][0] || p[1] != r.v[i][1] || p[2] != r.v[i][2]) {
      return false;
    }
  }
  VTKElemType t{};
  um2::Vector<Int> conn;
  for (size_t i = 0; i < r.e.size(); ++i) {
    a.getElement(Int(i), t, conn);
    if (t != r.e[i].first || conn.size() != Int(r.e[i].second.size())) {
      return false;
    }
    for (Int k = 0; k < conn.size(); ++k) {
      if (conn[k] != r.e[i].second[size_t(k)]) {
        return false;
      }
    }
  }
  um2::String name;
  um2::Vector<Int> ids;
  um2::Vector<Float> data;
  for (size_t i = 0; i < r.s.size(); ++i) {
    a.getElset(Int(i), name, ids, data);
    if (std::string(name.data(), size_t(name.size())) != r.s[i].name || ids.size() != Int(r.s[i].ids.size()) || data.size() != Int(r.s[i].data.size())) {
      return false;
    }
    for (Int k = 0; k < ids.size(); ++k) {
      if (ids[k] != r.s[i].ids[size_t(k)] || (!r.s[i].data.empty() && data[k] != r.s[i].data[size_t(k)])) {
        return false;
      }
    }
  }
  return true;
}

std::string
slurp(std::string const & f)
{
  std::ifstream in(f, std::ios::binary);
  return {std::istreambuf_iterator<char>(in), {}};
}

void
spill(std::string const & f, std::string const & s)
{
  std::ofstream(f, std::ios::binary) << s;
}

// Read in a process of its own; the file either yields the mesh, or an error is reported
void
attempt(std::string const & file, Ref const & r, bool exits, std::string const & w)
{
  u64 const before = mc::outputSize();
  int const status = mc::inChild([&] {
    um2::logger::level = 1;
    um2::logger::exit_on_error = exits;
    u64 const mark = mc::outputSize();
    auto * const a = new PolytopeSoup;
    a->read(str(file));
    return mc::outputSize() > mark ? 44 : same(*a, r) ? 42 : 43;
  });
  mc::transition(1);
  std::string const out = mc::outputFrom(before);
  bool const sanitizer = out.find("Sanitizer") != std::string::npos || out.find("runtime error") != std::string::npos;
  MC_REQUIRE(!sanitizer, "out-of-bounds", "%s: %s", w.c_str(), out.c_str());
  MC_REQUIRE(!WIFSIGNALED(status), "killed", "%s: signal %d %s", w.c_str(), WTERMSIG(status), out.c_str());
  int const code = WEXITSTATUS(status);
  MC_CHECK(code != 43, "different", "%s: a different mesh was read without a message", w.c_str());
  MC_CHECK(code == 42 || code == 44 || (code != 0 && code != 43 && !out.empty()), "silent", "%s: status %d without a message", w.c_str(), code);
}

void
setup()
{
  um2::logger::level = 1;
  um2::logger::exit_on_error = false;
  for (int kind = 0; kind < 4; ++kind) {
    // written once to learn the sizes
    std::string const probe = mc::scratch() + mc::fmt("/probe%d", kind);
    auto const write = [kind](std::string const & base) {
      PolytopeSoup a;
      Ref r;
      make(kind, a, r);
      a.write(str(base + ".xdmf"));
      return r;
    };
    mc::inChild([&] {
      mkdir(mc::scratch().c_str(), 0755);
      write(probe);
      return 0;
    });
    u64 const nx = slurp(probe + ".xdmf").size() + 1;
    u64 const nh = slurp(probe + ".h5").size() + 1;
    for (int part = 0; part < 2; ++part) {
      mc::space(mc::fmt("%s-cut-%d", part == 0 ? "xdmf" : "h5", kind), (part == 0 ? nx : nh) * 2, [=](u64 i) {
        std::string const base = mc::scratch() + mc::fmt("/m%d", kind);
        static int have = -1;
        static std::string text[2];
        static std::unique_ptr<Ref> ref;
        if (have != kind) {
          ref = std::make_unique<Ref>(write(base));
          text[0] = slurp(base + ".xdmf");
          text[1] = slurp(base + ".h5");
          have = kind;
        }
        u64 const len = i / 2;
        spill(base + ".xdmf", part == 0 ? text[0].substr(0, len) : text[0]);
        spill(base + ".h5", part == 1 ? text[1].substr(0, len) : text[1]);
        std::string const w = mc::fmt("mesh %d, %s cut to %llu bytes, exit %d", kind, part == 0 ? "xdmf" : "h5", (unsigned long long)len, int(i % 2));
        mc::state(mc::hashStr(w));
        attempt(base + ".xdmf", *ref, i % 2 == 1, w);
        mc::trace(1);
      });
    }
    mc::space(mc::fmt("missing-%d", kind), 4, [=](u64 i) {
      std::string const base = mc::scratch() + mc::fmt("/q%d", kind);
      Ref const r = write(base);
      unlink((base + (i % 2 == 0 ? ".xdmf" : ".h5")).c_str());
      std::string const w = mc::fmt("mesh %d without %s", kind, i % 2 == 0 ? "xdmf" : "h5");
      mc::state(mc::hashStr(w) + i / 2);
      attempt(base + ".xdmf", r, i / 2 == 1, w);
      mc::trace(1);
    });
  }
}
} // namespace

MC_MAIN(setup)
