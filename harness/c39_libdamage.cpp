// C39: nuclide libraries cut short at every byte, or holding more nuclides than announced.
#include "xslibgen.hpp"

#include <fstream>
#include <iterator>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace xslib;

namespace
{
Lib
library(int kind)
{
  switch (kind) {
  case 0:
    return make(1, {1}, true);
  case 1:
    return make(3, {2, 1}, true);
  case 2: {
    Lib l = make(4, {1, 2, 1}, false);
    l.per_line = 2;
    l.dir_lines = 3;
    l.format = "%.3e";
    return l;
  }
  default: {
    Lib l = make(2, {1, 1, 2, 1}, false);
    l.nucs[1].xs[0].rows[0].absorption_only = true;
    l.nucs[3].xs[0].rows[1].absorption_only = true;
    l.nucs[3].extra = 3;
    l.format = "%.3e";
    return l;
  }
  }
}

bool
same(um2::XSLibrary const & a, um2::XSLibrary const & b)
{
  auto const eq = [](auto const & x, auto const & y) {
    if (x.size() != y.size()) {
      return false;
    }
    for (Int i = 0; i < x.size(); ++i) {
      if (x[i] != y[i]) {
        return false;
      }
    }
    return true;
  };
  if (!eq(a.groupBounds(), b.groupBounds()) || !eq(a.chi(), b.chi()) || a.nuclides().size() != b.nuclides().size()) {
    return false;
  }
  for (Int n = 0; n < a.nuclides().size(); ++n) {
    auto const & u = a.nuclides()[n];
    auto const & v = b.nuclides()[n];
    if (u.zaid() != v.zaid() || u.mass() != v.mass() || u.isFissile() != v.isFissile() || !eq(u.temperatures(), v.temperatures()) ||
        u.xs().size() != v.xs().size()) {
      return false;
    }
    for (Int t = 0; t < u.xs().size(); ++t) {
      auto const & x = u.xs()[t];
      auto const & y = v.xs()[t];
      if (!eq(x.a(), y.a()) || !eq(x.f(), y.f()) || !eq(x.nuf(), y.nuf()) || !eq(x.tr(), y.tr()) || !eq(x.s(), y.s())) {
        return false;
      }
      for (Int g = 0; g < x.numGroups(); ++g) {
        for (Int h = 0; h < x.numGroups(); ++h) {
          if (x.ss()(g, h) != y.ss()(g, h)) {
            return false;
          }
        }
      }
    }
  }
  return true;
}

std::string
slurp(std::string const & f)
{
  std::ifstream in(f, std::ios::binary);
  return {std::istreambuf_iterator<char>(in), {}};
}

// Read in a process of its own: the whole library or a message. Nothing short of the whole file is the library.
void
attempt(std::string const & file, std::string const & whole, bool exits, std::string const & w)
{
  u64 const before = mc::outputSize();
  int const status = mc::inChild(
      [&] {
        um2::logger::level = 1;
        um2::logger::exit_on_error = exits;
        u64 const mark = mc::outputSize();
        auto * const a = new um2::XSLibrary(um2::String(file.c_str()));
        if (mc::outputSize() > mark) {
          return 44;
        }
        auto * const b = new um2::XSLibrary(um2::String(whole.c_str()));
        return same(*a, *b) ? 42 : 43;
      },
      20);
  mc::transition(1);
  std::string const out = mc::outputFrom(before);
  bool const sanitizer = out.find("Sanitizer") != std::string::npos || out.find("runtime error") != std::string::npos;
  MC_REQUIRE(!sanitizer, "out-of-bounds", "%s: %s", w.c_str(), out.c_str());
  MC_REQUIRE(!WIFSIGNALED(status), "killed", "%s: signal %d %s", w.c_str(), WTERMSIG(status), out.c_str());
  int const code = WEXITSTATUS(status);
  MC_CHECK(code != 43, "different", "%s: a different library was read without a message", w.c_str());
  MC_CHECK(code == 42 || code == 44 || (code != 0 && code != 43 && !out.empty()), "silent", "%s: status %d without a message", w.c_str(), code);
}

void
setup()
{
  um2::logger::level = 1;
  um2::logger::exit_on_error = false;
  for (int kind = 0; kind < 4; ++kind) {
    mkdir(mc::scratch().c_str(), 0755);
    std::string const probe = mc::scratch() + "/probe";
    write(library(kind), probe);
    std::string const text = slurp(probe);
    mc::space(mc::fmt("cut-%d", kind), 2 * (text.size() + 1), [=](u64 i) {
      std::string const base = mc::scratch() + mc::fmt("/lib%d", kind);
      std::ofstream(base + ".whole", std::ios::binary) << text;
      std::ofstream(base + ".cut", std::ios::binary) << text.substr(0, i / 2);
      std::string const w = mc::fmt("library %d cut to %llu of %zu bytes, exit %d", kind, (unsigned long long)(i / 2), text.size(), int(i % 2));
      mc::state(mc::hashStr(w));
      attempt(base + ".cut", base + ".whole", i % 2 == 1, w);
      mc::trace(1);
    });
    // One nuclide more than announced, of every kind of its predecessors
    u64 const nn = library(kind).nucs.size();
    mc::space(mc::fmt("surplus-%d", kind), 2 * nn, [=](u64 i) {
      std::string const base = mc::scratch() + mc::fmt("/more%d", kind);
      Lib l = library(kind);
      write(l, base + ".whole");
      std::string t = slurp(base + ".whole");
      std::string const key = mc::fmt("%%NUC%s%llu%s", l.sep.c_str(), (unsigned long long)(i / 2 + 1), l.sep.c_str());
      size_t const from = t.find(key);
      size_t to = t.find("%NUC", from + 1);
      to = to == std::string::npos ? t.find("%END") : to;
      MC_REQUIRE(from != std::string::npos && to != std::string::npos, "machinery", "%s", key.c_str());
      std::string extra = t.substr(from, to - from);
      extra.replace(0, key.size(), mc::fmt("%%NUC%s%llu%s", l.sep.c_str(), (unsigned long long)(nn + 1), l.sep.c_str()));
      t.insert(t.find("%END"), extra);
      std::ofstream(base + ".more", std::ios::binary) << t;
      std::string const w = mc::fmt("library %d with nuclide %llu repeated beyond the announced number, exit %d", kind, (unsigned long long)(i / 2), int(i % 2));
      mc::state(mc::hashStr(w));
      attempt(base + ".more", base + ".whole", i % 2 == 1, w);
      mc::trace(1);
    });
  }
}
} // namespace

MC_MAIN(setup)
