// C20: the exported mesh of a model against the placement prescribed by its maps.
#include "placecheck.hpp"

using namespace mg;

namespace
{
void
run(Spec const & s, std::string const & w)
{
  Model m;
  long const before = mc::outputSize();
  int const bad = build(s, m);
  MC_REQUIRE(bad == 0, "rejected", "%s: %d components rejected", w.c_str(), bad);
  MC_CHECK(mc::outputSize() == before, "message", "%s: %s", w.c_str(), mc::outputFrom(before).c_str());
  mc::state(mc::hashStr(w));
  checkExport(m, s, w);
  mc::trace(1);
}

void
setup()
{
  um2::logger::level = 2;
  um2::logger::exit_on_error = false;
  for (auto const & f : families()) {
    mc::space(f.name, f.n, [f](u64 i) {
      Spec const s = f.make(i);
      run(s, mc::fmt("%s %llu", f.name.c_str(), (unsigned long long)i));
    });
  }
}
} // namespace

MC_MAIN(setup)
