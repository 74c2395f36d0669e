// C41: starting and ending the library, in every order and from both interfaces.
#include "mc.hpp"

#include <um2.hpp>
#include <um2/common/logger.hpp>
#include <um2/common/settings.hpp>
#include <um2/gmsh/base_gmsh_api.hpp>
#include <um2c.h>

#include <cstdlib>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace
{
using mc::u64;
namespace gm = um2::gmsh;
namespace lg = um2::logger;

struct State {
  bool active = false;
  int shapes = 0;
  bool changed = false; // settings of the logger other than the defaults
};

char const * const NAMES[] = {"initialize", "um2Initialize", "finalize", "um2Finalize", "settings", "shape", "session", "end session"};

void
check(State const & s, std::string const & w)
{
  MC_CHECK((gm::isInitialized() != 0) == s.active, "session", "%s: session active %d, expected %d", w.c_str(), gm::isInitialized(), int(s.active));
  if (s.active && gm::isInitialized() != 0) {
    gm::vectorpair e;
    gm::model::getEntities(e, 2);
    MC_CHECK(int(e.size()) == s.shapes, "shapes", "%s: %zu shapes, expected %d", w.c_str(), e.size(), s.shapes);
  }
  double const age = lg::Duration(lg::Clock::now() - lg::start_time).count();
  if (s.changed) {
    MC_CHECK(lg::level == 1 && !lg::timestamped && lg::colorized && !lg::exit_on_error, "kept", "%s: settings %d %d %d %d", w.c_str(), int(lg::level),
             int(lg::timestamped), int(lg::colorized), int(lg::exit_on_error));
    MC_CHECK(age > 7100, "clock", "%s: %g s", w.c_str(), age);
  } else {
    // the output is not a terminal
    MC_CHECK(lg::level == 3 && lg::timestamped && !lg::colorized && lg::exit_on_error, "defaults", "%s: settings %d %d %d %d", w.c_str(), int(lg::level),
             int(lg::timestamped), int(lg::colorized), int(lg::exit_on_error));
    MC_CHECK(age > -1 && age < 3600, "clock", "%s: %g s", w.c_str(), age);
  }
  MC_CHECK(&lg::level == &um2::settings::logger::level, "settings", "%s", w.c_str());
  mc::transition();
}

void
change()
{
  lg::level = 1;
  lg::timestamped = false;
  lg::colorized = true;
  lg::exit_on_error = false;
  lg::start_time -= std::chrono::hours(2);
}

void
history(u64 idx, int depth)
{
  mc::Dec d(idx);
  // begin without a session and with settings other than the defaults
  if (gm::isInitialized() != 0) {
    gm::finalize();
  }
  lg::reset();
  change();
  State s;
  s.changed = true;
  std::string w;
  for (int k = 0; k < depth; ++k) {
    int const op = d.geti(8);
    w += std::string(k == 0 ? "" : ", ") + NAMES[op];
    switch (op) {
    case 0:
    case 1:
      if (op == 0) {
        um2::initialize();
      } else {
        um2Initialize();
      }
      s.shapes = s.active ? s.shapes : 0;
      s.active = true;
      s.changed = false;
      gm::option::setNumber("General.Terminal", 0);
      break;
    case 2:
    case 3:
      if (op == 2) {
        um2::finalize();
      } else {
        um2Finalize();
      }
      s.active = false;
      break;
    case 4:
      change();
      s.changed = true;
      break;
    case 5:
      if (!s.active) {
        return; // not a request that can be made
      }
      gm::model::occ::addRectangle(s.shapes, 0, 0, 1, 1);
      gm::model::occ::synchronize();
      ++s.shapes;
      break;
    case 6:
      if (s.active) {
        return;
      }
      gm::initialize();
      gm::option::setNumber("General.Terminal", 0);
      s.active = true;
      s.shapes = 0;
      break;
    default:
      if (!s.active) {
        return;
      }
      gm::finalize();
      s.active = false;
      break;
    }
    check(s, w);
  }
  mc::state(mc::hashStr(w));
  mc::trace();
}

// Colour is used only when both outputs are terminals
void
terminals(u64 idx)
{
  mc::Dec d(idx);
  bool const tty[2] = {d.get(2) == 1, d.get(2) == 1};
  bool const c = d.get(2) == 1;
  bool const earlier = d.get(2) == 1;
  int const status = mc::inChild(
      [&] {
        for (int k = 0; k < 2; ++k) {
          int fd = -1;
          if (tty[k]) {
            int const m = posix_openpt(O_RDWR | O_NOCTTY);
            if (m < 0 || grantpt(m) != 0 || unlockpt(m) != 0) {
              return 50;
            }
            fd = open(ptsname(m), O_RDWR | O_NOCTTY);
          } else {
            fd = open("/dev/null", O_WRONLY);
          }
          if (fd < 0) {
            return 50;
          }
          dup2(fd, k + 1);
        }
        lg::colorized = earlier;
        if (c) {
          um2Initialize();
        } else {
          um2::initialize();
        }
        return lg::colorized ? 41 : 40;
      },
      60);
  MC_REQUIRE(WIFEXITED(status), "terminal", "case %llu: status %d", (unsigned long long)(idx), status);
  int const code = WEXITSTATUS(status);
  if (code == 50) {
    mc::sample("no terminals here");
    return;
  }
  MC_CHECK(code == (tty[0] && tty[1] ? 41 : 40), "colour", "output a terminal: %d, errors a terminal: %d: %d", int(tty[0]), int(tty[1]), code);
  mc::state(mc::hash(idx, 977));
  mc::transition();
  mc::trace();
}

void
setup()
{
  for (int n = 1; n <= int(mc::pick(5, 6)); ++n) {
    mc::space(mc::fmt("histories-%d", n), mc::ipow(8, n), [=](u64 i) { history(i, n); });
  }
  mc::space("terminals", 16, terminals);
}
} // namespace

MC_MAIN(setup)
