// C31: what the logger emits for every level, severity and message.
#include "mc.hpp"

#include <cmath>
#include <climits>
#include <cstdint>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include <um2/common/logger.hpp>
#include <um2/stdlib/string.hpp>

using mc::u64;
namespace lg = um2::logger;

namespace
{
char const * const NAMES[] = {"OFF", "ERROR", "WARN", "INFO", "DEBUG"};

template <class... A>
void
log(int severity, A const &... a)
{
  switch (severity) {
  case 1:
    lg::error(a...);
    break;
  case 2:
    lg::warn(a...);
    break;
  case 3:
    lg::info(a...);
    break;
  default:
    lg::debug(a...);
    break;
  }
  std::fflush(stdout);
  std::fflush(stderr);
}

// Remove colour sequences
std::string
plain(std::string const & s)
{
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\033') {
      while (i < s.size() && s[i] != 'm') {
        ++i;
      }
    } else {
      r += s[i];
    }
  }
  return r;
}

void
settings(int level, bool stamp, bool color)
{
  lg::level = level;
  lg::timestamped = stamp;
  lg::colorized = color;
  lg::exit_on_error = false;
}

// The text of one emitted line, without timestamp and level; sets ok to false if it has another form
std::string
body(std::string const & out, int severity, bool stamp, bool color, bool & ok)
{
  ok = !out.empty() && out.back() == '\n';
  std::string s = plain(out);
  ok = ok && (out.find('\033') == std::string::npos || color);
  if (!s.empty()) {
    s.pop_back();
  }
  if (stamp) {
    ok = ok && s.size() > 15 && s[0] == '[' && s[13] == ']' && s[14] == ' ';
    s = ok ? s.substr(15) : s;
  }
  std::string const head = std::string(NAMES[severity]) + " - ";
  ok = ok && s.compare(0, head.size(), head) == 0;
  return ok ? s.substr(head.size()) : s;
}

template <class... A>
void
expect(int level, int severity, bool stamp, bool color, std::string const & text, std::string const & w, A const &... a)
{
  settings(level, stamp, color);
  long const before = mc::outputSize();
  log(severity, a...);
  mc::transition(1);
  std::string const out = mc::outputFrom(before);
  if (severity > level) {
    MC_CHECK(out.empty(), "unadmitted", "%s: level %d severity %d printed '%s'", w.c_str(), level, severity, out.c_str());
    return;
  }
  bool ok = false;
  std::string const got = body(out, severity, stamp, color, ok);
  // the buffer is shared with the preamble
  bool const same = text.size() <= 200 ? got == text : (got.size() >= 200 && text.compare(0, got.size(), got) == 0);
  MC_CHECK(ok && same, "emitted", "%s: level %d severity %d stamp %d color %d printed '%s' instead of '%s'", w.c_str(), level, severity, stamp, color, out.c_str(),
           text.c_str());
  std::string const last = std::string(lg::getLastMessage().data(), size_t(lg::getLastMessage().size()));
  MC_CHECK(last + "\n" == out, "last", "%s: last message '%s' of '%s'", w.c_str(), last.c_str(), out.c_str());
}

void
values()
{
  // one value of each kind at every level, severity and style
  mc::space("values", 5 * 4 * 4 * 40, [](u64 i) {
    mc::Dec d(i);
    int const level = d.geti(5);
    int const sev = 1 + d.geti(4);
    int const style = d.geti(4);
    int const kind = d.geti(40);
    std::string const w = mc::fmt("value %d", kind);
    mc::state(mc::hash(i, 1));
    auto const go = [&](std::string const & text, auto const &... a) { expect(level, sev, (style & 1) != 0, (style & 2) != 0, text, w, a...); };
    static int32_t const i32[] = {0, 1, -1, INT32_MAX, INT32_MIN};
    static uint32_t const u32[] = {0, 7, UINT32_MAX};
    static int64_t const i64[] = {0, -5, INT64_MAX, INT64_MIN};
    static uint64_t const u64s[] = {0, 12, UINT64_MAX};
    static double const dbl[] = {0, 1, -2.5, 1e-7, 3.14159265, 1e20, -1e15};
    static float const flt[] = {0.5F, -3.25F, 1e10F};
    static int8_t const i8[] = {0, 65, -128, 127};
    if (kind < 5) {
      go(mc::fmt("%d", i32[kind]), i32[kind]);
    } else if (kind < 8) {
      go(mc::fmt("%u", u32[kind - 5]), u32[kind - 5]);
    } else if (kind < 12) {
      go(mc::fmt("%lld", (long long)i64[kind - 8]), i64[kind - 8]);
    } else if (kind < 15) {
      go(mc::fmt("%llu", (unsigned long long)u64s[kind - 12]), u64s[kind - 12]);
    } else if (kind < 22) {
      go(mc::fmt("%f", dbl[kind - 15]), dbl[kind - 15]);
    } else if (kind < 25) {
      go(mc::fmt("%f", double(flt[kind - 22])), flt[kind - 22]);
    } else if (kind < 29) {
      go(mc::fmt("%d", int(i8[kind - 25])), i8[kind - 25]);
    } else if (kind < 31) {
      go(kind == 29 ? "true" : "false", kind == 29);
    } else if (kind == 31) {
      go("x", 'x');
    } else if (kind == 32) {
      go("literal text", "literal text");
    } else if (kind == 33) {
      char const * const p = "pointer text";
      go("pointer text", p);
    } else if (kind == 34) {
      go("a string that is long enough to be on the heap", um2::String("a string that is long enough to be on the heap"));
    } else if (kind == 35) {
      go("view", um2::StringView("view and more", uint64_t(4)));
    } else if (kind == 36) {
      go("", "");
    } else if (kind == 37) {
      go("100% %d %s %n", "100% %d %s %n");
    } else if (kind == 38) {
      go("");
    } else {
      go("a1b2.000000truec-3", "a", 1, um2::String("b"), 2.0, true, 'c', int64_t(-3));
    }
    mc::trace(1);
  });
  // every ordered choice of up to three kinds in one message
  mc::space("combinations", 7 * 7 * 7 * 4, [](u64 i) {
    mc::Dec d(i);
    int const a = d.geti(7);
    int const b = d.geti(7);
    int const c = d.geti(7);
    int const sev = 1 + d.geti(4);
    mc::state(mc::hash(i, 2));
    auto const with = [](int k, auto && f) {
      switch (k) {
      case 0:
        f("txt ", std::string("txt "));
        break;
      case 1:
        f(int32_t(-42), std::string("-42"));
        break;
      case 2:
        f(0.125, std::string("0.125000"));
        break;
      case 3:
        f(true, std::string("true"));
        break;
      case 4:
        f('%', std::string("%"));
        break;
      case 5:
        f(um2::String("string"), std::string("string"));
        break;
      default:
        f(uint64_t(18446744073709551615ULL), std::string("18446744073709551615"));
        break;
      }
    };
    with(a, [&](auto const & x, std::string const & tx) {
      with(b, [&](auto const & y, std::string const & ty) {
        with(c, [&](auto const & z, std::string const & tz) { expect(4, sev, false, false, tx + ty + tz, "combination", x, y, z); });
      });
    });
    mc::trace(1);
  });
}

void
lengths()
{
  // every length across the size of the buffer, as one or several pieces, followed by another message
  int const maxlen = static_cast<int>(mc::pick(600, 3000));
  mc::space("lengths", u64(maxlen) * 10 * 4, [maxlen](u64 i) {
    mc::Dec d(i);
    int const len = d.geti(maxlen);
    int const kind = d.geti(10);
    int const style = d.geti(4);
    bool const stamp = (style & 1) != 0;
    bool const color = (style & 2) != 0;
    mc::state(mc::hash(i, 3));
    std::string text;
    for (int k = 0; k < len; ++k) {
      text += char('a' + k % 26);
    }
    std::string const w = mc::fmt("length %d kind %d", len, kind);
    auto const half = text.substr(0, size_t(len / 2));
    auto const rest = text.substr(size_t(len / 2));
    switch (kind) {
    case 0:
      expect(4, 2, stamp, color, text, w, text.c_str());
      break;
    case 1:
      expect(4, 3, stamp, color, text, w, um2::String(text.c_str()));
      break;
    case 2:
      expect(4, 1, stamp, color, text, w, um2::StringView(text.c_str()));
      break;
    case 3:
      expect(4, 4, stamp, color, text, w, half.c_str(), rest.c_str());
      break;
    case 4:
      expect(4, 2, stamp, color, text + "x", w, text.c_str(), 'x');
      break;
    case 5:
      expect(4, 2, stamp, color, text + "-2147483648", w, text.c_str(), int32_t(INT32_MIN));
      break;
    case 6:
      expect(4, 2, stamp, color, text + "false", w, text.c_str(), false);
      break;
    case 7:
      expect(4, 2, stamp, color, text + "18446744073709551615true", w, text.c_str(), uint64_t(UINT64_MAX), true);
      break;
    case 8:
      expect(4, 2, stamp, color, text + mc::fmt("%f", 1e300), w, text.c_str(), 1e300);
      break;
    default:
      expect(4, 1, stamp, color, text + "0.500000-91z" + text, w, text.c_str(), 0.5, int64_t(-91), 'z', text.c_str());
      break;
    }
    expect(4, 1 + len % 4, stamp, color, "next 5", w, "next ", 5);
    mc::trace(1);
  });
}

void
histories()
{
  // sequences of settings and messages
  int const depth = static_cast<int>(mc::pick(5, 6));
  u64 const nop = 12;
  mc::space("histories", mc::ipow(nop, depth), [=](u64 i) {
    mc::Dec d(i);
    settings(2, false, false);
    int level = 2;
    bool stamp = false;
    bool color = false;
    std::string last;
    // a first message of known content
    log(1, "start");
    last = std::string(lg::getLastMessage().data(), size_t(lg::getLastMessage().size()));
    std::string w = "ops";
    u64 h = 0;
    for (int k = 0; k < depth; ++k) {
      int const op = d.geti(int(nop));
      w += mc::fmt(" %d", op);
      h = mc::hash(h, u64(op));
      long const before = mc::outputSize();
      if (op < 5) {
        lg::level = level = op;
      } else if (op < 9) {
        int const sev = op - 4;
        log(sev, "message ", k, ' ', sev);
        std::string const out = mc::outputFrom(before);
        if (sev <= level) {
          bool ok = false;
          std::string const got = body(out, sev, stamp, color, ok);
          MC_CHECK(ok && got == mc::fmt("message %d %d", k, sev), "history-emitted", "%s: '%s'", w.c_str(), out.c_str());
          last = out.substr(0, out.size() - 1);
        } else {
          MC_CHECK(out.empty(), "history-unadmitted", "%s: '%s'", w.c_str(), out.c_str());
        }
      } else if (op == 9) {
        lg::timestamped = stamp = !stamp;
      } else if (op == 10) {
        lg::colorized = color = !color;
      } else {
        lg::reset();
        // the defaults, whatever was set before
        level = lg::level;
        stamp = lg::timestamped;
        color = lg::colorized;
        MC_CHECK(lg::exit_on_error, "history-reset", "%s: exit on error is off", w.c_str());
        static int const dl = level;
        static bool const ds = stamp;
        static bool const dc = color;
        MC_CHECK(level == dl && stamp == ds && color == dc, "history-reset", "%s: %d %d %d", w.c_str(), level, stamp, color);
        lg::exit_on_error = false;
      }
      mc::transition(1);
      if (op < 5 || op >= 9) {
        MC_CHECK(mc::outputSize() == before, "history-silent", "%s", w.c_str());
      }
      std::string const now(lg::getLastMessage().data(), size_t(lg::getLastMessage().size()));
      MC_CHECK(now == last, "history-last", "%s: '%s' instead of '%s'", w.c_str(), now.c_str(), last.c_str());
    }
    mc::state(h);
    mc::trace(1);
  });
  // the end of the program
  mc::space("exit", 5 * 4 * 2 * 2, [](u64 i) {
    mc::Dec d(i);
    int const level = d.geti(5);
    int const sev = 1 + d.geti(4);
    bool const flag = d.geti(2) == 1;
    bool const twice = d.geti(2) == 1;
    mc::state(mc::hash(i, 5));
    std::fflush(nullptr);
    pid_t const pid = fork();
    if (pid == 0) {
      settings(level, false, false);
      lg::exit_on_error = flag;
      if (twice) {
        lg::warn("before");
      }
      switch (sev) {
      case 1:
        lg::error("the end");
        break;
      case 2:
        lg::warn("the end");
        break;
      case 3:
        lg::info("the end");
        break;
      default:
        lg::debug("the end");
        break;
      }
      _exit(7);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    mc::transition(1);
    bool const ends = sev == 1 && level >= 1 && flag;
    int const code = WIFEXITED(status) ? WEXITSTATUS(status) : -1;
    MC_CHECK(ends ? code == 1 : code == 7, "exit", "level %d severity %d exit %d: status %d", level, sev, flag, code);
    mc::trace(1);
  });
  // which stream, and the time shown
  mc::space("streams", 4 * 4, [](u64 i) {
    mc::Dec d(i);
    int const sev = 1 + d.geti(4);
    int const style = d.geti(4);
    mc::state(mc::hash(i, 6));
    settings(4, (style & 1) != 0, (style & 2) != 0);
    std::string const file = mc::scratch() + "/stdout.txt";
    std::fflush(stdout);
    int const keep = dup(1);
    FILE * f = std::fopen(file.c_str(), "w");
    dup2(fileno(f), 1);
    log(sev, "where does it go");
    std::fflush(stdout);
    dup2(keep, 1);
    close(keep);
    std::fclose(f);
    mc::transition(1);
    FILE * r = std::fopen(file.c_str(), "r");
    char buf[512];
    size_t const n = std::fread(buf, 1, sizeof(buf), r);
    std::fclose(r);
    std::string const out(buf, n);
    MC_CHECK((out.find("where does it go") != std::string::npos) == (sev != 1), "stream", "severity %d wrote '%s' to standard output", sev, out.c_str());
    mc::trace(1);
  });
  mc::space("time", 60 * 4 * 14, [](u64 i) {
    mc::Dec d(i);
    int const s = d.geti(60);
    static int const mins[] = {0, 9, 10, 59};
    int const m = mins[d.geti(4)];
    static int const hours[] = {0, 1, 9, 10, 11, 19, 20, 23, 24, 25, 48, 50, 90, 98};
    int const h = hours[d.geti(14)];
    mc::state(mc::hash(i, 7));
    settings(4, true, false);
    auto const keep = lg::start_time;
    double const ms = (i * 37 % 1000) / 1000.0;
    double const want = h * 3600.0 + m * 60.0 + s + ms;
    lg::start_time = lg::Clock::now() - std::chrono::duration_cast<lg::Clock::duration>(std::chrono::duration<double>(want));
    long const before = mc::outputSize();
    log(3, "t");
    mc::transition(1);
    std::string const out = mc::outputFrom(before);
    lg::start_time = keep;
    int a = -1;
    int b = -1;
    int c = -1;
    int e = -1;
    int const n = std::sscanf(out.c_str(), "[%2d:%2d:%2d.%3d]", &a, &b, &c, &e);
    double const got = a * 3600.0 + b * 60.0 + c + e / 1000.0;
    MC_CHECK(n == 4 && b < 60 && c < 60 && got >= want - 0.002 && got < want + 30, "time", "%.3f s after the start: '%s'", want, out.c_str());
    mc::trace(1);
  });
}

void
setup()
{
  values();
  lengths();
  histories();
}
} // namespace

MC_MAIN(setup)
