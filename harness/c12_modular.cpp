// C12: modular rays are cyclic, uniformly spaced and cover the box.
#include "geom.hpp"
#include "mc.hpp"

#include <um2/geometry/modular_rays.hpp>

#include <array>
#include <map>

namespace
{
using mc::u64;
using ref::LD;

LD const W[] = {1, 0.5L, 2, 1.26L, 21.42L};
LD const OFF[] = {0, -3.25L, 10};
LD const S[] = {0.5L, 0.25L, 0.11L, 0.037L, 3};

template <class T>
void
ray(u64 idx, int na)
{
  mc::Dec q(idx);
  LD const w = W[q.geti(5)];
  LD const h = W[q.geti(5)];
  LD const x0 = OFF[q.geti(3)];
  LD const y0 = OFF[q.geti(3)];
  LD const s = S[q.geti(5)];
  int const ia = q.geti(na) + 1;
  LD const pi = std::acos(LD(-1));
  LD const a = pi * ia / (na + 1);
  um2::Point2<T> lo;
  um2::Point2<T> hi;
  lo[0] = static_cast<T>(x0);
  lo[1] = static_cast<T>(y0);
  hi[0] = static_cast<T>(x0 + w);
  hi[1] = static_cast<T>(y0 + h);
  T const at = static_cast<T>(a);
  if (std::abs(std::cos(LD(at))) < 1e-4L) {
    return; // vertical rays are not a modular angle
  }
  um2::AxisAlignedBox2<T> const box(lo, hi);
  um2::ModularRayParams<T> const p(at, static_cast<T>(s), box);
  std::string const c = mc::fmt("box %Lg x %Lg at (%Lg,%Lg) spacing %Lg angle %d/%d", w, h, x0, y0, s, ia, na + 1);
  char const * const t = c.c_str();
  LD const eps = sizeof(T) == 4 ? 2e-4L : 1e-9L;
  LD const big = w + h + std::abs(x0) + std::abs(y0);
  LD const tol = eps * big;
  Int const nx = p.getNumXRays();
  Int const ny = p.getNumYRays();
  Int const n = p.getTotalNumRays();
  MC_CHECK(nx > 0 && ny > 0 && n == nx + ny, "count", "%s: %d %d %d", t, int(nx), int(ny), int(n));
  auto const d = p.getDirection();
  LD const dx = d[0];
  LD const dy = d[1];
  MC_CHECK(std::abs(dx * dx + dy * dy - 1) < eps, "unit", "%s", t);
  MC_CHECK(dy > 0 && (std::cos(LD(at)) > 0 ? dx > 0 : dx < 0), "quadrant", "%s: (%Lg,%Lg)", t, dx, dy);
  auto const sp = p.getSpacing();
  MC_CHECK(std::abs(sp[0] * nx - (LD(hi[0]) - lo[0])) < tol && std::abs(sp[1] * ny - (LD(hi[1]) - lo[1])) < tol, "spacing", "%s", t);
  LD const perp = sp[0] * dy;
  MC_CHECK(perp <= s * (1 + eps), "spacing-limit", "%s: %Lg", t, perp);
  MC_CHECK(std::abs(perp - std::abs(sp[1] * dx)) < tol, "spacing-uniform", "%s", t);
  // origins on the boundary, heading inwards, neighbouring rays one perpendicular step apart
  std::vector<LD> foot; // signed distance from a line through the box corner along the direction
  std::vector<std::array<LD, 2>> origin;
  std::map<long, int> entry;
  // quantised entry key: position along bottom edge or side edge
  int onx = 0;
  for (Int i = 0; i < n; ++i) {
    auto const r = p.getRay(i);
    auto const o = r.origin();
    MC_CHECK(r.direction()[0] == d[0] && r.direction()[1] == d[1], "common-direction", "%s ray %d", t, int(i));
    bool const bottom = std::abs(o[1] - lo[1]) < tol && o[0] > lo[0] + tol / 2 && o[0] < hi[0] - tol / 2;
    LD const side = dx > 0 ? lo[0] : hi[0];
    bool const lateral = std::abs(o[0] - side) < tol && o[1] > lo[1] + tol / 2 && o[1] < hi[1] - tol / 2;
    MC_CHECK(bottom != lateral, "on-boundary", "%s ray %d at (%g,%g)", t, int(i), double(o[0]), double(o[1]));
    onx += bottom ? 1 : 0;
    foot.push_back((o[0] - lo[0]) * dy - (o[1] - lo[1]) * dx);
    origin.push_back({o[0], o[1]});
  }
  MC_CHECK(onx == nx, "edge-count", "%s: %d on the bottom edge, %d stated", t, onx, int(nx));
  std::vector<LD> sorted = foot;
  std::sort(sorted.begin(), sorted.end());
  for (size_t i = 1; i < sorted.size(); ++i) {
    MC_CHECK(std::abs(sorted[i] - sorted[i - 1] - perp) < tol, "uniform", "%s between rays %zu", t, i);
  }
  // exits match entries across the module
  std::vector<int> used(static_cast<size_t>(n), 0);
  std::vector<std::pair<LD, int>> byx;
  for (Int i = 0; i < n; ++i) {
    auto const o = origin[size_t(i)];
    LD const tx = dx > 0 ? (hi[0] - o[0]) / dx : (lo[0] - o[0]) / dx;
    LD const ty = (hi[1] - o[1]) / dy;
    std::array<LD, 2> x = {o[0] + std::min(tx, ty) * dx, o[1] + std::min(tx, ty) * dy};
    if (ty < tx) {
      x[1] = lo[1]; // leaves through the top: enters the module above at the bottom
    } else {
      x[0] = dx > 0 ? lo[0] : hi[0];
    }
    // the entry with the same foot
    LD const f = (x[0] - lo[0]) * dy - (x[1] - lo[1]) * dx;
    LD const k = (f - sorted[0]) / perp;
    LD const kr = std::round(k);
    MC_REQUIRE(std::abs(k - kr) * perp < 10 * tol && kr >= 0 && kr < LD(n), "cyclic", "%s ray %d leaves between rays", t, int(i));
    int found = -1;
    for (Int j = 0; j < n && n <= 64; ++j) {
      if (std::abs(foot[size_t(j)] - sorted[size_t(kr)]) < tol / 2 && std::abs(origin[size_t(j)][0] - x[0]) < 10 * tol &&
          std::abs(origin[size_t(j)][1] - x[1]) < 10 * tol) {
        found = j;
      }
    }
    if (n <= 64) {
      MC_REQUIRE(found >= 0, "cyclic-entry", "%s ray %d", t, int(i));
      ++used[size_t(found)];
    } else {
      ++used[size_t(kr)];
    }
    mc::transition();
  }
  for (Int i = 0; i < n; ++i) {
    MC_CHECK(used[size_t(i)] == 1, "cyclic-bijection", "%s ray %d is entered %d times", t, int(i), used[size_t(i)]);
  }
  // the mirrored angle, unless a count sits on a rounding boundary
  LD const fx = w * std::sin(a) / s;
  LD const fy = h * std::abs(std::cos(a)) / s;
  if (std::abs(fx - std::round(fx)) > 1e-3L && std::abs(fy - std::round(fy)) > 1e-3L) {
    um2::ModularRayParams<T> const m(static_cast<T>(pi - a), static_cast<T>(s), box);
    MC_REQUIRE(m.getNumXRays() == nx && m.getNumYRays() == ny, "mirror-count", "%s", t);
    for (Int i = 0; i < n; ++i) {
      auto const r = m.getRay(i);
      LD const mx = LD(lo[0]) + hi[0] - r.origin()[0];
      MC_CHECK(std::abs(mx - origin[size_t(i)][0]) < tol && std::abs(r.origin()[1] - origin[size_t(i)][1]) < tol, "mirror", "%s ray %d", t,
               int(i));
      MC_CHECK(std::abs(r.direction()[0] + dx) < eps && std::abs(r.direction()[1] - dy) < eps, "mirror-direction", "%s ray %d", t, int(i));
      mc::transition();
    }
  }
  mc::state(mc::hashStr(c));
  mc::trace();
  if (idx > 1000) {
    mc::sample(c);
  }
}

void
setup()
{
  int const na = static_cast<int>(mc::pick(12, 64));
  mc::space("rays", 225 * 5 * u64(na), [=](u64 i) { ray<double>(i, na); });
  mc::space("rays-float", 225 * 5 * 8, [=](u64 i) { ray<float>(i, 8); });
}

} // namespace

MC_MAIN(setup)
