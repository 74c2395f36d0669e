// C22: pin meshes and pin cells for every parameter set.
#include "tiling.hpp"

#include <um2/common/logger.hpp>
#include <um2/mpact/model.hpp>

namespace
{
using gen::Mesh;
using mc::u64;
using ref::LD;
using ref::P;
using um2::mpact::Model;

LD const pi = 3.14159265358979323846264338327950288L;
double const PITCH[] = {1.26, 1.0, 0.3, 21.5, 4.0};
double const FRAC[] = {0.0625, 0.2, 0.32, 0.36, 0.45, 0.48, 0.5};
int const NFRAC = 7;

struct Pin {
  double pitch = 1;
  std::vector<double> r;
  std::vector<int> rings;
  int na = 8;
  int order = 1;
  std::string name;
  int total = 0;

  // Does the outermost ring, drawn with straight or parabolic arcs of the right area, stay within the box?
  // 1 yes, 0 no, -1 too close to call
  int
  fits() const
  {
    LD worst = 0;
    LD prev = 0;
    LD const th = 2 * pi / na;
    for (size_t i = 0; i < r.size(); ++i) {
      for (int k = 1; k <= rings[i]; ++k) {
        LD const r2 = prev + (LD(r[i]) * r[i] - prev) * k / rings[i];
        LD const rr = std::sqrt(r2);
        if (order == 1) {
          worst = std::max(worst, std::sqrt(pi * r2 / (na * std::sin(th) / 2)));
        } else {
          // corners on the circle, mid node where the area under the parabolic arcs is that of the circle
          LD const sector = pi * r2 / na;
          LD const tri = r2 * std::sin(th) / 2;
          LD const chord = 2 * rr * std::sin(th / 2);
          LD const sag = (sector - tri) / (2 * chord / 3);
          worst = std::max({worst, rr, rr * std::cos(th / 2) + sag});
        }
      }
      prev = LD(r[i]) * r[i];
      worst = std::max(worst, LD(r[i]));
    }
    LD const d = worst - LD(pitch) / 2;
    return std::abs(d) < 1e-9L * pitch ? -1 : (d < 0 ? 1 : 0);
  }
};

Pin
decode(mc::Dec & d, int max_rings, int orders)
{
  Pin p;
  p.order = 1 + d.geti(orders);
  p.na = 8 << d.geti(static_cast<int>(mc::pick(3, 4)));
  p.pitch = PITCH[d.geti(5)];
  int const mask = 1 + d.geti((1 << NFRAC) - 1);
  for (int i = 0; i < NFRAC; ++i) {
    if ((mask >> i) & 1) {
      p.r.push_back(FRAC[i] * p.pitch);
    }
  }
  int const code = d.geti(static_cast<int>(mc::ipow(u64(max_rings), 3)));
  int c = code;
  p.name = mc::fmt("order %d na %d pitch %g radii", p.order, p.na, p.pitch);
  for (size_t i = 0; i < p.r.size(); ++i) {
    p.rings.push_back(1 + (c % max_rings + static_cast<int>(i) / 3) % max_rings);
    c = i % 3 == 2 ? code : c / max_rings;
    p.total += p.rings.back();
    p.name += mc::fmt(" %g/%d", p.r[i], p.rings[i]);
  }
  return p;
}

um2::Vector<Float>
vec(std::vector<double> const & v)
{
  um2::Vector<Float> r;
  for (double x : v) {
    r.push_back(x);
  }
  return r;
}
um2::Vector<Int>
vec(std::vector<int> const & v)
{
  um2::Vector<Int> r;
  for (int x : v) {
    r.push_back(x);
  }
  return r;
}

// Faces from the centre outwards: ring of each face by sorting the distance of the centroid
std::vector<int>
ringOf(Mesh const & m, Pin const & p)
{
  std::vector<std::pair<LD, size_t>> d;
  P const c = {LD(p.pitch) / 2, LD(p.pitch) / 2};
  for (size_t i = 0; i < m.f.size(); ++i) {
    P q;
    gen::faceArea(m, i, &q);
    d.push_back({std::hypot(q.x - c.x, q.y - c.y), i});
  }
  std::sort(d.begin(), d.end());
  std::vector<int> r(m.f.size());
  for (size_t i = 0; i < d.size(); ++i) {
    r[d[i].second] = static_cast<int>(i) / p.na;
  }
  return r;
}

void
checkMesh(Mesh const & m, Pin const & p)
{
  char const * w = p.name.c_str();
  MC_REQUIRE(m.f.size() == size_t(p.na) * size_t(p.total + 1), "face-count", "%s: %zu faces", w, m.f.size());
  std::string const defect = gen::tilingDefect(m, p.pitch, p.pitch, 1e-9L * LD(p.pitch));
  MC_REQUIRE(defect.empty(), "tiling", "%s: %s", w, defect.c_str());
  auto const ring = ringOf(m, p);
  std::vector<LD> area(size_t(p.total) + 1, 0);
  std::vector<LD> lo(size_t(p.total) + 1, 1e30L);
  std::vector<LD> hi(size_t(p.total) + 1, 0);
  for (size_t i = 0; i < m.f.size(); ++i) {
    LD const a = gen::faceArea(m, i);
    size_t const k = size_t(ring[i]);
    area[k] += a;
    lo[k] = std::min(lo[k], a);
    hi[k] = std::max(hi[k], a);
  }
  size_t k = 0;
  LD prev = 0;
  LD const tol = 1e-10L * LD(p.pitch) * LD(p.pitch);
  for (size_t i = 0; i < p.r.size(); ++i) {
    LD const region = pi * (LD(p.r[i]) * p.r[i] - prev);
    prev = LD(p.r[i]) * p.r[i];
    for (int j = 0; j < p.rings[i]; ++j, ++k) {
      MC_CHECK(std::abs(area[k] - region / p.rings[i]) < tol, "ring-area", "%s: ring %zu has %.12Lg of %.12Lg", w, k, area[k], region / p.rings[i]);
      MC_CHECK(hi[k] - lo[k] < tol, "sector-area", "%s: ring %zu has faces from %.12Lg to %.12Lg", w, k, lo[k], hi[k]);
    }
  }
  MC_CHECK(std::abs(area[k] - (LD(p.pitch) * p.pitch - pi * prev)) < tol, "outside-area", "%s: %.12Lg", w, area[k]);
  mc::transition(m.f.size());
}

template <int T>
void
checkLib(typename gen::Lib<T>::Fvm const & fvm, Pin const & p)
{
  Mesh const m = gen::fromLib<T>(fvm);
  checkMesh(m, p);
  // the library's own validation has nothing to say about it
  long const before = mc::outputSize();
  auto copy = fvm;
  copy.validate();
  MC_CHECK(mc::outputSize() == before, "validation", "%s: %s", p.name.c_str(), mc::outputFrom(before).c_str());
  auto const again = gen::fromLib<T>(copy);
  bool same = again.f == m.f && again.v.size() == m.v.size();
  for (size_t i = 0; same && i < m.v.size(); ++i) {
    same = m.v[i].x == again.v[i].x && m.v[i].y == again.v[i].y;
  }
  MC_CHECK(same, "validation-changes", "%s", p.name.c_str());
}

void
pinMesh(u64 index, int max_rings)
{
  mc::Dec d(index);
  Pin const p = decode(d, max_rings, 2);
  int const fits = p.fits();
  if (fits < 0) {
    return;
  }
  Model model;
  long const before = mc::outputSize();
  Int const id = model.addCylindricalPinMesh(p.pitch, vec(p.r), vec(p.rings), p.na, p.order);
  bool const complained = mc::outputSize() != before;
  Int const n = model.quadMeshes().size() + model.quad8Meshes().size();
  if (fits == 0) {
    MC_CHECK(id == -1 && complained && n == 0, "too-large", "%s: id %d, %d meshes", p.name.c_str(), int(id), int(n));
    mc::state(mc::hashStr(p.name));
    return;
  }
  MC_REQUIRE(id == 0 && n == 1 && !complained, "refused", "%s: id %d, %d meshes, %s", p.name.c_str(), int(id), int(n), mc::outputFrom(before).c_str());
  if (p.order == 1) {
    MC_REQUIRE(model.quadMeshes().size() == 1, "mesh-order", "%s", p.name.c_str());
    checkLib<gen::quad>(model.getQuadMesh(0), p);
  } else {
    MC_REQUIRE(model.quad8Meshes().size() == 1, "mesh-order", "%s", p.name.c_str());
    checkLib<gen::quad8>(model.getQuad8Mesh(0), p);
  }
  mc::state(mc::hashStr(p.name));
  mc::trace();
}

// Pin cells: every assignment of three materials to up to three regions and the outside
void
pinCell(u64 index)
{
  mc::Dec d(index);
  Pin p;
  p.order = 1 + d.geti(2);
  p.na = 8 << d.geti(2);
  int const regions = 1 + d.geti(3);
  int const rings = d.geti(8);
  int const mats = d.geti(81);
  int const prior = d.geti(2);
  if (mats >= mc::ipow(3, regions + 1) || rings >= (1 << regions)) {
    return;
  }
  p.pitch = 1.26;
  p.name = mc::fmt("cell order %d na %d", p.order, p.na);
  um2::Vector<um2::Material> list;
  auto const all = um2::getC5G7Materials();
  Model model;
  int const base = 2; // materials that come before the ones used
  for (Int i = 0; i < base + 3; ++i) {
    model.addMaterial(all[i]);
  }
  std::vector<int> want;
  int code = mats;
  for (int i = 0; i <= regions; ++i) {
    if (i < regions) {
      p.r.push_back(FRAC[i + 1] * p.pitch);
      p.rings.push_back(1 + 2 * ((rings >> i) & 1));
      p.total += p.rings.back();
      p.name += mc::fmt(" %g/%d", p.r.back(), p.rings.back());
    }
    want.push_back(base + code % 3);
    list.push_back(all[base + code % 3]);
    p.name += mc::fmt(" material %d", base + code % 3);
    code /= 3;
  }
  if (prior != 0) {
    model.addCylindricalPinCell(2.0, vec(std::vector<double>{0.5}), {all[0], all[1]}, vec(std::vector<int>{2}), 8, p.order);
  }
  Int const id = model.addCylindricalPinCell(p.pitch, vec(p.r), list, vec(p.rings), p.na, p.order);
  char const * w = p.name.c_str();
  MC_REQUIRE(id == prior && model.numCoarseCells() == prior + 1, "cell-id", "%s: %d", w, int(id));
  auto const & cell = model.getCoarseCell(id);
  MC_CHECK(cell.xy_extents[0] == p.pitch && cell.xy_extents[1] == p.pitch, "cell-extents", "%s", w);
  MC_REQUIRE(cell.mesh_type == (p.order == 1 ? um2::MeshType::Quad : um2::MeshType::QuadraticQuad), "cell-type", "%s", w);
  MC_REQUIRE(cell.mesh_id == prior, "cell-mesh", "%s: %d", w, int(cell.mesh_id));
  Mesh const m = p.order == 1 ? gen::fromLib<gen::quad>(model.getQuadMesh(cell.mesh_id)) : gen::fromLib<gen::quad8>(model.getQuad8Mesh(cell.mesh_id));
  checkMesh(m, p);
  MC_REQUIRE(m.f.size() == size_t(cell.material_ids.size()) && m.f.size() == size_t(p.na) * size_t(p.total + 1), "cell-faces", "%s", w);
  auto const ring = ringOf(m, p);
  for (size_t i = 0; i < m.f.size(); ++i) {
    int region = 0;
    int upto = 0;
    while (region < regions && ring[i] >= upto + p.rings[size_t(region)]) {
      upto += p.rings[size_t(region)];
      ++region;
    }
    MC_CHECK(cell.material_ids[static_cast<Int>(i)] == want[size_t(region)], "cell-material", "%s: face %zu of ring %d has %d", w, i, ring[i],
             int(cell.material_ids[static_cast<Int>(i)]));
  }
  mc::state(mc::hashStr(p.name));
  mc::trace();
}

void
rectangle(u64 index, int n)
{
  mc::Dec d(index);
  static double const ext[] = {1, 1.26, 0.3, 21.5, 7};
  double const w = ext[d.geti(5)];
  double const h = ext[d.geti(5)];
  int const nx = 1 + d.geti(n);
  int const ny = 1 + d.geti(n);
  Model model;
  long const before = mc::outputSize();
  um2::Vec2F e;
  e[0] = w;
  e[1] = h;
  Int const id = model.addRectangularPinMesh(e, nx, ny);
  std::string const name = mc::fmt("rectangle %g x %g in %d x %d", w, h, nx, ny);
  MC_REQUIRE(id == 0 && model.quadMeshes().size() == 1 && mc::outputSize() == before, "rectangle-refused", "%s", name.c_str());
  Mesh const m = gen::fromLib<gen::quad>(model.getQuadMesh(0));
  MC_REQUIRE(m.f.size() == size_t(nx * ny), "rectangle-faces", "%s: %zu", name.c_str(), m.f.size());
  std::string const defect = gen::tilingDefect(m, w, h, 1e-9L * std::max(w, h));
  MC_REQUIRE(defect.empty(), "rectangle-tiling", "%s: %s", name.c_str(), defect.c_str());
  for (size_t i = 0; i < m.f.size(); ++i) {
    P lo = {1e30L, 1e30L};
    P hi = {-1e30L, -1e30L};
    for (auto const & edge : m.edges(i)) {
      ref::extend(edge, lo, hi);
    }
    bool const equal = std::abs(hi.x - lo.x - LD(w) / nx) < 1e-9L * w && std::abs(hi.y - lo.y - LD(h) / ny) < 1e-9L * h;
    MC_CHECK(equal && std::abs(gen::faceArea(m, i) - LD(w) * h / (nx * ny)) < 1e-9L * w * h, "rectangle-cell", "%s: face %zu", name.c_str(), i);
  }
  mc::transition(m.f.size());
  mc::state(mc::hashStr(name));
  mc::trace();
}

void
setup()
{
  um2::logger::exit_on_error = false;
  um2::logger::level = 2;
  int const rings = static_cast<int>(mc::pick(3, 4));
  u64 const azi = mc::pick(3, 4);
  mc::space("pin-meshes", 2 * azi * 5 * ((1 << NFRAC) - 1) * mc::ipow(u64(rings), 3), [=](u64 i) { pinMesh(i, rings); });
  mc::space("pin-cells", u64(2 * 2 * 3 * 8 * 81 * 2), pinCell);
  int const n = static_cast<int>(mc::pick(9, 20));
  mc::space("rectangles", u64(25 * n * n), [=](u64 i) { rectangle(i, n); });
}
} // namespace

MC_MAIN(setup)
