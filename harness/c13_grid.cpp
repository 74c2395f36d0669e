// C13: regular and rectilinear grids and partitions.
#include "mc.hpp"

#include <um2/mesh/rectilinear_partition.hpp>
#include <um2/mesh/regular_partition.hpp>

#include <algorithm>
#include <cmath>

namespace
{
using mc::u64;

double const SP[] = {1, 0.5, 0.01, 3};
double const LO[] = {0, -2.5, 7.3};

template <int D, class G>
auto
boxAt(G const & g, Int const * i)
{
  if constexpr (D == 1) {
    return g.getBox(i[0]);
  } else if constexpr (D == 2) {
    return g.getBox(i[0], i[1]);
  } else {
    return g.getBox(i[0], i[1], i[2]);
  }
}
template <int D, class G>
Int
flatAt(G const & g, Int const * i)
{
  if constexpr (D == 1) {
    return g.getFlatIndex(i[0]);
  } else if constexpr (D == 2) {
    return g.getFlatIndex(i[0], i[1]);
  } else {
    return g.getFlatIndex(i[0], i[1], i[2]);
  }
}
template <int D, class Part>
Int
childAt(Part & p, Int const * i)
{
  if constexpr (D == 1) {
    return p.getChild(i[0]);
  } else if constexpr (D == 2) {
    return p.getChild(i[0], i[1]);
  } else {
    return p.getChild(i[0], i[1], i[2]);
  }
}

// div[k] are the expected division planes along axis k
template <int D, class G>
void
checkTiling(G const & g, std::vector<double> const * div, std::string const & w)
{
  char const * const c = w.c_str();
  u64 total = 1;
  for (int k = 0; k < D; ++k) {
    Int const n = Int(div[k].size()) - 1;
    total *= u64(n);
    MC_REQUIRE(g.numCells(k) == n && g.numCells()[k] == n, "num-cells", "%s axis %d: %d", c, k, int(g.numCells(k)));
    double const lo = div[k].front();
    double const hi = div[k].back();
    double const tol = 1e-11 * (1 + std::abs(lo) + std::abs(hi));
    MC_CHECK(std::abs(g.minima(k) - lo) < tol && std::abs(g.minima()[k] - lo) < tol, "minima", "%s axis %d", c, k);
    MC_CHECK(std::abs(g.maxima(k) - hi) < tol && std::abs(g.maxima()[k] - hi) < tol, "maxima", "%s axis %d", c, k);
    MC_CHECK(std::abs(g.extents(k) - (hi - lo)) < tol && std::abs(g.extents()[k] - (hi - lo)) < tol, "extents", "%s axis %d", c, k);
    auto const bb = g.boundingBox();
    MC_CHECK(std::abs(bb.minima(k) - lo) < tol && std::abs(bb.maxima(k) - hi) < tol, "bounding-box", "%s axis %d", c, k);
  }
  MC_CHECK(u64(g.totalNumCells()) == total, "total", "%s: %d", c, int(g.totalNumCells()));
  std::vector<int> seen(total, 0);
  for (u64 i = 0; i < total; ++i) {
    mc::Dec q(i);
    Int ix[D];
    um2::Vec<D, Int> v;
    for (int k = 0; k < D; ++k) {
      ix[k] = Int(q.get(u64(div[k].size()) - 1));
      v[k] = ix[k];
    }
    Int const f = flatAt<D>(g, ix);
    MC_REQUIRE(f >= 0 && u64(f) < total && g.getFlatIndex(v) == f, "flat-range", "%s cell %llu: %d", c, (unsigned long long)i, int(f));
    MC_CHECK(u64(f) == i, "flat-order", "%s cell %llu: %d", c, (unsigned long long)i, int(f)); // first axis fastest
    ++seen[size_t(f)];
    auto const b = boxAt<D>(g, ix);
    for (int k = 0; k < D; ++k) {
      double const lo = div[k][size_t(ix[k])];
      double const hi = div[k][size_t(ix[k]) + 1];
      double const tol = 1e-11 * (1 + std::abs(lo) + std::abs(hi));
      MC_CHECK(std::abs(b.minima(k) - lo) < tol && std::abs(b.maxima(k) - hi) < tol, "cell-box", "%s cell %llu axis %d: [%.12g,%.12g] expected [%.12g,%.12g]",
               c, (unsigned long long)i, k, b.minima(k), b.maxima(k), lo, hi);
    }
    mc::transition();
  }
  for (u64 i = 0; i < total; ++i) {
    MC_CHECK(seen[i] == 1, "flat-bijection", "%s index %llu", c, (unsigned long long)i);
  }
}

template <int D>
void
regular(u64 idx, int maxn, bool boxes)
{
  mc::Dec q(idx);
  um2::Point<D, double> lo;
  um2::Vec<D, double> sp;
  um2::Vec<D, Int> n;
  std::vector<double> div[D];
  std::string w = mc::fmt("%dD", D);
  for (int k = 0; k < D; ++k) {
    n[k] = q.geti(maxn) + 1;
    sp[k] = SP[q.geti(4)];
    lo[k] = LO[q.geti(3)];
    for (Int i = 0; i <= n[k]; ++i) {
      div[k].push_back(lo[k] + sp[k] * i);
    }
    w += mc::fmt(" [%g +%g x%d]", lo[k], sp[k], int(n[k]));
  }
  char const * const c = w.c_str();
  um2::RegularGrid<D, double> const g(lo, sp, n);
  checkTiling<D>(g, div, w);
  for (int k = 0; k < D; ++k) {
    MC_CHECK(g.spacing(k) == sp[k] && g.spacing()[k] == sp[k], "spacing", "%s", c);
  }
  // one-cell grid over the bounding box
  {
    um2::RegularGrid<D, double> const one(g.boundingBox());
    for (int k = 0; k < D; ++k) {
      MC_CHECK(one.numCells(k) == 1 && std::abs(one.minima(k) - g.minima(k)) < 1e-11 && std::abs(one.maxima(k) - g.maxima(k)) < 1e-11,
               "grid-of-box", "%s", c);
    }
  }
  // centroids and a partition over the cells
  u64 const total = u64(g.totalNumCells());
  um2::Vector<Int> kids(static_cast<Int>(total));
  for (u64 i = 0; i < total; ++i) {
    kids[Int(i)] = Int(1000 + 7 * i);
  }
  um2::RegularPartition<D, Int> part(g, kids);
  um2::RegularPartition<D, Int> const & cpart = part;
  for (u64 i = 0; i < total; ++i) {
    mc::Dec r(i);
    Int ix[D];
    for (int k = 0; k < D; ++k) {
      ix[k] = Int(r.get(u64(n[k])));
    }
    um2::Point<D, double> cen;
    if constexpr (D == 1) {
      cen = g.getCellCentroid(ix[0]);
    } else if constexpr (D == 2) {
      cen = g.getCellCentroid(ix[0], ix[1]);
    } else {
      cen = g.getCellCentroid(ix[0], ix[1], ix[2]);
    }
    for (int k = 0; k < D; ++k) {
      MC_CHECK(std::abs(cen[k] - (lo[k] + sp[k] * (ix[k] + 0.5))) < 1e-11 * (10 + std::abs(cen[k])), "centroid", "%s", c);
    }
    MC_CHECK(childAt<D>(part, ix) == Int(1000 + 7 * i) && childAt<D>(cpart, ix) == Int(1000 + 7 * i), "partition-child", "%s", c);
  }
  // points on the third-cell lattice, from outside to outside, and far away
  int np[D];
  u64 all = 1;
  for (int k = 0; k < D; ++k) {
    np[k] = 3 * (int(n[k]) + 2) + 2;
    all *= u64(np[k]);
  }
  auto const coord = [&](int k, int j) -> double {
    if (j == np[k] - 1) {
      return 1e8;
    }
    if (j == np[k] - 2) {
      return -1e8;
    }
    return lo[k] + sp[k] * ((j - 3) / 3.0 + 1.0 / 6);
  };
  auto const cellOf = [&](int k, double x) -> Int {
    for (Int i = 0; i < n[k]; ++i) {
      if (x > div[k][size_t(i)] && x < div[k][size_t(i) + 1]) {
        return i;
      }
    }
    return -1;
  };
  for (u64 i = 0; i < all; ++i) {
    mc::Dec r(i);
    um2::Point<D, double> x;
    Int want[D];
    bool in = true;
    for (int k = 0; k < D; ++k) {
      x[k] = coord(k, r.geti(np[k]));
      want[k] = cellOf(k, x[k]);
      in = in && want[k] >= 0;
    }
    auto const got = g.getCellIndexContaining(x);
    for (int k = 0; k < D; ++k) {
      MC_CHECK(got[k] == want[k], "cell-of-point", "%s axis %d coordinate %g: %d expected %d", c, k, x[k], int(got[k]), int(want[k]));
    }
    mc::transition();
  }
  if (boxes) {
    // all boxes along each axis; the other axes use a rotating choice so that mixed cases occur
    std::vector<std::pair<double, double>> iv[D];
    for (int k = 0; k < D; ++k) {
      for (int a = 0; a < np[k]; ++a) {
        for (int b = 0; b < np[k]; ++b) {
          if (coord(k, a) < coord(k, b)) {
            iv[k].push_back({coord(k, a), coord(k, b)});
          }
        }
      }
    }
    size_t most = 0;
    for (auto const & v : iv) {
      most = std::max(most, v.size());
    }
    u64 const combos = D == 1 ? most : most * (D == 2 ? iv[1].size() : 64);
    for (u64 i = 0; i < combos; ++i) {
      um2::Point<D, double> a;
      um2::Point<D, double> b;
      std::pair<double, double> p[D];
      p[0] = iv[0][i % iv[0].size()];
      if constexpr (D >= 2) {
        p[1] = iv[1][(i / most) % iv[1].size()];
      }
      if constexpr (D == 3) {
        p[1] = iv[1][(i * 7 + i / most) % iv[1].size()];
        p[2] = iv[2][(i * 13 + i / most) % iv[2].size()];
      }
      for (int k = 0; k < D; ++k) {
        a[k] = p[k].first;
        b[k] = p[k].second;
      }
      auto const got = g.getCellIndicesIntersecting(um2::AxisAlignedBox<D, double>(a, b));
      for (int k = 0; k < D; ++k) {
        Int first = -1;
        Int last = -1;
        for (Int j = 0; j < n[k]; ++j) {
          if (a[k] < div[k][size_t(j) + 1] && b[k] > div[k][size_t(j)]) {
            last = j;
            if (first < 0) {
              first = j;
            }
          }
        }
        MC_CHECK(got[k] == first && got[k + D] == last, "cells-of-box", "%s axis %d [%g,%g]: %d..%d expected %d..%d", c, k, a[k], b[k],
                 int(got[k]), int(got[k + D]), int(first), int(last));
      }
      mc::transition();
    }
  }
  mc::state(mc::hashStr(w));
  mc::trace();
  if (idx > 50) {
    mc::sample(w);
  }
}

// Rectilinear grids from all boxes in several orders
template <int D>
void
rectilinear(u64 idx, int maxn)
{
  static double const pat[4][3] = {{1, 1, 1}, {0.5, 1.5, 2}, {3, 0.1, 0.7}, {0.3, 0.3, 5}};
  mc::Dec q(idx);
  std::vector<double> div[D];
  std::string w = mc::fmt("rectilinear %dD", D);
  for (int k = 0; k < D; ++k) {
    int const n = q.geti(maxn) + 1;
    int const p = q.geti(4);
    double x = LO[q.geti(3)];
    div[k].push_back(x);
    for (int i = 0; i < n; ++i) {
      x += pat[p][i % 3];
      div[k].push_back(x);
    }
    w += mc::fmt(" [%g x%d pattern %d]", div[k][0], n, p);
  }
  int const order = q.geti(6);
  std::vector<um2::AxisAlignedBox<D, double>> bs;
  u64 total = 1;
  for (int k = 0; k < D; ++k) {
    total *= div[k].size() - 1;
  }
  for (u64 i = 0; i < total; ++i) {
    mc::Dec r(i);
    um2::Point<D, double> a;
    um2::Point<D, double> b;
    for (int k = 0; k < D; ++k) {
      size_t const j = size_t(r.get(div[k].size() - 1));
      a[k] = div[k][j];
      b[k] = div[k][j + 1];
    }
    bs.push_back({a, b});
  }
  // orders: as is, reversed, rotated, odd-even, from the middle, interleaved
  std::vector<size_t> perm;
  for (size_t i = 0; i < bs.size(); ++i) {
    perm.push_back(i);
  }
  if (order == 1) {
    std::reverse(perm.begin(), perm.end());
  } else if (order == 2) {
    std::rotate(perm.begin(), perm.begin() + long(bs.size() / 2), perm.end());
  } else if (order >= 3) {
    size_t const step = order == 3 ? 2 : (order == 4 ? 3 : 5);
    perm.clear();
    for (size_t s = 0; s < step; ++s) {
      for (size_t i = s; i < bs.size(); i += step) {
        perm.push_back(i);
      }
    }
  }
  um2::Vector<um2::AxisAlignedBox<D, double>> v;
  for (size_t i : perm) {
    v.push_back(bs[i]);
  }
  um2::RectilinearGrid<D, double> g(v);
  w += mc::fmt(" order %d", order);
  checkTiling<D>(g, div, w);
  for (int k = 0; k < D; ++k) {
    auto const & cg = g;
    MC_CHECK(std::vector<double>(cg.divs(k).begin(), cg.divs(k).end()) == div[k], "divisions", "%s", w.c_str());
  }
  um2::RectilinearGrid<D, double> const one(g.boundingBox());
  for (int k = 0; k < D; ++k) {
    MC_CHECK(one.numCells(k) == 1 && one.minima(k) == div[k].front() && one.maxima(k) == div[k].back(), "grid-of-box", "%s", w.c_str());
  }
  um2::Vector<Int> kids(static_cast<Int>(total));
  for (u64 i = 0; i < total; ++i) {
    kids[Int(i)] = Int(1000 + 7 * i);
  }
  um2::RectilinearPartition<D, Int> part(g, kids);
  um2::RectilinearPartition<D, Int> const & cpart = part;
  MC_CHECK(part.children().size() == Int(total) && part.grid().totalNumCells() == Int(total), "partition", "%s", w.c_str());
  for (u64 i = 0; i < total; ++i) {
    mc::Dec r(i);
    Int ix[D];
    for (int k = 0; k < D; ++k) {
      ix[k] = Int(r.get(div[k].size() - 1));
    }
    MC_CHECK(childAt<D>(part, ix) == Int(1000 + 7 * i) && childAt<D>(cpart, ix) == Int(1000 + 7 * i), "partition-child", "%s", w.c_str());
  }
  mc::state(mc::hashStr(w));
  mc::trace();
}

// Grids and partitions from cell sizes and rows of ids: ids 0..3 have two widths and two heights, id
// + 4 is a second kind of the same size
void
rows(u64 idx, int maxr, int maxc)
{
  mc::Dec q(idx);
  int const nr = q.geti(maxr) + 1;
  int const nc = q.geti(maxc) + 1;
  std::vector<int> wide;
  std::vector<int> tall;
  for (int j = 0; j < nc; ++j) {
    wide.push_back(q.geti(2));
  }
  for (int i = 0; i < nr; ++i) {
    tall.push_back(q.geti(2));
  }
  double const dx[2] = {1, 2.5};
  double const dy[2] = {1, 0.75};
  um2::Vector<um2::Vec2F> dxdy;
  for (int id = 0; id < 8; ++id) {
    um2::Vec2F v;
    v[0] = dx[id & 1];
    v[1] = dy[(id >> 1) & 1];
    dxdy.push_back(v);
  }
  int const kinds = nr * nc <= 6 ? 1 << (nr * nc) : 16;
  for (int kind = 0; kind < kinds; ++kind) {
    um2::Vector<um2::Vector<Int>> ids;
    std::string w = "rows";
    for (int i = 0; i < nr; ++i) {
      um2::Vector<Int> row;
      w += " {";
      for (int j = 0; j < nc; ++j) {
        int const bit = nr * nc <= 6 ? (kind >> (i * nc + j)) & 1 : ((i * 7 + j * 3 + i * j) * (kind + 1) >> 2) & 1;
        row.push_back(Int(wide[size_t(j)] + 2 * tall[size_t(i)] + 4 * bit));
        w += mc::fmt(" %d", int(row.back()));
      }
      w += " }";
      ids.push_back(row);
    }
    std::vector<double> div[2] = {{0}, {0}};
    for (int j = 0; j < nc; ++j) {
      div[0].push_back(div[0].back() + dx[wide[size_t(j)]]);
    }
    for (int i = nr - 1; i >= 0; --i) {
      div[1].push_back(div[1].back() + dy[tall[size_t(i)]]);
    }
    um2::RectilinearGrid<2, Float> const g(dxdy, ids);
    checkTiling<2>(g, div, w);
    um2::RectilinearPartition<2, Int> const p(dxdy, ids);
    um2::RectilinearPartition<2, int16_t> const p16(dxdy, ids);
    checkTiling<2>(p.grid(), div, w);
    for (int i = 0; i < nr; ++i) {
      for (int j = 0; j < nc; ++j) {
        // row i counts from the top, cell index from the bottom
        Int const want = ids[i][j];
        Int const got = p.getChild(Int(j), Int(nr - 1 - i));
        MC_CHECK(got == want && p.children()[(nr - 1 - i) * nc + j] == want, "row-placement", "%s row %d column %d: %d", w.c_str(), i, j, int(got));
        MC_CHECK(p16.getChild(Int(j), Int(nr - 1 - i)) == int16_t(want), "row-placement", "%s", w.c_str());
      }
    }
    auto cl = p;
    cl.clear();
    MC_CHECK(cl.children().empty() && cl.grid().divs(0).empty() && cl.grid().divs(1).empty(), "clear", "%s", w.c_str());
    mc::state(mc::hashStr(w));
    mc::trace();
  }
}

void
setup()
{
  int const n1 = static_cast<int>(mc::pick(12, 40));
  mc::space("regular-1d", u64(n1) * 12, [=](u64 i) { regular<1>(i, n1, true); });
  int const n2 = static_cast<int>(mc::pick(3, 5));
  mc::space("regular-2d", mc::ipow(u64(n2) * 12, 2), [=](u64 i) { regular<2>(i, n2, n2 <= 3 || i % 5 == 0); });
  int const n3 = 2;
  mc::space("regular-3d", mc::ipow(u64(n3) * 12, 3), [=](u64 i) { regular<3>(i, n3, true); });
  mc::space("rectilinear-1d", u64(n1) * 12 * 6, [=](u64 i) { rectilinear<1>(i, n1); });
  mc::space("rectilinear-2d", mc::ipow(4 * 12, 2) * 6, [=](u64 i) { rectilinear<2>(i, 4); });
  mc::space("rectilinear-3d", mc::ipow(3 * 12, 3) * 2, [=](u64 i) { rectilinear<3>(i, 3); });
  int const r = static_cast<int>(mc::pick(4, 5));
  mc::space("rows", u64(r * r) * mc::ipow(2, r + r), [=](u64 i) { rows(i, r, r); });
  mc::space("rows-long", 24 * 24, [=](u64 i) { rows(i, 24, 24); });
}

} // namespace

MC_MAIN(setup)
