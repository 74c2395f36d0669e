// Small helpers around the CAD interface, used by several harnesses.
#pragma once
#include "mc.hpp"

#include <algorithm>
#include <cmath>
#include <map>
#include <set>

#include <um2/common/logger.hpp>
#include <um2/gmsh/base_gmsh_api.hpp>
#include <um2/gmsh/io.hpp>
#include <um2/gmsh/model.hpp>
#include <um2/physics/material.hpp>

namespace cad
{
using mc::u64;
namespace gm = um2::gmsh;
namespace gmm = um2::gmsh::model;
using Pairs = gm::vectorpair;
using Names = std::set<std::string>;

// One session per worker, an empty model per case
inline void
fresh()
{
  static bool started = false;
  if (!started) {
    gm::initialize();
    gm::option::setNumber("General.Terminal", 0);
    started = true;
  }
  gm::clear();
}

// Names of the groups of an entity; a group without a name is given by its number
inline Names
groupsOf(int dim, int tag)
{
  std::vector<int> p;
  gmm::getPhysicalGroupsForEntity(dim, tag, p);
  Names n;
  for (int t : p) {
    std::string s;
    gmm::getPhysicalName(dim, t, s);
    n.insert(s.empty() ? mc::fmt("#%d", t) : s);
  }
  return n;
}

inline std::string
str(Names const & n)
{
  std::string s = "{";
  for (auto const & x : n) {
    s += x + " ";
  }
  return s + "}";
}

inline um2::Material
material(std::string const & name, int r, int g, int b)
{
  um2::Material m;
  m.setName(um2::String(name.c_str()));
  m.setColor(um2::Color(r, g, b, 255));
  return m;
}

inline std::vector<int>
entities(int dim)
{
  Pairs p;
  gmm::getEntities(p, dim);
  std::vector<int> t;
  for (auto const & x : p) {
    t.push_back(x.second);
  }
  return t;
}

inline double
mass(int dim, int tag)
{
  double m = 0;
  gmm::occ::getMass(dim, tag, m);
  return m;
}

inline std::array<double, 3>
centre(int dim, int tag)
{
  std::array<double, 3> c{};
  gmm::occ::getCenterOfMass(dim, tag, c[0], c[1], c[2]);
  return c;
}

inline std::array<int, 4>
color(int dim, int tag)
{
  std::array<int, 4> c{};
  gmm::getColor(dim, tag, c[0], c[1], c[2], c[3]);
  return c;
}
} // namespace cad
