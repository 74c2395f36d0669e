// Library meshes from reference meshes.
#pragma once
#include "meshgen.hpp"

#include <um2/mesh/face_vertex_mesh.hpp>

namespace gen
{
template <int T>
struct Lib {
  static constexpr int N = T == 0 ? 3 : T == 1 ? 4 : T == 2 ? 6 : 8;
  using Fvm = um2::FaceVertexMesh<(T < 2 ? 1 : 2), N>;
  static constexpr um2::VTKElemType vtk = T == 0   ? um2::VTKElemType::Triangle
                                          : T == 1 ? um2::VTKElemType::Quad
                                          : T == 2 ? um2::VTKElemType::QuadraticTriangle
                                                   : um2::VTKElemType::QuadraticQuad;
};

template <int T>
typename Lib<T>::Fvm
build(Mesh const & m, std::vector<std::vector<int>> const & conn, bool via_soup, double z, long * warned)
{
  if (via_soup) {
    um2::PolytopeSoup soup;
    for (size_t i = 0; i < m.v.size(); ++i) {
      soup.addVertex(double(m.v[i].x), double(m.v[i].y), z + (z > 2 ? 0.5 * double(i % 3) : 0));
    }
    for (auto const & f : conn) {
      um2::Vector<Int> c;
      for (int k : f) {
        c.push_back(k);
      }
      soup.addElement(Lib<T>::vtk, c);
    }
    long const before = mc::outputSize();
    typename Lib<T>::Fvm fvm(soup);
    *warned = mc::outputSize() - before;
    return fvm;
  }
  um2::Vector<um2::Point2<Float>> v;
  for (auto const & p : m.v) {
    um2::Point2<Float> q;
    q[0] = double(p.x);
    q[1] = double(p.y);
    v.push_back(q);
  }
  um2::Vector<typename Lib<T>::Fvm::FaceConn> fv;
  for (auto const & f : conn) {
    typename Lib<T>::Fvm::FaceConn c;
    for (Int k = 0; k < Lib<T>::N; ++k) {
      c[k] = f[size_t(k)];
    }
    fv.push_back(c);
  }
  long const before = mc::outputSize();
  typename Lib<T>::Fvm fvm(v, fv);
  *warned = mc::outputSize() - before;
  return fvm;
}

} // namespace gen
