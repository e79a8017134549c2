// Specification units: cubic and file hypergraphs (topology, geometry, node descriptor) and their refinement.
//@headers topology/cubic.hxx topology/file.hxx geometry/unit_cube.hxx geometry/file.hxx node_descriptor/cubic.hxx node_descriptor/file.hxx wrapper/tpcc.hxx
//@incdir stubs
#include <algorithm>
#include <array>
#include <string>
#include <vector>
#include <HyperHDG/hy_assert.hxx>
#include <HyperHDG/hypercube.hxx>
#include "vp.hxx"
using uint = unsigned int;
#include <HyperHDG/topology/cubic.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/topology/file.hxx>
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/node_descriptor/file.hxx>

constexpr uint ipow(uint b, uint e) { return e == 0 ? 1 : b * ipow(b, e - 1); }
// number of hyperedges of a grid with n_j cells in direction j
template <uint d, uint s> uint n_cells(const SmallVec<s, uint>& n)
{
  uint r = 0;
  for (uint m = 0; m < (1u << s); ++m)
  {
    uint bits = 0, p = 1;
    for (uint j = 0; j < s; ++j)
      if ((m >> j) & 1)
      {
        ++bits;
        p *= n[j];
      }
      else
        p *= n[j] + 1;
    if (bits == d)
      r += p;
  }
  return r;
}
template <uint s> SmallVec<s, uint> sizes(uint n0, uint n1, uint n2)
{
  SmallVec<s, uint> n;
  const uint a[3] = {n0, n1, n2};
  for (uint j = 0; j < s; ++j)
    n[j] = a[j];
  return n;
}
// position on the refined grid, in half cells; 1000000 if it is not a half cell
template <uint s, class P> std::array<uint, s> half_cells(const P& p, const SmallVec<s, uint>& n, uint r)
{
  std::array<uint, s> k;
  for (uint j = 0; j < s; ++j)
  {
    k[j] = 1000000;
    for (uint m = 0; m <= 2 * n[j] * r; ++m)
      if (p[j] * (2. * n[j] * r) == (double)m)
        k[j] = m;
  }
  return k;
}
// history of the refinement: 0 refine everything afterwards, 1 derive geometry and types from the refined topology,
// 2 an intermediate other refinement, 3 copies of the refined objects
//@unit P09 cubic<{d},{s},{n0},{n1},1,{r},{h}> d=1,2 s=2 n0=1,2 n1=1,3 r=1,2 h=0,1,2,3 if=(h==0)or(r==2)
//@unit P09 cubic<1,1,{n0},1,1,{r},{h}> n0=1,3 r=1,2,3 h=0,1,2,3
//@unit P09 cubic<{d},3,{n0},1,{n2},{r},{h}> d=1,2,3 n0=1,2 n2=1 r=1,2 h=0,1,2 if=((r==2)or(h==0))and(n0*r<4)
//@unit P09 cubic<{d},3,2,1,{n2},2,{h}> d=1,2,3 n2=1,2 h=0,1 tier=thorough mode=ndebug
//@unit P09 cubic<{d},2,{n0},{n1},1,{r},{h}> d=1,2 n0=2,3 n1=2,4 r=1,3 h=0,1 tier=thorough mode=ndebug
//@unit P09 cubic<2,2,1,1,1,3,{h}> h=0,1,2,3
//@unit P09 cubic<1,1,{n0},1,1,{r},{h}> n0=@1,5,9<=40 r=@1,4,5<=20 h=0,1 if=((n0*r<=25)or(r==1))and((h==0)or(r>1))
//@unit P09 cubic<{d},2,{n0},{n1},1,1,0> d=1,2 n0=4,5 n1=3,5
//@unit P09 cubic<2,2,1,1,1,{r},{h}> r=4,5 h=0,1
template <uint d, uint s, uint n0, uint n1, uint n2, uint r, uint h> void cubic()
{
  const SmallVec<s, uint> n = sizes<s>(n0, n1, n2);
  Topology::Cubic<d, s> t0{n};
  if (h == 1 || h == 3)
    t0.set_refinement(r);
  Topology::Cubic<d, s> t(t0);
  Geometry::UnitCube<d, s> g(t);
  NodeDescriptor::Cubic<d, s> nd(t);
  if (h == 2)
  {
    t.set_refinement(r + 1);
    g.set_refinement(r + 1);
    nd.set_refinement(r + 1);
  }
  if (h == 0 || h == 2)
  {
    t.set_refinement(r);
    g.set_refinement(r);
    nd.set_refinement(r);
  }
  vp_true("refinement", t.get_refinement() == r && g.get_refinement() == r && nd.get_refinement() == r);
  vp_true("dimensions", t.hyEdge_dim() == d && t.space_dim() == s && g.hyEdge_dim() == d && g.space_dim() == s);
  const uint ne = n_cells<d, s>(n) * ipow(r, d);
  vp_eq_u("number of hyperedges", 0, t.n_hyEdges(), ne);
  vp_eq_u("number of hyperedges with types", 0, nd.n_hyEdges(), ne);
  std::vector<std::array<uint, s>> cell(ne), face(2 * d * ne);
  std::vector<uint> node(2 * d * ne);
  for (uint e = 0; e < ne; ++e)
  {
    const auto ge = g[e];
    const auto te = t[e];
    const auto ty = nd[e];
    cell[e] = half_cells<s>(ge.map_ref_to_phys(Point<d, double>(0.5)), n, r);
    uint odd = 0;
    bool grid = true;
    std::array<uint, s> dirs{};
    for (uint j = 0; j < s; ++j)
      if (cell[e][j] % 2 == 1)
        dirs[odd++] = j;
      else if (cell[e][j] % (2 * r) != 0)
        grid = false;
    vp_true("a hyperedge is a cell of the refined grid", grid && odd == d);
    bool once = true;
    for (uint f = 0; f < e; ++f)
      once = once && cell[f] != cell[e];
    vp_true("hyperedges are different cells", once);
    for (uint i = 0; i < 2 * d; ++i)
    {
      const uint k = 2 * d * e + i;
      face[k] = half_cells<s>(ge.face_barycenter(i), n, r);
      std::array<uint, s> w = cell[e];
      w[dirs[i / 2]] += i % 2 ? 1 : -1;
      vp_true("faces of a hyperedge", face[k] == w);
      node[k] = te.get_hyNode_indices()[i];
      vp_true("hypernode exists", node[k] < t.n_hyNodes());
      // type: boundary directions, if the face lies on the coarse skeleton
      uint fixed = 0, type = 0;
      for (uint j = 0; j < s; ++j)
        if (w[j] % (2 * r) == 0)
        {
          ++fixed;
          if (w[j] == 0)
            type += ipow(3, j);
          else if (w[j] == 2 * n[j] * r)
            type += 2 * ipow(3, j);
        }
      vp_eq_u("type of a hypernode", k, ty[i], fixed == s - d + 1 ? type : 0);
    }
  }
  uint distinct = 0;
  for (uint k = 0; k < 2 * d * ne; ++k)
  {
    bool ok = true, first = true;
    for (uint l = 0; l < k; ++l)
    {
      ok = ok && ((face[l] == face[k]) == (node[l] == node[k]));
      first = first && face[l] != face[k];
    }
    distinct += first;
    vp_true("common hypernode if and only if common face", ok);
  }
  vp_eq_u("number of hypernodes", 0, t.n_hyNodes(), distinct);
}
//@unit P09 cubic_range<{d},{s},{r}> d=1,2 s=2 r=1,2
template <uint d, uint s, uint r> void cubic_range()
{
  Topology::Cubic<d, s> t{sizes<s>(2, 2, 2)};
  t.set_refinement(r);
  const uint i = vp_in_u("i", 0);
  VP_ABORT_IFF(true);
  vp_assume(i == t.n_hyEdges());
  t[t.n_hyEdges()];
}

// ------------------------------------------------------------------------------------------------
// geometry of a hyperedge, given as corner and spanning vectors
// ------------------------------------------------------------------------------------------------
template <uint s> struct Affine
{
  std::array<double, s> c;
  std::array<std::array<double, s>, s> v;  // v[k]: k-th spanning vector
};
#ifdef NDEBUG
double ref_d(const char* n, uint i) { return vp_in_d(n, i); }
float ref_f(const char* n, uint i) { return vp_in_f(n, i); }
#else  // points are asserted to lie in the reference element
double ref_d(const char*, uint i) { return (double)((3 * i + 2) % 8) / 8.; }
float ref_f(const char*, uint i) { return (float)((5 * i + 1) % 8) / 8.f; }
#endif
template <uint d, uint s, class G> void maps(const G& g, const Affine<s>& a)
{
  constexpr uint m = 2;
  SmallMat<d, m, double> ref;
  for (uint i = 0; i < ref.size(); ++i)
    ref[i] = ref_d("x", i);
  const SmallMat<d, m, double> x(ref);
  const SmallMat<s, m, double> p = g.map_ref_to_phys(x);
  for (uint j = 0; j < s; ++j)
    for (uint q = 0; q < m; ++q)
    {
      double w = a.c[j];
      for (uint k = 0; k < d; ++k)
        w += ref_d("x", q * d + k) * a.v[k][j];
      vp_eq_d("mapped point", j * 10 + q, p(j, q), w);
    }
  if constexpr (d == s)
  {
    SmallMat<s, m, double> y = x;
    auto& z = g.map_ref_to_phys(y);
    vp_true("mapped in place", &z == &y);
    for (uint i = 0; i < y.size(); ++i)
      vp_eq_d("point mapped in place", i, y[i], p[i]);
  }
  for (uint k = 0; k < d; ++k)
  {
    const auto sv = g.span_vec(k);
    for (uint j = 0; j < s; ++j)
      vp_eq_d("spanning vector", k * 10 + j, sv[j], a.v[k][j]);
  }
  for (uint i = 0; i < 2 * d; ++i)
  {
    const auto b = g.face_barycenter(i);
    for (uint j = 0; j < s; ++j)
    {
      double w = a.c[j];
      for (uint k = 0; k < d; ++k)
        w += (k == i / 2 ? (double)(i % 2) : 0.5) * a.v[k][j];
      vp_eq_d("barycenter of a face", i * 10 + j, b[j], w);
    }
  }
  // plot points: first coordinate runs fastest
  constexpr uint n = 3;
  SmallVec<n, float> one;
  for (uint i = 0; i < n; ++i)
    one[i] = ref_f("one", i);
  for (uint idx = 0; idx < ipow(n, d); ++idx)
  {
    const auto q = g.template lexicographic<n>(idx, one);
    for (uint j = 0; j < s; ++j)
    {
      double w = a.c[j];
      for (uint k = 0; k < d; ++k)
        w += (double)ref_f("one", idx / ipow(n, k) % n) * a.v[k][j];
      vp_eq_d("plot point", idx * 10 + j, q[j], w);
    }
  }
  const float scale = ref_f("bscale", 0);
  for (uint b = 0; b < 2 * d; ++b)
    for (uint idx = 0; idx < ipow(n, d - 1); ++idx)
    {
      const auto q = g.template boundary_lexicographic<n>(idx + b * ipow(n, d - 1), b, scale, one);
      for (uint j = 0; j < s; ++j)
      {
        double w = a.c[j];
        uint sub = 0;
        for (uint k = 0; k < d; ++k)
          if (k == b / 2)
            w += (ref_f("bscale", 0) * ((double)(b % 2) - 0.5) + 0.5) * a.v[k][j];
          else
            w += (double)ref_f("one", idx / ipow(n, sub++) % n) * a.v[k][j];
        vp_eq_d("plot point of a boundary", (b * 10 + idx) * 10 + j, q[j], w);
      }
    }
}
//@unit P18 unit_cube<{d},{s},{n0},{n1},1,{r},{e}> d=1,2 s=2 n0=1,2 n1=3 r=1,2 e=0,1,2,5 if=(d==1)or(e<n0*n1*r*r)
//@unit P18 unit_cube<1,1,{n0},1,1,{r},{e}> n0=1,3 r=1,2 e=0,1 if=e<n0*r
//@unit P18 unit_cube<{d},3,2,1,2,{r},{e}> d=1,2,3 r=1,2 e=0,3
template <uint d, uint s, uint n0, uint n1, uint n2, uint r, uint e> void unit_cube()
{
  const SmallVec<s, uint> n = sizes<s>(n0, n1, n2);
  Geometry::UnitCube<d, s> geo{n};
  geo.set_refinement(r);
  const auto g = geo[e];
  const auto corner = g.map_ref_to_phys(Point<d, double>(0.));
  Affine<s> a;
  std::array<bool, s> along{};
  double vol = 1.;
  for (uint j = 0; j < s; ++j)
    a.c[j] = corner[j];
  for (uint k = 0; k < d; ++k)
  {
    Point<d, double> unit(0.);
    unit[k] = 1.;
    const auto q = g.map_ref_to_phys(unit);
    uint nz = 0;
    for (uint j = 0; j < s; ++j)
    {
      a.v[k][j] = q[j] - corner[j];
      if (a.v[k][j] != 0.)
      {
        ++nz;
        vp_true("spanning vectors have different directions", !along[j]);
        along[j] = true;
        vp_eq_d("length of a cell", k, a.v[k][j], 1. / ((double)n[j] * (double)r));
        vol *= a.v[k][j];
        // inner and local normals of the faces of this direction
        for (uint side = 0; side < 2; ++side)
        {
          const auto in = g.inner_normal(2 * k + side);
          const auto lo = g.local_normal(2 * k + side);
          for (uint i = 0; i < s; ++i)
            vp_eq_d("inner normal", i, in[i], i == j ? (side ? 1. : -1.) : 0.);
          for (uint i = 0; i < d; ++i)
            vp_eq_d("local normal", i, lo[i], i == k ? (side ? 1. : -1.) : 0.);
        }
      }
    }
    vp_true("spanning vectors are parallel to the axes", nz == 1);
  }
  maps<d, s>(g, a);
  vp_eq_d("area", 0, g.area(), vol);
  for (uint i = 0; i < 2 * d; ++i)
  {
    double w = 1.;
    for (uint k = 0; k < d; ++k)
      for (uint j = 0; j < s; ++j)
        if (k != i / 2 && a.v[k][j] != 0.)
          w *= a.v[k][j];
    vp_eq_d("area of a face", i, g.face_area(i), w);
  }
  // Q R has the spanning vectors as its first columns, Q is orthogonal
  const auto q = g.mat_q();
  const auto R = g.mat_r();
  for (uint k = 0; k < d; ++k)
    for (uint j = 0; j < s; ++j)
    {
      double w = 0.;
      for (uint i = 0; i < d; ++i)
        w += q(j, i) * R(i, k);
      vp_eq_d("QR decomposition", k * 10 + j, w, a.v[k][j]);
    }
  for (uint k = 0; k < s; ++k)
    for (uint l = 0; l < s; ++l)
    {
      double w = 0.;
      for (uint i = 0; i < s; ++i)
        w += q(i, k) * q(i, l);
      vp_eq_d("Q is orthogonal", k * 10 + l, w, k == l ? 1. : 0.);
    }
  for (uint k = 0; k + d < s; ++k)
  {
    const auto o = g.outer_normal(k);
    for (uint l = 0; l <= k; ++l)
    {
      const auto o2 = g.outer_normal(l);
      double w = 0.;
      for (uint i = 0; i < s; ++i)
        w += o[i] * o2[i];
      vp_eq_d("outer normals are orthonormal", k * 10 + l, w, k == l ? 1. : 0.);
    }
    for (uint m = 0; m < d; ++m)
    {
      double w = 0.;
      for (uint i = 0; i < s; ++i)
        w += o[i] * a.v[m][i];
      vp_eq_d("outer normals are orthogonal to the hyperedge", k * 10 + m, w, 0.);
    }
  }
}

// ------------------------------------------------------------------------------------------------
// hypergraphs from domain files: coarse connectivity is concrete, points and types are arbitrary
// ------------------------------------------------------------------------------------------------
// id 0: chain, 1: star / pages of a book at one hypernode, 2: single hyperedge
template <uint d, uint id> constexpr uint fnode(uint e, uint i)
{
  if (id == 2)
    return i;
  if (id == 1)
    return i == 0 ? 0 : 1 + e * (2 * d - 1) + i - 1;
  return i == 0 ? e : i == 1 ? e + 1 : 10 + 10 * e + i;  // chain in the first direction
}
template <uint d, uint id> constexpr uint compact(uint e, uint i, uint ne)
{
  // hypernodes without gaps
  if (id != 0 || d == 1)
    return fnode<d, id>(e, i);
  return i < 2 ? e + i : ne + 1 + e * (2 * d - 2) + i - 2;
}
template <uint d, uint s, uint id, uint ne, uint props, bool concrete = false> void write_domain()
{
  std::string t, p;
  const uint nn = id == 0 ? (d == 1 ? ne + 1 : ne + 1 + ne * (2 * d - 2)) : id == 1 ? 1 + ne * (2 * d - 1) : 2 * d;
  constexpr uint nv = 1 << d;
  vp_text_(&p, "Space_Dim = %u;\nHyperEdge_Dim = %u;\nN_Points = %u;\nN_HyperNodes = %u;\nN_HyperEdges = %u;\nPOINTS:\n", s, d, ne * nv, nn, ne);
  t += p;
  for (uint i = 0; i < ne * nv; ++i)
  {
    for (uint j = 0; j < s; ++j)
    {
      if (concrete)
        p = std::to_string(j == 0 ? i : i * i % 7) + " ";
      else
        vp_text_(&p, "%g ", vp_in_d("pt", i * 10 + j));
      t += p;
    }
    t += "\n";
  }
  t += "HYPERNODES_OF_HYPEREDGES:\n";
  for (uint e = 0; e < ne; ++e)
  {
    for (uint i = 0; i < 2 * d; ++i)
      t += std::to_string(compact<d, id>(e, i, ne)) + " ";
    t += "\n";
  }
  t += "TYPES_OF_HYPERFACES:\n";
  for (uint e = 0; e < ne; ++e)
  {
    for (uint i = 0; i < 2 * d; ++i)
    {
      vp_text_(&p, "%u ", vp_in_u("type", e * 10 + i));
      t += p;
    }
    t += "\n";
  }
  t += "POINTS_OF_HYPEREDGES:\n";
  for (uint e = 0; e < ne; ++e)
  {
    for (uint i = 0; i < nv; ++i)
      t += std::to_string(e * nv + i) + " ";
    t += "\n";
  }
  if (props > 0)
  {
    t += "HYPEREDGE_PROPERTIES: " + std::to_string(props) + "\n";
    for (uint e = 0; e < ne; ++e)
    {
      for (uint i = 0; i < props; ++i)
      {
        vp_text_(&p, "%g ", vp_in_d("prop", e * 10 + i));
        t += p;
      }
      t += "\n";
    }
  }
  vp_file_s("graph.geo", t);
}
// position of a face of a sub-cell in its coarse hyperedge
template <uint d> struct Sub
{
  std::array<uint, d> cell, face;
  bool inner;
  uint slice;  // position on the coarse face
};
template <uint d> Sub<d> sub(uint loc, uint i, uint r)
{
  Sub<d> b;
  for (uint k = 0; k < d; ++k)
    b.cell[k] = loc / ipow(r, k) % r;
  b.face = b.cell;
  b.face[i / 2] += i % 2;
  b.inner = b.face[i / 2] != 0 && b.face[i / 2] != r;
  b.slice = 0;
  uint f = 1;
  for (uint k = 0; k < d; ++k)
    if (k != i / 2)
    {
      b.slice += f * b.cell[k];
      f *= r;
    }
  return b;
}
//@unit P19 file_topo<{d},{s},{id},{ne},{r},{h}> d=1 s=1,2,3 id=0,1 ne=1,3 r=1,2,3 h=0,1,2 if=(s==2)or(h==0)
//@unit P19 file_topo<2,{s},{id},{ne},{r},{h}> s=2,3 id=0,1 ne=1,2 r=1,2 h=0,1,2 if=(s==3)or(h==0)
//@unit P19 file_topo<3,3,2,1,{r},0> r=1,2
//@unit P19 file_topo<1,2,{id},{ne},{r},{h}> id=0,1 ne=@1,5,8<=40 r=@1,4,5<=20 h=0,1 if=((ne*r<=25)or(r==1))and((h==0)or(r>1))
//@unit P19 file_topo<2,2,{id},{ne},{r},{h}> id=0,1 ne=1,5 r=1,3,4 h=0,1 if=((ne==1)or(r==1))and((h==0)or(r>1))
template <uint d, uint s, uint id, uint ne, uint r, uint h> void file_topo()
{
  write_domain<d, s, id, ne, 0, true>();
  Topology::File<d, s> t0(std::string("graph.geo"));
  if (h == 1)
    t0.set_refinement(r);
  Topology::File<d, s> t(t0);
  NodeDescriptor::File<d, s> nd0(t);
  if (h == 2)
  {
    t.set_refinement(r + 1);
    nd0.set_refinement(r + 1);
  }
  if (h != 1)
  {
    t.set_refinement(r);
    nd0.set_refinement(r);
  }
  NodeDescriptor::File<d, s> nd(nd0);
  vp_true("refinement", t.get_refinement() == r && nd.get_refinement() == r);
  const uint npe = ipow(r, d), n = ne * npe;
  vp_eq_u("number of hyperedges", 0, t.n_hyEdges(), n);
  std::vector<uint> node(2 * d * n);
  for (uint e = 0; e < n; ++e)
  {
    const auto te = t[e];
    const auto ty = nd[e];
    for (uint i = 0; i < 2 * d; ++i)
    {
      node[2 * d * e + i] = te.get_hyNode_indices()[i];
      vp_true("hypernode exists", node[2 * d * e + i] < t.n_hyNodes());
      const Sub<d> b = sub<d>(e % npe, i, r);
      vp_eq_u("type of a face", 2 * d * e + i, ty[i], b.inner ? 0 : vp_in_u("type", e / npe * 10 + i));
    }
  }
  uint distinct = 0;
  for (uint k = 0; k < 2 * d * n; ++k)
  {
    bool ok = true, first = true;
    const uint e = k / (2 * d), i = k % (2 * d);
    const Sub<d> b = sub<d>(e % npe, i, r);
    for (uint l = 0; l < k; ++l)
    {
      const uint f = l / (2 * d), j = l % (2 * d);
      const Sub<d> c = sub<d>(f % npe, j, r);
      const bool same = b.inner != c.inner ? false
                        : b.inner          ? e / npe == f / npe && i / 2 == j / 2 && b.face == c.face
                                  : compact<d, id>(e / npe, i, ne) == compact<d, id>(f / npe, j, ne) && b.slice == c.slice;
      ok = ok && (same == (node[k] == node[l]));
      first = first && !same;
    }
    distinct += first;
    vp_true("common hypernode if and only if common face", ok);
  }
  vp_eq_u("number of hypernodes", 0, t.n_hyNodes(), distinct);
}
//@unit P18 file_geo<{d},{s},{id},{ne},{r},{e},{props},{h}> d=1 s=1,2,3 id=0 ne=2 r=1,2 e=0,1 props=0,2 h=0,1 if=(h==0)or(r==2) mode=ndebug
//@unit P18 file_geo<2,{s},0,2,{r},{e},{props},{h}> s=2,3 r=1,2 e=0,1,5 props=0,1 h=0,2 if=(e<2*r*r)and((h==0)or(r==2)) mode=ndebug
//@unit P18 file_geo<3,3,2,1,{r},{e},0,0> r=1,2 e=0,5 if=e<r*r*r mode=ndebug
template <uint d, uint s, uint id, uint ne, uint r, uint e, uint props, uint h> void file_geo()
{
  write_domain<d, s, id, ne, props>();
  Topology::File<d, s> t(std::string("graph.geo"));
  if (h == 1)
    t.set_refinement(r);
  if (h == 2)
    t.set_refinement(r + 1);
  Geometry::File<d, s> geo(t);
  if (h != 1)
    geo.set_refinement(r);
  vp_true("refinement", geo.get_refinement() == r);
  try
  {
  auto g = geo[e];
  constexpr uint npe = ipow(r, d), c = e / npe, nv = 1 << d;
  Affine<s> a;
  SmallVec<s, double> trans;
  SmallMat<s, d, double> mat;
  for (uint j = 0; j < s; ++j)
  {
    a.c[j] = vp_in_d("pt", c * nv * 10 + j);
    for (uint k = 0; k < d; ++k)
      a.v[k][j] = (vp_in_d("pt", (c * nv + (1 << k)) * 10 + j) - vp_in_d("pt", c * nv * 10 + j)) / (double)r;
    for (uint k = 0; k < d; ++k)
      a.c[j] += (double)(e % npe / ipow(r, k) % r) * a.v[k][j];
    trans[j] = a.c[j];
    for (uint k = 0; k < d; ++k)
      mat(j, k) = a.v[k][j];
  }
  maps<d, s>(g, a);
  if constexpr (d == 1 || s == 2)
  {
    Mapping::Linear<d, s, double> m(trans, mat);
    vp_eq_d("area", 0, g.area(), std::abs(m.functional_determinant_hyEdge()));
    for (uint i = 0; i < 2 * d; ++i)
      vp_eq_d("area of a face", i, g.face_area(i), std::abs(m.functional_determinant_hyNode(i / 2)));
    for (uint k = 0; k + d < s; ++k)
      for (uint j = 0; j < s; ++j)
        vp_eq_d("outer normal", k * 10 + j, g.outer_normal(k)[j], m.outer_normal(k)[j]);
  }
  vp_true("extra data", g.has_extra_data() == (props > 0));
  if (props > 0)
    for (uint i = 0; i < props; ++i)
      vp_eq_d("property of a hyperedge", i, g.extra_data()[i], vp_in_d("prop", c * 10 + i));
  }
  catch (const Wrapper::LAPACKexception&)
  {
  }
}
// normals of a hyperedge that is a line: its direction, pointing outwards at either end
//@unit P18 file_normal<{s},{r}> s=1,2,3 r=1,2 mode=ndebug
template <uint s, uint r> void file_normal()
{
  write_domain<1, s, 0, 1, 0>();
  Topology::File<1, s> t(std::string("graph.geo"));
  Geometry::File<1, s> geo(t);
  geo.set_refinement(r);
  try
  {
    auto g = geo[0];
    const auto q = g.mat_q();
    const auto R = g.mat_r();
    for (uint side = 0; side < 2; ++side)
    {
      const double sign = (side == 1) == (R(0, 0) > 0.) ? 1. : -1.;
      vp_eq_d("local normal points outwards", side, g.local_normal(side)[0], sign);
      const auto n = g.inner_normal(side);
      for (uint j = 0; j < s; ++j)
      {
        vp_eq_d("inner normal points outwards", side * 10 + j, n[j], sign * q(j, 0));
        for (uint k = 0; k <= j; ++k)
          vp_eq_d("inner normal is parallel to the hyperedge", j * 10 + k, n[j] * n[k], q(j, 0) * q(k, 0));
        vp_eq_d("inner normals of the ends are opposite", j, n[j], -g.inner_normal(1 - side)[j]);
      }
    }
  }
  catch (const Wrapper::LAPACKexception&)
  {
  }
}
//@unit P19 file_range<{d},{r},{w}> d=1,2 r=1,2 w=0,1,2
template <uint d, uint r, uint w> void file_range()
{
  write_domain<d, 2, 0, 2, 0, true>();
  Topology::File<d, 2> t(std::string("graph.geo"));
  NodeDescriptor::File<d, 2> nd(t);
  Geometry::File<d, 2> g(t);
  t.set_refinement(r);
  nd.set_refinement(r);
  g.set_refinement(r);
  const uint i = vp_in_u("i", 0);
  VP_ABORT_IFF(true);
  vp_assume(i == t.n_hyEdges());
  if (w == 0)
    t[t.n_hyEdges()];
  else if (w == 1)
    nd[t.n_hyEdges()];
  else
    g[t.n_hyEdges()];
}
