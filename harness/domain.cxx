// Specification units: domain files and point clouds.
//@headers read_domain.hxx
#include <HyperHDG/hy_assert.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/read_domain.hxx>
#include "vp.hxx"
using uint = unsigned int;

// Texts are put together from pieces, so that every number in them may be arbitrary.
struct Text
{
  std::string s;
  Text& lit(const char* t)
  {
    s += t;
    return *this;
  }
  Text& u(uint v)
  {
    std::string p;
    vp_text_(&p, "%u", v);
    s += p;
    return *this;
  }
  Text& d(double v)
  {
    std::string p;
    vp_text_(&p, "%g", v);
    s += p;
    return *this;
  }
};

struct Header
{
  uint space, edge, pts, nodes, edges;
};
// style: blank lines, comments and unknown sections between the parts
template <uint style> void filler(Text& t)
{
  if (style == 1)
    t.lit("\n# a remark\n\n");
  if (style == 2)
    t.lit("\nUnknown = 17;\n   \n");
}
template <uint style> void head(Text& t, const Header& h)
{
  const char* e = style == 2 ? "   =\t" : " = ";
  filler<style>(t);
  t.lit("Space_Dim").lit(e).u(h.space).lit(";\n");
  filler<style>(t);
  t.lit("HyperEdge_Dim").lit(e).u(h.edge).lit(";\n");
  filler<style>(t);
  t.lit("N_Points").lit(e).u(h.pts).lit(";\n");
  t.lit("N_HyperNodes").lit(e).u(h.nodes).lit(";\n");
  filler<style>(t);
  t.lit("N_HyperEdges").lit(e).u(h.edges).lit(";\n");
  filler<style>(t);
}
template <uint style, uint k, class F> void table(Text& t, const char* name, uint lines, F f)
{
  filler<style>(t);
  t.lit(name).lit("\n");
  for (uint i = 0; i < lines; ++i)
  {
    if (style == 2)
      t.lit("  ");
    for (uint j = 0; j < k; ++j)
    {
      if (j > 0)
        t.lit(style == 2 ? " \t " : " ");
      f(t, i, j);
    }
    t.lit("\n");
  }
}

//@unit P15 geo_read<{d},{s},{style},{props},{P},{N},{E}> d=1 s=1,2,3 style=0,1,2 props=0,1,3 P=2,3 N=2,3 E=1,2
//@unit P15 geo_read<{d},{s},{style},{props},4,5,{E}> d=2 s=2,3 style=0,2 props=0,2 E=1,2
//@unit P15 geo_read<3,3,{style},{props},9,7,1> style=0,1 props=0,1
//@unit P15 geo_read<1,{s},{style},{props},12,11,{E}> s=1,2,3 style=0,2 props=0,2,5 E=@10<=70
//@unit P15 geo_read<2,3,{style},{props},{P},16,9> style=0,1 props=0,4 P=@17<=70
//@unit P15 geo_read<3,3,0,{props},20,23,4> props=0,1
template <uint d, uint s, uint style, uint props, uint P, uint N, uint E> void geo_read()
{
  constexpr uint nf = 2 * d, nv = 1 << d;
  Text t;
  head<style>(t, Header{s, d, P, N, E});
  table<style, s>(t, "POINTS:", P, [](Text& x, uint i, uint j) { x.d(vp_in_d("x", i * 10 + j)); });
  table<style, nf>(t, "HYPERNODES_OF_HYPEREDGES:", E, [](Text& x, uint i, uint j) { x.u(vp_in_u("node", i * 10 + j)); });
  table<style, nf>(t, "TYPES_OF_HYPERFACES:", E, [](Text& x, uint i, uint j) { x.u(vp_in_u("type", i * 10 + j)); });
  table<style, nv>(t, "POINTS_OF_HYPEREDGES:", E, [](Text& x, uint i, uint j) { x.u(vp_in_u("pt", i * 10 + j)); });
  if (props > 0)
  {
    t.lit("HYPEREDGE_PROPERTIES: ").u(props).lit("\n");
    for (uint i = 0; i < E; ++i)
    {
      for (uint j = 0; j < props; ++j)
        t.d(vp_in_d("prop", i * 10 + j)).lit(" ");
      t.lit("\n");
    }
  }
  vp_file_s("dom.geo", t.s);
  const auto r = read_domain_geo<d, s>(std::string("dom.geo"));
  vp_true("counts", r.n_points == P && r.n_hyNodes == N && r.n_hyEdges == E && r.n_properties == props);
  vp_true("lengths", r.points.size() == P && r.hyNodes_hyEdge.size() == E && r.hyFaces_hyEdge.size() == E &&
                       r.points_hyEdge.size() == E && r.hyEdge_properties.size() == (props > 0 ? E : 0));
  for (uint i = 0; i < P; ++i)
    for (uint j = 0; j < s; ++j)
      vp_eq_d("point", i * 10 + j, r.points[i][j], vp_in_d("x", i * 10 + j));
  for (uint i = 0; i < E; ++i)
  {
    for (uint j = 0; j < nf; ++j)
    {
      vp_eq_u("hypernode of hyperedge", i * 10 + j, r.hyNodes_hyEdge[i][j], vp_in_u("node", i * 10 + j));
      vp_eq_u("type of face", i * 10 + j, r.hyFaces_hyEdge[i][j], vp_in_u("type", i * 10 + j));
    }
    for (uint j = 0; j < nv; ++j)
      vp_eq_u("point of hyperedge", i * 10 + j, r.points_hyEdge[i][j], vp_in_u("pt", i * 10 + j));
    if (props > 0)
    {
      vp_true("number of properties", r.hyEdge_properties[i].size() == props);
      for (uint j = 0; j < props; ++j)
        vp_eq_d("property", i * 10 + j, r.hyEdge_properties[i][j], vp_in_d("prop", i * 10 + j));
    }
  }
}

// a valid file (a path of E edges), except for what `what` changes
template <uint what, uint E> std::string path_file(const Header& h)
{
  Text t;
  const char* e[5] = {" = ", " = ", " = ", " = ", " = "};
  if (what >= 20 && what < 25)
    e[what - 20] = " : ";
  const char* k[9] = {"Space_Dim", "HyperEdge_Dim", "N_Points", "N_HyperNodes", "N_HyperEdges", "POINTS:",
                      "HYPERNODES_OF_HYPEREDGES:", "TYPES_OF_HYPERFACES:", "POINTS_OF_HYPEREDGES:"};
  if (what >= 1 && what <= 9)
    k[what - 1] = "Something";
  t.lit(k[0]).lit(e[0]).u(h.space).lit(";\n").lit(k[1]).lit(e[1]).u(h.edge).lit(";\n");
  t.lit(k[2]).lit(e[2]).u(h.pts).lit(";\n").lit(k[3]).lit(e[3]).u(h.nodes).lit(";\n");
  t.lit(k[4]).lit(e[4]).u(h.edges).lit(";\n\n");
  t.lit(k[5]).lit("\n");
  for (uint i = 0; i < E + 1; ++i)
    t.d(vp_in_d("x", i)).lit(" ").d(vp_in_d("y", i)).lit("\n");
  for (uint q = 6; q < 9; ++q)
  {
    if (what == q + 5 || what == q + 6)  // 11: file ends within the points; 12..14: within a table
      if (what == q + 5)
        return t.s;
    t.lit("\n").lit(k[q]).lit("\n");
    for (uint i = 0; i < E; ++i)
    {
      if (what == q + 6 && i + 1 == E)
        return t.s;
      t.u(q == 7 ? 0 : i).lit(" ").u(q == 7 ? 0 : i + 1).lit("\n");
    }
  }
  return t.s;
}
//@unit P15 geo_dims<{w}> w=0,1
template <uint w> void geo_dims()
{
  const uint a = vp_in_u("a", 0);
  vp_file_s("dom.geo", path_file<0, 2>(Header{w == 0 ? a : 2, w == 1 ? a : 1, 3, 3, 2}));
  VP_ABORT_IFF(a != (w == 0 ? 2 : 1));
  const auto r = read_domain_geo<1, 2>(std::string("dom.geo"));
  vp_true("counts", r.n_points == 3 && r.n_hyNodes == 3 && r.n_hyEdges == 2 && r.n_properties == 0);
}
//@unit P15 geo_bad<{what}> what=1,2,3,4,5,6,7,8,9,12,13,14,20,21,22,23,24 mode=debug
template <uint what> void geo_bad()
{
  vp_file_s("dom.geo", path_file<what, 2>(Header{2, 1, 3, 3, 2}));
  VP_ABORT_IFF(true);
  const auto r = read_domain_geo<1, 2>(std::string("dom.geo"));
}
//@unit P15 geo_zero<{w}> w=0,1,2 mode=debug
template <uint w> void geo_zero()
{
  vp_file_s("dom.geo", path_file<0, 2>(Header{2, 1, w == 0 ? 0u : 3u, w == 1 ? 0u : 3u, w == 2 ? 0u : 2u}));
  VP_ABORT_IFF(true);
  const auto r = read_domain_geo<1, 2>(std::string("dom.geo"));
}
//@unit P15 geo_short<{w}> w=0,1 mode=debug
template <uint w> void geo_short()
{
  // more points or hyperedges announced than the file has lines
  vp_file_s("dom.geo", path_file<0, 2>(Header{2, 1, w == 0 ? 40u : 3u, 3, w == 1 ? 40u : 2u}));
  VP_ABORT_IFF(true);
  const auto r = read_domain_geo<1, 2>(std::string("dom.geo"));
}
//@unit P15 geo_suffix mode=debug
void geo_suffix()
{
  vp_file_s("dom.dat", path_file<0, 2>(Header{2, 1, 3, 3, 2}));
  VP_ABORT_IFF(true);
  const auto r = read_domain<1, 2>(std::string("dom.dat"));
}
//@unit P15 geo_missing mode=debug
void geo_missing()
{
  VP_ABORT_IFF(true);
  const auto r = read_domain<1, 2>(std::string("nothing.geo"));
}
// index check of the domain: one index is arbitrary
//@unit P15 geo_index<{q},{i},1> q=0,1 i=0,1,2 mode=debug
//@unit P15 geo_index1<{q},{j}> q=0,1 j=0,1 mode=debug
template <uint q, uint i, uint j> void geo_index()
{
  const uint a = vp_in_u("a", 0);
  Text t;
  head<0>(t, Header{1, 1, 4, 5, 3});
  t.lit("POINTS:\n0\n1\n2\n3\n");
  t.lit("HYPERNODES_OF_HYPEREDGES:\n");
  for (uint k = 0; k < 3; ++k)
    for (uint l = 0; l < 2; ++l)
      t.u(q == 0 && k == i && l == j ? a : k + l).lit(l == 0 ? " " : "\n");
  t.lit("TYPES_OF_HYPERFACES:\n0 0\n0 0\n0 0\n");
  t.lit("POINTS_OF_HYPEREDGES:\n");
  for (uint k = 0; k < 3; ++k)
    for (uint l = 0; l < 2; ++l)
      t.u(q == 1 && k == i && l == j ? a : k + l).lit(l == 0 ? " " : "\n");
  vp_file_s("dom.geo", t.s);
  // duplicates of whole hyperedges cannot arise: the other index identifies the hyperedge, except ...
  bool dup = false;
  for (uint k = 0; k < 3; ++k)
    if (k != i && (j == 0 ? i + 1 == k + 1 : i == k))
      dup = true;
  VP_ABORT_IFF(a >= (q == 0 ? 5 : 4) || a == i + 1 - j || dup);
  const auto r = read_domain<1, 1>(std::string("dom.geo"));
  vp_eq_u("kept", 0, q == 0 ? r.hyNodes_hyEdge[i][j] : r.points_hyEdge[i][j], a);
}
template <uint q, uint j> void geo_index1()
{
  const uint a = vp_in_u("a", 0);
  Text t;
  head<0>(t, Header{1, 1, 4, 5, 1});
  t.lit("POINTS:\n0\n1\n2\n3\n");
  t.lit("HYPERNODES_OF_HYPEREDGES:\n");
  for (uint l = 0; l < 2; ++l)
    t.u(q == 0 && l == j ? a : 2 + l).lit(l == 0 ? " " : "\n");
  t.lit("TYPES_OF_HYPERFACES:\n0 0\n");
  t.lit("POINTS_OF_HYPEREDGES:\n");
  for (uint l = 0; l < 2; ++l)
    t.u(q == 1 && l == j ? a : 2 + l).lit(l == 0 ? " " : "\n");
  vp_file_s("dom.geo", t.s);
  VP_ABORT_IFF(a >= (q == 0 ? 5 : 4) || a == 3 - j);
  const auto r = read_domain<1, 1>(std::string("dom.geo"));
  vp_eq_u("kept", 0, q == 0 ? r.hyNodes_hyEdge[0][j] : r.points_hyEdge[0][j], a);
}
//@unit P15 geo_dup<{w},{k}> w=0,1,2 k=0,1,2 mode=debug
template <uint w, uint k> void geo_dup()
{
  // entry k of a list is repeated as its last one
  Text t;
  head<0>(t, Header{1, 1, 4, 4, 4});
  t.lit("POINTS:\n");
  for (uint i = 0; i < 4; ++i)
    t.d(w == 0 && i == 3 ? 3. - k : 3. - i).lit("\n");
  for (uint q = 0; q < 3; ++q)
  {
    t.lit(q == 0 ? "HYPERNODES_OF_HYPEREDGES:\n" : q == 1 ? "TYPES_OF_HYPERFACES:\n" : "POINTS_OF_HYPEREDGES:\n");
    for (uint i = 0; i < 4; ++i)
    {
      const uint m = q != 1 && w == 1 + q / 2 && i == 3 ? k : i;
      t.u(m).lit(" ").u((m + 1) % 4).lit("\n");
    }
  }
  vp_file_s("dom.geo", t.s);
  VP_ABORT_IFF(true);
  const auto r = read_domain<1, 1>(std::string("dom.geo"));
}

// ------------------------------------------------------------------------------------------------
// point clouds
// ------------------------------------------------------------------------------------------------
// Points with pairwise distances that are integers; epsilon is an arbitrary number of an open interval
// between two consecutive ones, or an integer itself.
template <uint s> struct Cloud
{
  uint n;
  int x[7][3];
};
constexpr Cloud<1> clouds1[] = {
  {2, {{0}, {1}}}, {3, {{4}, {1}, {2}}}, {4, {{3}, {0}, {1}, {2}}}, {5, {{9}, {0}, {2}, {5}, {1}}}, {1, {{3}}}};
constexpr Cloud<2> clouds2[] = {
  {3, {{0, 3}, {4, 0}, {0, 0}}}, {4, {{0, 0}, {3, 0}, {3, 4}, {0, 4}}}, {5, {{0, 0}, {3, 4}, {3, -4}, {-3, 4}, {6, 0}}},
  {6, {{0, 0}, {0, 4}, {3, 0}, {3, 4}, {6, 0}, {6, 4}}}};
constexpr Cloud<3> clouds3[] = {{3, {{1, 2, 2}, {0, 0, 0}, {2, 4, 4}}}, {3, {{0, 3, 0}, {0, 0, 0}, {0, 3, 4}}},
                                {3, {{1, 1, 7}, {1, 1, 2}, {1, 1, 0}}}};
template <uint s> constexpr const Cloud<s>& cloud(uint k)
{
  if constexpr (s == 1)
    return clouds1[k];
  else if constexpr (s == 2)
    return clouds2[k];
  else
    return clouds3[k];
}
template <uint s> constexpr int dist2(const Cloud<s>& c, uint i, uint j)
{
  int d = 0;
  for (uint k = 0; k < s; ++k)
    d += (c.x[i][k] - c.x[j][k]) * (c.x[i][k] - c.x[j][k]);
  return d;
}
// strict: epsilon is lo, otherwise it lies between lo and lo + 1
template <uint s> constexpr bool close(const Cloud<s>& c, uint i, uint j, int lo, bool strict)
{
  return strict ? dist2(c, i, j) < lo * lo : dist2(c, i, j) <= lo * lo;
}
template <uint s> constexpr bool connected(const Cloud<s>& c, int lo, bool strict)
{
  bool in[7] = {true};
  for (uint r = 0; r < 7; ++r)
    for (uint i = 0; i < c.n; ++i)
      for (uint j = 0; j < c.n; ++j)
        if (in[i] && close(c, i, j, lo, strict))
          in[j] = true;
  for (uint i = 0; i < c.n; ++i)
    if (!in[i])
      return false;
  return true;
}
//@unit P16 cloud_graph<{s},{k},{lo},{style},{off}> s=1 k=0,1,2,3 lo=0,1,2,3,4 style=0,1 off=0,1,2 if=(off<2)or(lo>0)
//@unit P16 cloud_graph<{s},{k},{lo},{style},{off}> s=2 k=0,1,2,3 lo=2,3,4,5,6 style=0 off=0,1,2 if=(k!=3)or(lo<6)
//@unit P16 cloud_graph<{s},{k},{lo},0,0> s=3 k=0,1,2 lo=2,3,4,5,6
template <uint s, uint k, int lo, uint style, int off> void cloud_graph()
{
  constexpr Cloud<s> c = cloud<s>(k);
  const double eps = off == 2 ? double(lo) : vp_in_d("eps", 0), o = off == 1 ? 1000000.5 + 1. / 4294967296. : 0.;  // 17 digits
  if constexpr (off != 2)
  {
    vp_assume(eps > 0);
    vp_assume(eps > lo);
    vp_assume(eps < lo + 1);
  }
  Text t;
  filler<style>(t);
  t.lit("Space_Dim = ").u(s).lit(";\nEpsilon = ").d(eps).lit(";\n");
  filler<style>(t);
  t.lit("POINTS:\n");
  for (uint i = 0; i < c.n; ++i)
  {
    for (uint j = 0; j < s; ++j)
      t.d(c.x[i][j] + o).lit(" ");
    t.lit("\n");
  }
  vp_file_s("c.pts", t.s);
  VP_ABORT_IFF(!connected(c, lo, off == 2));
  const auto r = read_domain<1, s>(std::string("c.pts"));
  vp_true("number of points", r.n_points == c.n && r.n_hyNodes == c.n && r.points.size() == c.n);
  vp_true("number of tables", r.hyNodes_hyEdge.size() == r.n_hyEdges && r.points_hyEdge.size() == r.n_hyEdges);
  uint where[7] = {}, edges = 0;
  for (uint i = 0; i < c.n; ++i)
  {
    uint found = 0;
    for (uint j = 0; j < c.n; ++j)
    {
      bool same = true;
      for (uint l = 0; l < s; ++l)
        same = same && r.points[j][l] == c.x[i][l] + o;
      if (same)
      {
        ++found;
        where[i] = j;
      }
    }
    vp_eq_u("point is kept exactly once", i, found, 1);
  }
  for (uint i = 0; i < c.n; ++i)
    for (uint j = 0; j < i; ++j)
    {
      uint found = 0;
      for (uint e = 0; e < r.n_hyEdges; ++e)
        if ((r.hyNodes_hyEdge[e][0] == where[i] && r.hyNodes_hyEdge[e][1] == where[j]) ||
            (r.hyNodes_hyEdge[e][1] == where[i] && r.hyNodes_hyEdge[e][0] == where[j]))
          ++found;
      vp_eq_u("points are connected iff they are close", i * 10 + j, found, close(c, i, j, lo, off == 2) ? 1 : 0);
      edges += close(c, i, j, lo, off == 2);
    }
  vp_eq_u("number of edges", 0, r.n_hyEdges, edges);
  for (uint e = 0; e < r.n_hyEdges; ++e)
    for (uint j = 0; j < 2; ++j)
      vp_eq_u("end points are the hypernodes", e * 2 + j, r.points_hyEdge[e][j], r.hyNodes_hyEdge[e][j]);
}
// all clouds of a given size on a 3 x 4 grid: every order in which a search can meet the points
constexpr uint bits(uint m) { return m == 0 ? 0 : (m & 1) + bits(m >> 1); }
constexpr int gx(uint g) { return g / 4; }
constexpr int gy(uint g) { return g % 4; }
constexpr bool gclose(uint a, uint b, int eps4)
{
  return 16 * ((gx(a) - gx(b)) * (gx(a) - gx(b)) + (gy(a) - gy(b)) * (gy(a) - gy(b))) < eps4 * eps4;
}
constexpr bool gconnected(uint m, int eps4)
{
  uint in = m & (~m + 1);
  for (uint r = 0; r < 12; ++r)
    for (uint a = 0; a < 12; ++a)
      for (uint b = 0; b < 12; ++b)
        if ((in >> a & 1) && (m >> b & 1) && gclose(a, b, eps4))
          in |= 1u << b;
  return in == m;
}
template <uint m, int eps4> void grid_cloud(const char* file)
{
  constexpr uint n = bits(m);
  uint p[12], k = 0;
  for (uint a = 0; a < 12; ++a)
    if (m >> ((a * 5 + m) % 12) & 1)
      p[k++] = (a * 5 + m) % 12;
  Text t;
  t.lit("Space_Dim = 2;\nEpsilon = ").d(eps4 / 4.).lit(";\nPOINTS:\n");
  for (uint i = 0; i < n; ++i)
    t.d(gx(p[i])).lit(" ").d(gy(p[i])).lit("\n");
  vp_file_s(file, t.s);
  const auto r = read_domain<1, 2>(std::string(file));
  vp_true("number of points", r.n_points == n && r.n_hyNodes == n && r.points.size() == n);
  uint edges = 0;
  for (uint i = 0; i < n; ++i)
  {
    uint w = 0;
    for (uint j = 0; j < n; ++j)
      w += r.points[j][0] == gx(p[i]) && r.points[j][1] == gy(p[i]);
    vp_eq_u("point is kept exactly once", m, w, 1);
    for (uint j = 0; j < i; ++j)
      edges += gclose(p[i], p[j], eps4);
  }
  vp_eq_u("number of edges", m, r.n_hyEdges, edges);
  for (uint i = 0; i < n; ++i)
    for (uint j = 0; j < i; ++j)
    {
      uint found = 0;
      for (uint e = 0; e < r.n_hyEdges; ++e)
      {
        const uint a = r.hyNodes_hyEdge[e][0], b = r.hyNodes_hyEdge[e][1];
        const bool ij = r.points[a][0] == gx(p[i]) && r.points[a][1] == gy(p[i]) && r.points[b][0] == gx(p[j]) && r.points[b][1] == gy(p[j]);
        const bool ji = r.points[b][0] == gx(p[i]) && r.points[b][1] == gy(p[i]) && r.points[a][0] == gx(p[j]) && r.points[a][1] == gy(p[j]);
        found += ij || ji;
      }
      vp_eq_u("points are connected iff they are close", m, found, gclose(p[i], p[j], eps4) ? 1 : 0);
    }
}
template <uint n, int eps4, uint lo, uint hi> void grid_range()
{
  if constexpr (lo < hi)
  {
    if constexpr (bits(lo) == n && gconnected(lo, eps4))
      grid_cloud<lo, eps4>("g.pts");
    grid_range<n, eps4, lo + 1, hi>();
  }
}
//@unit P16 cloud_grid<{n},{eps4},{lo}> n=4 eps4=6,10 lo=0,128,256,384,512,640,768,896,1024,1280,1536,1792,2048,2304,2560,2816,3072,3328,3584,3840 mode=ndebug
//@unit P16 cloud_grid<{n},{eps4},{lo}> n=3,5 eps4=5,9 lo=0,128,256,384,512,640,768,896,1024,1280,1536,1792,2048,2304,2560,2816,3072,3328,3584,3840 mode=ndebug tier=thorough
template <uint n, int eps4, uint lo> void cloud_grid() { grid_range<n, eps4, lo, lo + (lo < 1024 ? 128 : 256)>(); }
//@unit P16 cloud_dup<{s},{i}> s=1,2,3 i=0,1,2 mode=debug
template <uint s, uint i> void cloud_dup()
{
  Text t;
  t.lit("Space_Dim = ").u(s).lit(";\nEpsilon = ").d(vp_in_d("eps", 0)).lit(";\nPOINTS:\n");
  vp_assume(vp_in_d("eps", 0) > 100);
  for (uint k = 0; k < 4; ++k)
  {
    for (uint j = 0; j < s; ++j)
      t.d((k == 3 ? i : k) * 2. - j).lit(" ");
    t.lit("\n");
  }
  vp_file_s("c.pts", t.s);
  VP_ABORT_IFF(true);
  const auto r = read_domain<1, s>(std::string("c.pts"));
}
//@unit P16 cloud_bad<{w}> w=1,2,3,4,5 mode=debug
template <uint w> void cloud_bad()
{
  Text t;
  const double eps = vp_in_d("eps", 0);
  const uint dim = vp_in_u("dim", 0);
  if (w == 1)
    vp_assume(eps > 5);
  t.lit(w == 2 ? "Space" : "Space_Dim").lit(w == 4 ? " is " : " = ").u(w == 1 ? dim : 1);
  t.lit(w == 3 ? ";\nDelta" : ";\nEpsilon").lit(w == 5 ? " is " : " = ").d(eps).lit(";\nPOINTS:\n1\n2\n");
  vp_file_s("c.pts", t.s);
  if (w == 0)
    VP_ABORT_IFF(!(eps > 1));  // not positive, or not connected
  else if (w == 1)
    VP_ABORT_IFF(dim != 1);
  else
    VP_ABORT_IFF(true);
  std::string name("c.pts");
  make_epsilon_neighborhood_graph<1, std::vector, Point<1, double>, uint>(name);
}
