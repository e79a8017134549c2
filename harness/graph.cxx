// Specification units: hypercube, hypernode factory, data container, hypergraph.
//@headers hypercube.hxx hypernodefactory.hxx hy_data_container.hxx hdg_hypergraph.hxx
#include <HyperHDG/hy_assert.hxx>
#include <array>
#include <vector>
#include <algorithm>
#include <HyperHDG/hypercube.hxx>
#include <HyperHDG/hypernodefactory.hxx>
#include <HyperHDG/hy_data_container.hxx>
#include <HyperHDG/hdg_hypergraph.hxx>
#include "mock.hxx"

constexpr uint ipow(uint b, uint e) { return e == 0 ? 1 : b * ipow(b, e - 1); }

//@unit P06 cube_counts<{d}> d=0,1,2,3,4
template <uint d> void cube_counts()
{
  vp_true("faces", Hypercube<d>::n_faces() == 2 * d);
  vp_true("vertices", Hypercube<d>::n_vertices() == ipow(2, d));
  for (uint b = 0; b < 7; ++b)
    vp_eq_u("pow", b, Hypercube<d>::pow(b), ipow(b, d));
  uint s = vp_in_u("b", 0), w = 1;
  for (uint i = 0; i < d; ++i)
    w *= s;
  vp_eq_u("pow of any base", 0, Hypercube<d>::pow(s), w);
}
//@unit P06 cube_decompose<{d},{n}> d=1,2,3 n=1,2,3,4,5
template <uint d, uint n> void cube_decompose()
{
  for (uint i = 0; i < ipow(n, d); ++i)
  {
    auto a = Hypercube<d>::index_decompose(i, n);
    vp_true("length", a.size() == d);
    uint k = i, back = 0;
    for (uint j = 0; j < d; ++j)
    {
      vp_eq_u("digit", j, a[j], k % n);
      vp_true("digit in range", a[j] < n);
      k /= n;
    }
    for (uint j = d; j-- > 0;)
      back = back * n + a[j];
    vp_eq_u("recomposed", i, back, i);
  }
}
//@unit P06 cube_decompose_range<{d},{n}> d=1,2,3 n=1,2,3
template <uint d, uint n> void cube_decompose_range()
{
  uint i = vp_in_u("i", 0);
  VP_ABORT_IFF(i / ipow(n, d) != 0);
  auto a = Hypercube<d>::index_decompose(i, n);
  uint k = i;
  for (uint j = 0; j < d; ++j)
  {
    vp_eq_u("digit", j, a[j], k % n);
    k /= n;
  }
}
//@unit P06 cube_tensor<{d},{n}> d=0,1,2,3 n=1,2,3
template <uint d, uint n> void cube_tensor()
{
  SmallVec<n, double> pts;
  for (uint i = 0; i < n; ++i)
    pts[i] = vp_in_d("p", i);
  for (uint i = 0; i < ipow(n, d); ++i)
  {
    if constexpr (d > 0)
    {
      auto p = Hypercube<d>::template tensorial_pt<SmallVec<d, double>>(i, pts);
      uint k = i;
      for (uint j = 0; j < d; ++j)
      {
        vp_eq_d("coordinate", j, p[j], vp_in_d("p", k % n));
        k /= n;
      }
    }
  }
}

// ------------------------------------------------------------------------------------------------
// hypernode factory
// ------------------------------------------------------------------------------------------------
//@unit P06 factory_numbering<{n},{I}> n=@1,2,3,4<=8 I=uint,int
template <uint n, class I> void factory_numbering()
{
  I nodes = vp_in<I>::get("nodes", 0), node = vp_in<I>::get("node", 0);
  vp_assume(node < nodes);
  vp_assume(!(node < 0));
  const HyperNodeFactory<n, I> f(nodes);
  vp_true("dofs per node", HyperNodeFactory<n, I>::n_dofs_per_node() == n);
  vp_eq_u("n_hyNodes", 0, f.n_hyNodes(), nodes);
  vp_eq_u("n_global_dofs", 0, f.n_global_dofs(), nodes * n);
  std::array<uint, n> ind;
  ind.fill(vp_in_u("stale", 0));
  auto* r = &f.get_dof_indices(node, ind);
  vp_eq_p("returns its argument", r, &ind);
  for (uint i = 0; i < n; ++i)
    vp_eq_u("dof index", i, ind[i], node * n + i);
  for (uint i = 0; i < n; ++i)
    vp_eq_u("node of dof", i, f.get_hyNode_from_dof_index(node * n + i), node);
  HyperNodeFactory<n, I> g(f), h(0);
  h = f;
  vp_eq_u("copy", 0, g.n_hyNodes(), nodes);
  vp_eq_u("assign", 0, h.n_hyNodes(), nodes);
  HyperNodeFactory<n, I> k(0);
  k = HyperNodeFactory<n, I>(nodes);
  vp_eq_u("move assign", 0, k.n_hyNodes(), nodes);
}
//@unit P06 factory_owner_range<{n}> n=@1,2,3<=8
template <uint n> void factory_owner_range()
{
  uint nodes = vp_in_u("nodes", 0), dof = vp_in_u("dof", 0);
  HyperNodeFactory<n> f(nodes);
  VP_ABORT_IFF(dof >= nodes * n);
  vp_eq_u("node of dof", 0, f.get_hyNode_from_dof_index(dof), dof / n);
}
//@unit P06 factory_values<{n},{m},{T}> n=@1,2,3<=8 m=@2,3,4,9<=70 T=double,float
template <uint n, uint m, class T> void factory_values()
{
  const HyperNodeFactory<n> f(m);
  std::vector<T> glob(n * m);
  for (uint i = 0; i < n * m; ++i)
    glob[i] = vp_in<T>::get("g", i);
  for (uint node = 0; node < m; ++node)
  {
    std::array<T, n> loc, inc;
    loc.fill(vp_in<T>::get("stale", 0));
    auto* r = &f.get_dof_values(node, glob, loc);
    vp_eq_p("returns local", r, &loc);
    for (uint i = 0; i < n; ++i)
      vp_eq_d("gathered", node * n + i, loc[i], vp_in<T>::get("g", node * n + i));
    for (uint i = 0; i < n * m; ++i)
      vp_eq_d("gather does not write", i, glob[i], vp_in<T>::get("g", i));
    for (uint i = 0; i < n; ++i)
      inc[i] = vp_in<T>::get("l", i);
    std::vector<T> a(glob), s(glob), c(glob);
    auto* ra = &f.add_to_dof_values(node, a, inc);
    auto* rs = &f.set_dof_values(node, s, inc);
    T v = vp_in<T>::get("v", 0);
    auto* rc = &f.template set_dof_values<uint, std::vector<T>>(node, c, v);
    vp_eq_p("add returns global", ra, &a);
    vp_eq_p("set returns global", rs, &s);
    vp_eq_p("fill returns global", rc, &c);
    vp_true("sizes kept", a.size() == n * m && s.size() == n * m && c.size() == n * m);
    for (uint i = 0; i < n * m; ++i)
    {
      bool own = i / n == node;
      T g = vp_in<T>::get("g", i), l = own ? vp_in<T>::get("l", i % n) : T(0);
      vp_eq_d("added", i, a[i], g + l);
      vp_eq_d("set", i, s[i], own ? l : g);
      vp_eq_d("filled", i, c[i], own ? v : g);
    }
    for (uint i = 0; i < n; ++i)
      vp_eq_d("scatter does not write local", i, inc[i], vp_in<T>::get("l", i));
  }
}
// a large vector of which only the part that should be touched is there
template <class D> struct BigVec
{
  using value_type = D;
  std::size_t first, n;
  D* part;
  uint* wrong;
  std::size_t size() const { return n; }
  D& operator[](std::size_t i) const
  {
    if (i >= first && i < first + 4)
      return part[i - first];
    ++*wrong;
    return part[4];
  }
};
//@unit P06 factory_big<{n},{node},{I}> n=1,2,4 node=40,127,255,300,9000,33000,70000,17000000,500000000 I=uint,std::size_t
//@unit P06 factory_big<{n},{node},{I}> n=1,2,4 node=5000000000 I=std::size_t
template <uint n, std::size_t node, class I> void factory_big()
{
  const HyperNodeFactory<n, I> f(node + 7);
  uint wrong = 0;
  double part[5];
  std::array<double, n> a;
  for (uint w = 0; w < 4; ++w)
  {
    for (uint i = 0; i < 5; ++i)
      part[i] = vp_in_d("g", i);
    for (uint i = 0; i < n; ++i)
      a[i] = vp_in_d("l", i);
    BigVec<double> glob{node * n, (node + 7) * n, part, &wrong};
    if (w == 0)
      f.get_dof_values(node, glob, a);
    else if (w == 1)
      f.add_to_dof_values(node, glob, a);
    else if (w == 2)
      f.set_dof_values(node, glob, a);
    else
      f.template set_dof_values<I, BigVec<double>>(node, glob, vp_in_d("v", 0));
    for (uint i = 0; i < n; ++i)
    {
      const double g = vp_in_d("g", i), l = vp_in_d("l", i);
      vp_eq_d("global value", w * 4 + i, part[i], w == 0 ? g : w == 1 ? g + l : w == 2 ? l : vp_in_d("v", 0));
      vp_eq_d("local value", w * 4 + i, a[i], w == 0 ? g : l);
    }
    for (uint i = n; i < 5; ++i)
      vp_eq_d("nothing else is written", w * 5 + i, part[i], vp_in_d("g", i));
    vp_eq_u("no other entry is touched", w, wrong, 0);
  }
}
//@unit P06 factory_range<{n},{m},{w}> n=1,2,3 m=2,3 w=0,1,2,3
template <uint n, uint m, uint w> void factory_range()
{
  const HyperNodeFactory<n> f(m);
  std::vector<double> glob(n * m);
  for (uint i = 0; i < n * m; ++i)
    glob[i] = vp_in_d("g", i);
  std::array<double, n> loc;
  for (uint i = 0; i < n; ++i)
    loc[i] = vp_in_d("l", i);
  uint node = vp_in_u("node", 0);
  VP_ABORT_IFF(node * n + n > n * m);
  if (w == 0)
    f.get_dof_values(node, glob, loc);
  else if (w == 1)
    f.add_to_dof_values(node, glob, loc);
  else if (w == 2)
    f.set_dof_values(node, glob, loc);
  else
    f.template set_dof_values<uint, std::vector<double>>(node, glob, vp_in_d("v", 0));
  for (uint i = 0; i < n * m; ++i)
  {
    double g = vp_in_d("g", i), l = vp_in_d("l", i % n);
    bool own = node == i / n;
    vp_eq_d("global value", i, glob[i], w == 0 ? g : !own ? g : w == 1 ? g + l : w == 2 ? l : vp_in_d("v", 0));
  }
  if (w == 0)
    for (uint i = 0; i < n; ++i)
    {
      double x = 0;
      for (uint k = 0; k < m; ++k)
        if (node == k)
          x = vp_in_d("g", k * n + i);
      vp_eq_d("local value", i, loc[i], x);
    }
}
//@unit P06 factory_local_size<{n},{k},{w}> n=1,2,3 k=0,1,2,3,4 w=0,1,2,3
template <uint n, uint k, uint w> void factory_local_size()
{
  const HyperNodeFactory<n> f(3);
  std::vector<double> glob(3 * n, 0.);
  std::vector<double> loc(k, 1.);
  std::vector<uint> ind(k, 1);
  VP_ABORT_IFF(k != n);
  if (w == 0)
    f.get_dof_values(1, glob, loc);
  else if (w == 1)
    f.add_to_dof_values(1, glob, loc);
  else if (w == 2)
    f.set_dof_values(1, glob, loc);
  else
    f.get_dof_indices(1, ind);
  vp_true("size of local vector kept", loc.size() == k && ind.size() == k);
}

// ------------------------------------------------------------------------------------------------
// data container
// ------------------------------------------------------------------------------------------------
struct Dat
{
  double v = 0;
  uint w = 0;
};
//@unit P07 container<{n}> n=@1,2,3,5,9,17<=130
template <uint n> void container()
{
  HyDataContainer<Dat> c(n);
  for (uint i = 0; i < n; ++i)
    vp_eq_d("fresh", i, c[i].v, 0.);
  for (uint i = 0; i < n; ++i)
    c[i].v = vp_in_d("v", i);
  for (uint i = 0; i < n; ++i)
  {
    vp_eq_d("kept", i, c.get_hyEdge(i).v, vp_in_d("v", i));
    vp_eq_p("same object", &c[i], &c.get_hyEdge(i));
    vp_eq_p("contiguous objects", &c[i], &c[0] + i);
  }
}
// a container that only remembers which entry was asked for
struct BigData
{
  using value_type = Dat;
  std::size_t n, last = 0;
  Dat d;
  BigData(std::size_t n_) : n(n_) {}
  std::size_t size() const { return n; }
  Dat& operator[](std::size_t i)
  {
    d.v = double(i);
    return d;
  }
};
//@unit P07 container_big<{i}> i=40,127,255,300,5000,33000,70000,17000000,4294967295,5000000000
template <std::size_t i> void container_big()
{
  HyDataContainer<Dat, BigData> c(i + 1);
  vp_eq_d("data of the hyperedge", 0, c[i].v, double(i));
  vp_eq_d("data of the hyperedge", 1, c.get_hyEdge(i).v, double(i));
}
//@unit P07 container_range<{n}> n=1,2,3
template <uint n> void container_range()
{
  HyDataContainer<double> c(n);
  uint i = vp_in_u("i", 0);
  for (uint k = 0; k < n; ++k)
    c[k] = vp_in_d("v", k);
  VP_ABORT_IFF(i >= n);
  c[i] = vp_in_d("x", 0);
  for (uint k = 0; k < n; ++k)
    vp_eq_d("entry", k, c[k], k == i ? vp_in_d("x", 0) : vp_in_d("v", k));
}

// ------------------------------------------------------------------------------------------------
// hypergraph
// ------------------------------------------------------------------------------------------------
template <uint d, uint id> using Topo = MockTopo<d, d + 1, id>;
template <uint n, uint d, uint id, class D = Dat>
using Graph = HDGHyperGraph<n, MockTopo<d, d + 1, id>, MockGeom<d, d + 1, id>, MockNode<d, d + 1, id>, D>;

template <class G> void check_graph(G& g, uint edges, uint nodes, uint n, uint ref, uint tmark, uint gmark, uint ft)
{
  vp_eq_u("n_hyEdges", 0, g.n_hyEdges(), edges);
  vp_eq_u("n_hyNodes", 0, g.n_hyNodes(), nodes);
  vp_eq_u("n_global_dofs", 0, g.n_global_dofs(), nodes * n);
  vp_eq_u("factory nodes", 0, g.hyNode_factory().n_hyNodes(), nodes);
  vp_eq_u("refinement", 0, g.get_refinement(), ref);
  uint k = 0;
  for (auto it = g.begin(); !(it == g.end()); ++it)
  {
    auto e = *it;
    vp_eq_u("topology of edge", k, e.topology.idx, k);
    vp_eq_u("geometry of edge", k, e.geometry.idx, k);
    vp_eq_u("descriptor of edge", k, e.node_descriptor.idx, k);
    vp_eq_u("topology refinement", k, e.topology.ref, ref);
    vp_eq_u("geometry refinement", k, e.geometry.ref, ref);
    vp_eq_u("descriptor refinement", k, e.node_descriptor.ref, ref);
    vp_eq_u("topology constructed from its argument", k, e.topology.mark, tmark);
    vp_eq_u("geometry constructed from its argument", k, e.geometry.mark, gmark);
    vp_eq_u("geometry constructor used", k, e.geometry.from_topo, ft);
    vp_eq_u("descriptor constructed from the topology", k, e.node_descriptor.mark, tmark);
    vp_eq_p("data of edge", &e.data, &g.hyEdge_data(k));
    vp_eq_p("data of g[k]", &g[k].data, &g.hyEdge_data(k));
    vp_eq_u("g[k]", k, g[k].topology.idx, k);
    vp_eq_u("g[k] geometry", k, g[k].geometry.idx, k);
    vp_eq_u("g[k] descriptor", k, g[k].node_descriptor.idx, k);
    vp_eq_u("hyEdge_topology", k, g.hyEdge_topology(k).idx, k);
    vp_eq_u("hyEdge_geometry", k, g.hyEdge_geometry(k).idx, k);
    vp_eq_u("hyNode_descriptor", k, g.hyNode_descriptor(k).idx, k);
    for (uint j = 0; j < k; ++j)
      vp_true("edges have separate data", &g.hyEdge_data(j) != &g.hyEdge_data(k));
    ++k;
  }
  vp_eq_u("iteration visits every edge once", 0, k, edges);
  uint visited = 0;
  std::for_each(g.begin(), g.end(), [&](auto e) { vp_eq_u("for_each order", visited, e.topology.idx, visited); ++visited; });
  vp_eq_u("for_each visits every edge once", 0, visited, edges);
}
//@unit P07 graph_topo<{n},{d},{e}> n=1,2 d=1,2 e=@1,2,3,7<=40
template <uint n, uint d, uint e> void graph_topo()
{
  uint mark = vp_in_u("mark", 0);
  Graph<n, d, 0> g(MockCtor{e, 8, mark});
  check_graph(g, e, 8, n, 1, mark, mark, 1);
  vp_true("dimensions", Graph<n, d, 0>::hyEdge_dim() == d && Graph<n, d, 0>::space_dim() == d + 1 && Graph<n, d, 0>::n_dofs_per_node() == n);
}
//@unit P07 graph_geom<{n},{d},{e}> n=1,2 d=1,2 e=@1,2,3,7<=40
template <uint n, uint d, uint e> void graph_geom()
{
  uint mark = vp_in_u("mark", 0), gm = vp_in_u("gmark", 0);
  Graph<n, d, 0> g(MockCtor{e, 8, mark}, MockCtor{77, 78, gm});
  check_graph(g, e, 8, n, 1, mark, gm, 0);
}
//@unit P07 graph_shared<{n},{d},{e}> n=1,2 d=1,2 e=@1,2,3,7<=40
template <uint n, uint d, uint e> void graph_shared()
{
  uint mark = vp_in_u("mark", 0), gm = vp_in_u("gmark", 0);
  auto t = std::make_shared<MockTopo<d, d + 1, 0>>(MockCtor{e, 8, mark});
  auto q = std::make_shared<MockGeom<d, d + 1, 0>>(MockCtor{1, 2, gm});
  auto nd = std::make_shared<MockNode<d, d + 1, 0>>(*t);
  Graph<n, d, 0> g(t, q, nd);
  check_graph(g, e, 8, n, 1, mark, gm, 0);
}
//@unit P07 graph_iter<{e}> e=2,3,4,6,9
template <uint e> void graph_iter()
{
  Graph<1, 1, 0> g(MockCtor{e, 8, 0}), g2(MockCtor{e, 8, 0});
  auto a = g.begin();
  auto b = a;
  vp_true("copies are equal", a == b);
  vp_true("begin is not end", !(a == g.end()));
  vp_true("iterators of different graphs differ", !(g.begin() == g2.begin()));
  auto c = a++;
  vp_eq_u("post-increment returns the old position", 0, (*c).topology.idx, 0);
  vp_eq_u("post-increment advances", 0, (*a).topology.idx, 1);
  auto* p = &(++b);
  vp_eq_p("pre-increment returns itself", p, &b);
  vp_true("increments agree", a == b);
  auto d = a--;
  vp_eq_u("post-decrement returns the old position", 0, (*d).topology.idx, 1);
  vp_eq_u("post-decrement goes back", 0, (*a).topology.idx, 0);
  auto* q = &(--b);
  vp_eq_p("pre-decrement returns itself", q, &b);
  vp_eq_u("pre-decrement goes back", 0, (*b).topology.idx, 0);
  auto z = g.end();
  --z;
  vp_eq_u("last edge", 0, (*z).topology.idx, e - 1);
}
//@unit P07 graph_refuse<{w}> w=0,1,2
template <uint w> void graph_refuse()
{
  // number of hypernodes symbolic; one hyperedge
  uint nodes = vp_in_u("nodes", 0);
  VP_ABORT_IFF(nodes < 2);
  MockCtor c{1, nodes, 0};
  if constexpr (w == 0)
    Graph<1, 1, 0> g(c);
  else if constexpr (w == 1)
    Graph<1, 1, 0> g(c, c);
  else
    Graph<1, 1, 0> g(std::make_shared<MockTopo<1, 2, 0>>(c), std::make_shared<MockGeom<1, 2, 0>>(c),
                     std::make_shared<MockNode<1, 2, 0>>(MockTopo<1, 2, 0>(c)));
  vp_true("constructed", true);
}
//@unit P07 graph_range<{e},{w}> e=1,2,4 w=0,1,2 if=(w!=2)or(e<3)
template <uint e, uint w> void graph_range()
{
  Graph<1, 1, 0> g(MockCtor{e, 5, 0});
  if (w == 1)
    g.set_refinement(3);
  const uint cnt = g.n_hyEdges(), k = vp_in_u("k", 0);
  if (w < 2)
  {
    VP_ABORT_IFF(k >= cnt);
    auto x = g[k];
    vp_eq_u("topology", 0, x.topology.idx, k);
    vp_eq_u("geometry", 0, x.geometry.idx, k);
    vp_eq_u("descriptor", 0, x.node_descriptor.idx, k);
  }
  else
  {
    auto it = g.begin();
    for (uint i = 0; i < e; ++i)
      ++it;
    VP_ABORT_IFF(true);
    auto x = *it;
  }
}
//@unit P07 graph_refuse_empty<{w}> w=0,1,2 mode=debug
template <uint w> void graph_refuse_empty()
{
  VP_ABORT_IFF(true);
  MockCtor c{0, 5, 0};
  if constexpr (w == 0)
    Graph<1, 1, 0> g(c);
  else if constexpr (w == 1)
    Graph<1, 1, 0> g(c, c);
  else
    Graph<1, 1, 0> g(std::make_shared<MockTopo<1, 2, 0>>(c), std::make_shared<MockGeom<1, 2, 0>>(c),
                     std::make_shared<MockNode<1, 2, 0>>(MockTopo<1, 2, 0>(c)));
  vp_unreach("a hypergraph without hyperedges was accepted");
}
//@unit P08 graph_refine<{n},{d},{e},{r}> n=1,2 d=1,2 e=1,2,3 r=1,2,3,5
template <uint n, uint d, uint e, uint r> void graph_refine()
{
  uint mark = vp_in_u("mark", 0);
  Graph<n, d, 0> g(MockCtor{e, 4, mark});
  for (uint i = 0; i < e; ++i)
    g.hyEdge_data(i).v = vp_in_d("old", i);
  g.set_refinement(r);
  check_graph(g, e * r, 4 * r, n, r, mark, mark, 1);
  for (uint i = 0; i < e * r; ++i)
  {
    vp_eq_d("data is fresh after refinement", i, g.hyEdge_data(i).v, 0.);
    g.hyEdge_data(i).v = vp_in_d("new", i);
  }
  for (uint i = 0; i < e * r; ++i)
    vp_eq_d("data is usable after refinement", i, g[i].data.v, vp_in_d("new", i));
  g.set_refinement(2);
  check_graph(g, e * 2, 8, n, 2, mark, mark, 1);
  g.set_refinement(1);
  check_graph(g, e, 4, n, 1, mark, mark, 1);
}
