property = "P21"
needs = "edges and edge boundaries plotted into one file (neither alone shows it)"
breaks = "the offsets of the boundary cells start at the number of edge cells instead of the number of their vertices"
edits = [("include/HyperHDG/plot.hxx",
"""      start_number = Hypercube<edge_dim>::n_vertices() * he_number;""",
"""      start_number = he_number;""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/hdg_hypergraph.hxx>
#include <HyperHDG/plot.hxx>
int main()
{
  HDGHyperGraph<1, Topo<2>, PGeom<2>, Node<2>, PNone> g(Chain{2});
  PSol<2> s;
  PlotOptions o;
  o.plot_edge_boundaries = true;
  std::vector<double> l(7, 1.);
  plot(g, s, l, o, 0.);
  std::vector<double> c = data_array(slurp("output/example.0.vtu"), "offsets");
  CHECK(c.size() == 10);
  for (uint i = 0; i < c.size(); ++i)
    CHECK(c[i] == (i < 2 ? 4. * (i + 1) : 8 + 2. * (i - 1)));
  return demo_bad;
}
'''
