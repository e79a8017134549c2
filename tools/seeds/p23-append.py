property = "P23"
needs = "two plots into the same file (numbering switched off)"
breaks = "the second plot is appended to the first one instead of replacing it"
edits = [("include/HyperHDG/plot.hxx",
"""  std::ofstream myfile = PlotFunctions::open_ofstream(plot_options, false);""",
"""  std::ofstream myfile =
    PlotFunctions::open_ofstream(plot_options, !plot_options.incrementFileNumber);""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/hdg_hypergraph.hxx>
#include <HyperHDG/plot.hxx>
int main()
{
  HDGHyperGraph<1, Topo<1>, PGeom<1>, Node<1>, PNone> g(Chain{2});
  PSol<1> s;
  PlotOptions o;
  o.incrementFileNumber = false;
  std::vector<double> l = {1, 2, 3};
  plot(g, s, l, o, 0.);
  const std::string first = slurp("output/example.0.vtu");
  l[2] = 4;
  plot(g, s, l, o, 0.);
  const std::string second = slurp("output/example.0.vtu");
  CHECK(!first.empty() && second.size() == first.size());
  CHECK(data_array(second, "values") == std::vector<double>({1, 2, 2, 4}));
  return demo_bad;
}
'''
