property = "P21"
needs = "a local solver with fewer bulk components than skeletal ones"
breaks = "the values of a hyperedge are not padded, so the values array is shorter than declared"
edits = [("include/HyperHDG/plot.hxx",
"""      for (unsigned int d = LocalSolverT::system_dimension();
           d < LocalSolverT::node_system_dimension(); ++d)
        myfile << "  " << 0;  // AR: I switched d and corner!?
    }
    myfile << std::endl;""",
"""    }
    for (unsigned int d = LocalSolverT::system_dimension();
         d < LocalSolverT::node_system_dimension(); ++d)
      myfile << "  " << 0;
    myfile << std::endl;""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/hdg_hypergraph.hxx>
#include <HyperHDG/plot.hxx>
int main()
{
  HDGHyperGraph<1, Topo<1>, PGeom<1>, Node<1>, PNone> g(Chain{2});
  PSol<1, 1, 3> s;
  PlotOptions o;
  std::vector<double> l = {1, 2, 3};
  plot(g, s, l, o, 0.);
  std::vector<double> c = data_array(slurp("output/example.0.vtu"), "values");
  CHECK(c == std::vector<double>({1, 0, 0, 2, 0, 0, 2, 0, 0, 3, 0, 0}));
  return demo_bad;
}
'''
