property = "P09"
needs = "node types that are constructed from a topology that is already refined"
breaks = "faces inside a coarse hyperedge carry the boundary type of its outer face"
edits = [("include/HyperHDG/node_descriptor/cubic.hxx",
"""        if (Wrapper::exterior_coordinate(face, 0) != 0 &&
            Wrapper::exterior_coordinate(face, 0) != node_desc.n_subintervals_)
""",
"""        if (Wrapper::exterior_coordinate(face, 0) % node_desc.n_subintervals_ != 0)
"""), ("include/HyperHDG/node_descriptor/cubic.hxx",
"""    n_subintervals_(other.get_refinement()),
    tpcc_ref_elem_(other.tpcc_ref_elem()),
    n_hyEdges_(other.n_hyEdges())
""",
"""    n_subintervals_(1),
    tpcc_ref_elem_(other.tpcc_ref_elem()),
    n_hyEdges_(other.n_hyEdges())
""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/node_descriptor/cubic.hxx>
int main()
{
  SmallVec<1, unsigned int> n(1u);
  Topology::Cubic<1, 1> t(n);
  t.set_refinement(2);
  NodeDescriptor::Cubic<1, 1> d(t);
  CHECK(d[0][0] == 1 && d[0][1] == 0 && d[1][0] == 0 && d[1][1] == 2);
  return demo_bad;
}
'''
