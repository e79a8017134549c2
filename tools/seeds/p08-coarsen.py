property = "P08"
needs = "refining a hypergraph and coarsening it again"
breaks = "the number of hypernodes (and with it the number of dofs) keeps the value of the finer level"
edits = [("include/HyperHDG/hdg_hypergraph.hxx",
"""    hyNode_factory_ =
      HyperNodeFactory<n_dofs_per_nodeT, hyEdge_index_t>(hyGraph_topology_->n_hyNodes());
    hyData_cont_""",
"""    if (hyNode_factory_.n_hyNodes() < hyGraph_topology_->n_hyNodes())
      hyNode_factory_ =
        HyperNodeFactory<n_dofs_per_nodeT, hyEdge_index_t>(hyGraph_topology_->n_hyNodes());
    hyData_cont_""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/hdg_hypergraph.hxx>
int main()
{
  Chain c;
  HDGHyperGraph<2, Topo<1>, Geom<1>, Node<1>> a(c);
  a.set_refinement(4);
  CHECK(a.n_global_dofs() == 18);
  a.set_refinement(2);
  CHECK(a.n_hyNodes() == 5 && a.n_global_dofs() == 10);
  return demo_bad;
}
'''
