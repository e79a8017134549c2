property = "P09"
needs = "a cubic hypergraph whose refinement is changed more than once (or from a value other than the final one)"
breaks = "hypernodes of interior faces of different coarse hyperedges get the same number, because the number of interior faces belongs to the previous refinement"
edits = [("include/HyperHDG/topology/cubic.hxx",
"""    n_subintervals_ = level;
    tpcc_ref_elem_ =
      Wrapper::create_tpcc<hyEdge_dimT, hyEdge_dimT, TPCC::boundaries::both, hyEdge_index_t>(
        SmallVec<hyEdge_dimT, unsigned int>(n_subintervals_));
    tpcc_ref_faces_ = Wrapper::tpcc_faces<TPCC::boundaries::none>(tpcc_ref_elem_);
    n_elem_per_elem = Wrapper::n_elements(tpcc_ref_elem_);
    n_face_per_face = Hypercube<hyEdge_dimT - 1>::pow(n_subintervals_);
    n_face_per_elem = Wrapper::n_elements(tpcc_ref_faces_);
""",
"""    if (level == n_subintervals_)
      return;
    tpcc_ref_elem_ =
      Wrapper::create_tpcc<hyEdge_dimT, hyEdge_dimT, TPCC::boundaries::both, hyEdge_index_t>(
        SmallVec<hyEdge_dimT, unsigned int>(level));
    tpcc_ref_faces_ = Wrapper::tpcc_faces<TPCC::boundaries::none>(tpcc_ref_elem_);
    n_elem_per_elem = Wrapper::n_elements(tpcc_ref_elem_);
    n_face_per_face = Hypercube<hyEdge_dimT - 1>::pow(level);
    n_face_per_elem = hyEdge_dimT * (level > n_subintervals_ ? level - 1 : n_subintervals_ - 1) *
                      n_face_per_face;
    n_subintervals_ = level;
""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/topology/cubic.hxx>
int main()
{
  SmallVec<2, unsigned int> n(2u);
  Topology::Cubic<2, 2> t(n);
  t.set_refinement(4);
  t.set_refinement(2);
  std::vector<int> used(1000, 0);
  for (unsigned int e = 0; e < t.n_hyEdges(); ++e)
    for (unsigned int i = 0; i < 4; ++i)
      used[t[e].get_hyNode_indices()[i]] = 1;
  CHECK(t.n_hyNodes() == 40);
  for (unsigned int k = 0; k < t.n_hyNodes() && k < 1000; ++k)
    CHECK(used[k]);
  return demo_bad;
}
'''
