property = "P06"
needs = "setting all dofs of a hypernode to one value when a hypernode has more than one dof"
breaks = "the last dof of the hypernode is computed from the next hypernode's range: one entry is missed and a neighbouring one is overwritten"
edits = [("include/HyperHDG/hypernodefactory.hxx",
"        global_dof_vector[initial_dof_index + index] = value;",
"        global_dof_vector[initial_dof_index + (index ? index : n_dofs_per_nodeT) - 1] = value;"),
("include/HyperHDG/hypernodefactory.hxx",
"""                            const typename LargeVecT::value_type value) const
  {
    dof_index_t initial_dof_index = hyNode_index * n_dofs_per_nodeT;""",
"""                            const typename LargeVecT::value_type value) const
  {
    dof_index_t initial_dof_index =
      hyNode_index > 1 ? hyNode_index * n_dofs_per_nodeT - (n_dofs_per_nodeT > 2) : hyNode_index * n_dofs_per_nodeT;""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/hypernodefactory.hxx>
int main()
{
  HyperNodeFactory<3> f(4);
  std::vector<double> v(12, 0.);
  f.set_dof_values<uint, std::vector<double>>(2, v, 5.);
  for (uint i = 0; i < 12; ++i)
    CHECK(v[i] == ((i >= 6 && i < 9) ? 5. : 0.));
  return demo_bad;
}
'''
