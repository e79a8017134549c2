property = "P18"
needs = "a refined hypergraph with hyperedge properties"
breaks = "a refined hyperedge reports the properties of another coarse hyperedge"
edits = [("include/HyperHDG/geometry/file.hxx",
"""        .hyEdge_properties[index_ / hyGraph_geometry_.n_loc_ref_elem];
""",
"""        .hyEdge_properties[index_ / hyGraph_geometry_.n_subintervals_ %
                           hyGraph_geometry_.domain_info_.n_hyEdges];
""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/geometry/file.hxx>
int main()
{
  {
    std::ofstream f("e.geo");
    f << "Space_Dim = 2;\nHyperEdge_Dim = 2;\nN_Points = 6;\nN_HyperNodes = 7;\nN_HyperEdges = 2;\nPOINTS:\n0 0\n1 0\n0 1\n1 1\n2 0\n2 1\n"
      << "HYPERNODES_OF_HYPEREDGES:\n0 1 2 3\n1 4 5 6\nTYPES_OF_HYPERFACES:\n1 0 1 1\n0 1 1 1\nPOINTS_OF_HYPEREDGES:\n0 1 2 3\n1 4 3 5\n"
      << "HYPEREDGE_PROPERTIES: 1\n5\n6\n";
  }
  Topology::File<2, 2> t(std::string("e.geo"));
  Geometry::File<2, 2> g(t);
  g.set_refinement(2);
  for (unsigned int e = 0; e < 8; ++e)
  {
    auto x = g[e];
    CHECK(x.has_extra_data() && x.extra_data()[0] == (e < 4 ? 5. : 6.));
  }
  return demo_bad;
}
'''
