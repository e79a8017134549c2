property = "P19"
needs = "a domain file with several hyperedges of dimension two that is refined"
breaks = "interior hypernodes of neighbouring coarse hyperedges coincide and some are missing"
edits = [("include/HyperHDG/topology/file.hxx",
"""                               topology.n_face_per_elem * (index / topology.n_elem_per_elem) +
""",
"""                               topology.n_face_per_elem * index / topology.n_elem_per_elem +
""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/topology/file.hxx>

static void domain(const char* name, int d)
{
  std::ofstream f(name);
  if (d == 1)
    f << "Space_Dim = 2;\nHyperEdge_Dim = 1;\nN_Points = 3;\nN_HyperNodes = 3;\nN_HyperEdges = 2;\nPOINTS:\n0 0\n4 0\n4 4\n"
      << "HYPERNODES_OF_HYPEREDGES:\n0 1\n1 2\nTYPES_OF_HYPERFACES:\n7 8\n8 9\nPOINTS_OF_HYPEREDGES:\n0 1\n1 2\nHYPEREDGE_PROPERTIES: 1\n5\n6\n";
  else
    f << "Space_Dim = 2;\nHyperEdge_Dim = 2;\nN_Points = 4;\nN_HyperNodes = 4;\nN_HyperEdges = 1;\nPOINTS:\n0 0\n4 0\n0 4\n4 4\n"
      << "HYPERNODES_OF_HYPEREDGES:\n0 1 2 3\nTYPES_OF_HYPERFACES:\n6 7 8 9\nPOINTS_OF_HYPEREDGES:\n0 1 2 3\n";
}

int main()
{
  domain("d.geo", 2);
  Topology::File<2, 2> t(std::string("d.geo"));
  t.set_refinement(2);
  // interior faces: 0-1, 2-3 (first direction), 0-2, 1-3 (second direction)
  auto v = [&](unsigned int e, unsigned int i) { return t[e].get_hyNode_indices()[i]; };
  CHECK(v(0, 1) == v(1, 0) && v(2, 1) == v(3, 0) && v(0, 3) == v(2, 2) && v(1, 3) == v(3, 2));
  return demo_bad;
}
'''
