property = "P19"
needs = "a domain file with a boundary type and a refinement of at least two"
breaks = "the last interior face of a coarse hyperedge carries the type of the outer face"
edits = [("include/HyperHDG/node_descriptor/file.hxx",
"""        if (Wrapper::exterior_coordinate(face, 0) != 0 &&
            Wrapper::exterior_coordinate(face, 0) != node_desc.n_subintervals_)
""",
"""        if (Wrapper::exterior_coordinate(face, 0) != 0 &&
            Wrapper::exterior_coordinate(face, 0) + (i + 1) % 2 != node_desc.n_subintervals_)
""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/node_descriptor/file.hxx>

static void domain(const char* name, int d)
{
  std::ofstream f(name);
  if (d == 1)
    f << "Space_Dim = 2;\nHyperEdge_Dim = 1;\nN_Points = 3;\nN_HyperNodes = 3;\nN_HyperEdges = 2;\nPOINTS:\n0 0\n4 0\n4 4\n"
      << "HYPERNODES_OF_HYPEREDGES:\n0 1\n1 2\nTYPES_OF_HYPERFACES:\n7 8\n8 9\nPOINTS_OF_HYPEREDGES:\n0 1\n1 2\nHYPEREDGE_PROPERTIES: 1\n5\n6\n";
  else
    f << "Space_Dim = 2;\nHyperEdge_Dim = 2;\nN_Points = 4;\nN_HyperNodes = 4;\nN_HyperEdges = 1;\nPOINTS:\n0 0\n4 0\n0 4\n4 4\n"
      << "HYPERNODES_OF_HYPEREDGES:\n0 1 2 3\nTYPES_OF_HYPERFACES:\n6 7 8 9\nPOINTS_OF_HYPEREDGES:\n0 1 2 3\n";
}

int main()
{
  domain("d.geo", 1);
  Topology::File<1, 2> t(std::string("d.geo"));
  NodeDescriptor::File<1, 2> n(t);
  t.set_refinement(2);
  n.set_refinement(2);
  CHECK(n[0][0] == 7 && n[0][1] == 0 && n[1][0] == 0 && n[1][1] == 8);
  CHECK(n[2][0] == 8 && n[2][1] == 0 && n[3][0] == 0 && n[3][1] == 9);
  return demo_bad;
}
'''
