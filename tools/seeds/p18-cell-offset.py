property = "P18"
needs = "a refined two-dimensional hyperedge of a domain file whose coarse directions have different lengths, at a cell that is not on the diagonal"
breaks = "cells are shifted along the wrong spanning vector"
edits = [("include/HyperHDG/geometry/file.hxx",
"""        translation += (pt_coord_t)Wrapper::interior_coordinate(elem, dim) * matrix.get_column(dim);
""",
"""        translation += (pt_coord_t)Wrapper::interior_coordinate(elem, hyEdge_dimT - 1 - dim) * matrix.get_column(dim);
""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/geometry/file.hxx>

static void domain(const char* name, int d)
{
  std::ofstream f(name);
  if (d == 1)
    f << "Space_Dim = 2;\nHyperEdge_Dim = 1;\nN_Points = 3;\nN_HyperNodes = 3;\nN_HyperEdges = 2;\nPOINTS:\n0 0\n4 0\n4 4\n"
      << "HYPERNODES_OF_HYPEREDGES:\n0 1\n1 2\nTYPES_OF_HYPERFACES:\n7 8\n8 9\nPOINTS_OF_HYPEREDGES:\n0 1\n1 2\nHYPEREDGE_PROPERTIES: 1\n5\n6\n";
  else
    f << "Space_Dim = 2;\nHyperEdge_Dim = 2;\nN_Points = 4;\nN_HyperNodes = 4;\nN_HyperEdges = 1;\nPOINTS:\n0 0\n4 0\n0 4\n4 4\n"
      << "HYPERNODES_OF_HYPEREDGES:\n0 1 2 3\nTYPES_OF_HYPERFACES:\n6 7 8 9\nPOINTS_OF_HYPEREDGES:\n0 1 2 3\n";
}

int main()
{
  domain("d.geo", 2);
  Topology::File<2, 2> t(std::string("d.geo"));
  Geometry::File<2, 2> g(t);
  g.set_refinement(2);
  const Point<2, double> p(0.);
  Point<2, double> a = g[1].map_ref_to_phys(p);
  CHECK(std::abs(a[0] - 2.) < 1e-12 && std::abs(a[1]) < 1e-12);
  return demo_bad;
}
'''
