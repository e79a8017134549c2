property = "P36"
needs = "a debug build and a domain file whose points are not in lexicographic order"
breaks = "the check for duplicates sorts the table it is given instead of a copy: a domain that is read with assertions has its points reordered, so its hyperedges join other points than without assertions"
edits = [("include/HyperHDG/read_domain.hxx",
"""bool is_unique(const vectorT& vec)
{
  vectorT x(vec);                                              // Copy vector enabling reorder.
  std::sort(x.begin(), x.end());                               // Sort vector in O(N log N).
  return (std::adjacent_find(x.begin(), x.end()) == x.end());  // Check for duplicates in O(n).
""",
"""bool is_unique(vectorT& vec)
{
  std::sort(vec.begin(), vec.end());                                 // Sort vector in O(N log N).
  return (std::adjacent_find(vec.begin(), vec.end()) == vec.end());  // Check duplicates in O(n).
""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/read_domain.hxx>
int main()
{
  std::ofstream("d.geo") << "Space_Dim = 1;\nHyperEdge_Dim = 1;\nN_Points = 3;\nN_HyperNodes = 3;\nN_HyperEdges = 2;\n"
                            "POINTS:\n2\n0\n1\nHYPERNODES_OF_HYPEREDGES:\n0 2\n2 1\nTYPES_OF_HYPERFACES:\n1 0\n0 1\n"
                            "POINTS_OF_HYPEREDGES:\n0 2\n2 1\n";
  auto g = read_domain<1, 1>("d.geo");
  CHECK(g.points[0][0] == 2. && g.points[1][0] == 0. && g.points[2][0] == 1.);
  CHECK(g.hyNodes_hyEdge[0][0] == 0 && g.hyNodes_hyEdge[0][1] == 2);
  return demo_bad;
}
'''
