property = "P16"
needs = "a point cloud with a cycle: two neighbouring points that have both been found from a third one before either is expanded"
breaks = "only the connections of a spanning tree plus some others are kept: connections between points which are already waiting in the queue are lost in one search direction"
edits = [("include/HyperHDG/epsilon_neighborhood_graph.hxx",
"""         --ind)
      if (norm_2(points[index] - points[ind]) < epsilon && ind != index &&
          (!bool_vec[ind] || std::find(search.begin(), search.end(), ind) != search.end()))""",
"""         --ind)
      if (norm_2(points[index] - points[ind]) < epsilon && ind != index && !bool_vec[ind])""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/read_domain.hxx>
int main()
{
  std::ofstream("c.pts") << "Space_Dim = 2;\nEpsilon = 1;\nPOINTS:\n0 0\n0.1 1.5\n0.2 0.8\n0.3 0.7\n";
  auto g = read_domain<1, 2>("c.pts");
  CHECK(g.n_points == 4);
  CHECK(g.n_hyEdges == 5);
  return demo_bad;
}
'''
