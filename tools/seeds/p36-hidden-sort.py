property = "P36"
needs = "a release build (NDEBUG) and a point cloud whose points are not in lexicographic order"
breaks = "points of a cloud are sorted by a helper that is only called inside an assertion: without assertions the neighbour search runs over unsorted points and loses connections"
edits = [("include/HyperHDG/epsilon_neighborhood_graph.hxx",
"""  std::sort(points.begin(), points.end());
  hy_assert(std::adjacent_find(points.begin(), points.end()) == points.end(),
            "Points must be unique in given file!");
""",
"""  auto all_unique = [](auto& vec)
  {
    std::sort(vec.begin(), vec.end());
    return std::adjacent_find(vec.begin(), vec.end()) == vec.end();
  };
  hy_assert(all_unique(points), "Points must be unique in given file!");
""")]
demo = r'''
#define NDEBUG
#include "mini.hxx"
#include <HyperHDG/read_domain.hxx>
int main()
{
  std::ofstream("c.pts") << "Space_Dim = 1;\nEpsilon = 1.5;\nPOINTS:\n0\n3\n1\n2\n";
  auto g = read_domain<1, 1>("c.pts");
  CHECK(g.n_points == 4);
  CHECK(g.n_hyEdges == 3);
  return demo_bad;
}
'''
