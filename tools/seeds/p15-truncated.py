property = "P15"
needs = "a domain file that ends within its last table (points of hyperedges), in a debug build"
breaks = "a truncated file is accepted and the points of the last hyperedge are those of a default-initialised array"
edits = [("include/HyperHDG/read_domain.hxx",
"""      linestream >> domain_info.points_hyEdge[hyEdge_iter][i];
  }

  hy_assert(hyEdge_iter == N_HyperEdges,""",
"""      linestream >> domain_info.points_hyEdge[hyEdge_iter][i];
  }

  hy_assert(hyEdge_iter == N_HyperEdges || !infile.eof() || hyEdge_iter > 0,""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/read_domain.hxx>
#include <csignal>
#include <cstdlib>
int main()
{
  const char* head = "Space_Dim = 1;\nHyperEdge_Dim = 1;\nN_Points = 3;\nN_HyperNodes = 3;\nN_HyperEdges = 2;\nPOINTS:\n0\n1\n2\nHYPERNODES_OF_HYPEREDGES:\n0 1\n1 2\nTYPES_OF_HYPERFACES:\n1 0\n0 1\nPOINTS_OF_HYPEREDGES:\n0 1\n";
  std::ofstream("good.geo") << head << "1 2\n";
  std::ofstream("bad.geo") << head;
  auto g = read_domain_geo<1, 1>("good.geo");
  if (g.points_hyEdge[1][1] != 2) return 1;
  std::signal(SIGABRT, [](int) { std::_Exit(0); });
  auto b = read_domain_geo<1, 1>("bad.geo");   // has to abort
  return 1;
}
'''
