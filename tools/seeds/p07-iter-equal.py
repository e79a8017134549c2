property = "P07"
needs = "comparing iterators of two different hypergraphs at the same position"
breaks = "iterators of different hypergraphs compare equal, e.g. the begin of one hypergraph and the begin of another one"
edits = [("include/HyperHDG/hdg_hypergraph.hxx",
"      return index_ == other.index_ && std::addressof(hyGraph_) == std::addressof(other.hyGraph_);",
"      return index_ == other.index_ && hyGraph_.n_hyEdges() == other.hyGraph_.n_hyEdges();")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/hdg_hypergraph.hxx>
int main()
{
  Chain c;
  HDGHyperGraph<1, Topo<1>, Geom<1>, Node<1>> a(c), b(c);
  CHECK(!(a.begin() == b.begin()));
  CHECK(a.begin() == a.begin());
  return demo_bad;
}
'''
