property = "P06"
needs = "a global vector with more than 65536 degrees of freedom"
breaks = "the first dof of a hypernode is kept in 16 bits when values are gathered, so that values of a far hypernode are read from a near one"
edits = [("include/HyperHDG/hypernodefactory.hxx", """    dof_index_t initial_dof_index = hyNode_index * n_dofs_per_nodeT;
    hy_assert(initial_dof_index >= 0 &&
                initial_dof_index + n_dofs_per_nodeT <= global_dof_vector.size(),
              "The initial dof index = "
                << initial_dof_index << ", should""", """    const unsigned short initial_dof_index = hyNode_index * n_dofs_per_nodeT;
    hy_assert(initial_dof_index >= 0 &&
                initial_dof_index + n_dofs_per_nodeT <= global_dof_vector.size(),
              "The initial dof index = "
                << initial_dof_index << ", should""")]
demo_sh = r'''#!/bin/bash
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cat > "$t/demo.cxx" <<'X'
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hypernodefactory.hxx>
#include <array>
#include <vector>
int main()
{
  const HyperNodeFactory<2> f(50000);
  std::vector<double> v(100000);
  for (unsigned int i = 0; i < v.size(); ++i)
    v[i] = i;
  std::array<double, 2> a;
  for (unsigned int n = 0; n < 50000; ++n)
  {
    f.get_dof_values(n, v, a);
    if (a[0] != 2 * n || a[1] != 2 * n + 1)
      return 1;
  }
  return 0;
}
X
g++ -std=c++20 -w -I"$repo/include" "$t/demo.cxx" -o "$t/demo" || exit 3
"$t/demo"
'''
