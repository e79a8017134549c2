property = "P02"
needs = "an access with a row index equal to the number of rows and a column that is not the last one, in a debug build"
breaks = "the row range check lets the index n_rows pass, so that an entry of the next column is read or written"
edits = [("include/HyperHDG/dense_la.hxx", "hy_assert(row < n_rowsT,", "hy_assert(row <= n_rowsT,")]
demo = r'''
#include "mini.hxx"
#include <csignal>
#include <cstdlib>
int main()
{
  std::signal(SIGABRT, [](int) { std::_Exit(0); });
  SmallMat<2, 3, double> m;
  m(2, 1) = 7.;   // has to abort
  std::printf("wrote %g to (0, 2)\n", m(0, 2));
  return 1;
}
'''
