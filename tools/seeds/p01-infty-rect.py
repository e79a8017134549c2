property = "P01"
needs = "a matrix with more rows than columns whose largest row sum lies in a row beyond the number of columns"
breaks = "the infinity norm of a tall matrix ignores its last rows"
edits = [("include/HyperHDG/dense_la.hxx",
"""    for (unsigned int row = 0; row < n_rows; ++row)
    {
      norm = 0.;
      for (unsigned int col = 0; col < n_cols; ++col)
        norm += std::abs(mat(row, col));""",
"""    for (unsigned int row = 0; row < n_cols; ++row)
    {
      norm = 0.;
      for (unsigned int col = 0; col < n_cols; ++col)
        norm += std::abs(mat(row % n_rows, col));""")]
demo = r'''
#include "mini.hxx"
int main()
{
  SmallMat<3, 2, double> m;
  m(0, 0) = 1.; m(2, 0) = -5.; m(2, 1) = 1.;
  CHECK(norm_infty(m) == 6.);
  SmallMat<2, 2, double> s;
  s(1, 0) = -3.; s(1, 1) = 1.;
  CHECK(norm_infty(s) == 4.);
  return demo_bad;
}
'''
