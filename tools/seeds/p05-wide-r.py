property = "P05"
needs = "the determinant of a matrix with at least two rows more than one, where exactly the last column but one needs no reflection"
breaks = "the sign of the determinant counts reflections by the last column's coefficient only"
edits = [("include/HyperHDG/wrapper/lapack.hxx",
"""  constexpr unsigned int rank = std::min(n_rows, n_cols);
  std::array<lapack_float_t, rank> tau;
  lapack_qr(n_rows, n_cols, dense_mat.data(), tau.data());
  return get_r_from_lapack_qr_result""",
"""  constexpr unsigned int rank = std::min(n_rows, n_cols);
  std::array<lapack_float_t, rank> tau;
  lapack_qr(n_rows, rank, dense_mat.data(), tau.data());
  return get_r_from_lapack_qr_result""")]
needs = "the triangular factor of a matrix with more columns than rows"
breaks = "only the square part of a wide matrix is decomposed, the remaining columns of R are those of the original matrix"
demo = r'''
#include "mini.hxx"
int main()
{
  std::array<double, 6> a{3., 4., 1., 2., 5., 7.};   // 2 x 3, column-major
  auto& r = Wrapper::lapack_qr_decomp_r<2, 3, double>(a);
  // column norms are preserved by the orthogonal factor, entry products with the first column as well
  CHECK(std::abs(r[0] * r[4] + r[1] * r[5] - (3. * 5. + 4. * 7.)) < 1e-9);
  CHECK(std::abs(r[0] * r[2] + r[1] * r[3] - (3. * 1. + 4. * 2.)) < 1e-9);
  return demo_bad;
}
'''
