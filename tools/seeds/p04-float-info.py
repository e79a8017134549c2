property = "P04"
needs = "a singular system in single precision"
breaks = "the single precision solver reports a failure only for negative status codes, i.e. a singular matrix (positive code) is not reported"
edits = [("include/HyperHDG/wrapper/lapack.hxx",
"""  sgesv_(&system_size, &n_rhs_cols, mat_a, &system_size, ipiv, rhs_b, &system_size, &info);
  delete[] ipiv;
  if (info != 0)""",
"""  sgesv_(&system_size, &n_rhs_cols, mat_a, &system_size, ipiv, rhs_b, &system_size, &info);
  delete[] ipiv;
  if (info < 0)""")]
demo = r'''
#include "mini.hxx"
int main()
{
  SmallSquareMat<2, float> A(0.f);
  SmallVec<2, float> b(1.f);
  bool thrown = false;
  try { auto x = b / A; } catch (Wrapper::LAPACKexception&) { thrown = true; }
  CHECK(thrown);
  return demo_bad;
}
'''
