property = "P20"
needs = "a system with more than one unknown, and no number of iterations given"
breaks = "without a number of iterations the conjugate gradient method stops after one step and reports failure"
edits = [("include/HyperHDG/sparse_la.hxx", "unsigned int n_iterations = 0,", "unsigned int n_iterations = 1,")]
demo = r'''
#include <cmath>
#include <HyperHDG/hy_assert.hxx>
#include <HyperHDG/sparse_la.hxx>
#include <vector>
struct P
{
  std::vector<double> trace_to_flux(const std::vector<double>& x) const
  {
    std::vector<double> y(x.size());
    for (unsigned i = 0; i < x.size(); ++i)
      y[i] = (i + 1.) * x[i];
    return y;
  }
};
int main()
{
  P p;
  const std::vector<double> b(4, 1.);
  try
  {
    const auto x = SparseLA::conjugate_gradient(b, p);
    for (unsigned i = 0; i < 4; ++i)
      if (std::abs((i + 1.) * x[i] - 1.) > 1e-6)
        return 1;
  }
  catch (const SparseLA::SolveException&)
  {
    return 1;
  }
  return 0;
}
'''
