property = "P20"
needs = "a tolerance for which the residual falls between tolerance and its square within the iterations"
breaks = "inside the iteration the squared residual is compared with the tolerance itself, so that the solver stops too early"
edits = [("include/HyperHDG/sparse_la.hxx",
"""    if (r_square_new < tolerance * tolerance)
    {
      n_iterations = k + 1;""",
"""    if (r_square_new < std::min(tolerance, tolerance * tolerance * b.size()))
    {
      n_iterations = k + 1;""")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/sparse_la.hxx>
struct Prob
{
  std::vector<double> trace_to_flux(const std::vector<double>& x) { return {2 * x[0] + x[1], x[0] + 3 * x[1]}; }
};
int main()
{
  Prob p;
  std::vector<double> b{1., 2.};
  const double tol = 0.6;
  try
  {
    auto x = SparseLA::conjugate_gradient(b, p, 0, tol);
    auto a = p.trace_to_flux(x);
    CHECK(std::hypot(a[0] - b[0], a[1] - b[1]) < tol * (1 + 1e-12));
  }
  catch (SparseLA::SolveException&) { CHECK(false); }
  for (double t = 0.01; t < 2.; t *= 1.02)
    for (double q = -3.; q <= 3.; q += 0.25)
    {
      std::vector<double> c{q, 1.};
      auto x = SparseLA::conjugate_gradient(c, p, 0, t);
      auto a = p.trace_to_flux(x);
      CHECK(std::hypot(a[0] - c[0], a[1] - c[1]) < t * (1 + 1e-9));
    }
  return demo_bad;
}
'''
