property = "P33"
needs = "a boundary value of the moment at a time other than zero"
breaks = "the second boundary value of the parabolic bilaplacian problem is that of the initial time; boundary value and initial data stay right"
edits = [("reproducibles_python/parameters/bilaplacian.hxx",
"""  static param_float_t dirichlet_laplace_value(const Point<space_dimT, param_float_t>& point,
                                               const param_float_t time = 0.)
  {
    return M_PI * analytic_result(point, time);
  }

  static param_float_t initial(const Point<space_dimT, param_float_t>& point,
                               const param_float_t time = 0.)""",
"""  static param_float_t dirichlet_laplace_value(const Point<space_dimT, param_float_t>& point,
                                               const param_float_t = 0.)
  {
    return M_PI * analytic_result(point);
  }

  static param_float_t initial(const Point<space_dimT, param_float_t>& point,
                               const param_float_t time = 0.)""")]
demo = r'''
#include "mini.hxx"
#include "reproducibles_python/parameters/bilaplacian.hxx"
int main()
{
  using P = TestParametersSinParab<2, double>;
  for (double t : {0., 0.3, 0.7})
  {
    Point<2, double> x, a, b;
    x[0] = 0.4; x[1] = 0.2; a = x; b = x;
    const double h = 1e-3;
    a[0] -= h; b[0] += h;
    const double lap = (P::analytic_result(a, t) - 2 * P::analytic_result(x, t) + P::analytic_result(b, t)) / h / h;
    CHECK(std::abs(P::dirichlet_laplace_value(x, t) + lap / P::inverse_bilaplacian_coefficient(x, t)) < 1e-3);
  }
  return demo_bad;
}
'''
