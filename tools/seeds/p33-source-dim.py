property = "P33"
needs = "a hypergraph whose hyperedge dimension is smaller than the dimension of the space"
breaks = "the source of the diffusion-advection-reaction problem counts the axes of the space instead of those of the hyperedge: same values when both agree"
edits = [("reproducibles_python/parameters/diffusion_advection_reaction.hxx",
"      return 3. * (param_float_t)hyEdge_dimT + analytic_result(point);",
"      return 3. * (param_float_t)point.size() + analytic_result(point);")]
demo = r'''
#include "mini.hxx"
#include "reproducibles_python/parameters/diffusion_advection_reaction.hxx"
template <unsigned int d, unsigned int s> void run()
{
  using P = typename HG<d>::template TestParametersQuadEllipt<s, double>;
  Point<s, double> x;
  for (unsigned int i = 0; i < s; ++i)
    x[i] = i < d ? 0.3 + 0.1 * i : 1.;
  auto flux = [](const Point<s, double>& y, unsigned int i) { return P::advective_velocity(y)[i] * P::analytic_result(y) / P::inverse_diffusion_coeff(y); };
  const double h = 1e-3;
  double w = P::reaction_rate(x) * P::analytic_result(x);
  for (unsigned int i = 0; i < d; ++i)
  {
    Point<s, double> a = x, b = x;
    a[i] -= h; b[i] += h;
    w += -(P::analytic_result(a) - 2 * P::analytic_result(x) + P::analytic_result(b)) / h / h / P::inverse_diffusion_coeff(x);
    w += (flux(b, i) - flux(a, i)) / 2 / h;
  }
  CHECK(std::abs(P::right_hand_side(x) - w) < 1e-3);
}
int main()
{
  run<1, 1>(); run<2, 2>(); run<1, 2>(); run<1, 3>(); run<2, 3>(); run<3, 3>();
  return demo_bad;
}
'''
