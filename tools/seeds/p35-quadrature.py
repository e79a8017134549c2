property = "P35"
needs = "instantiating the interior penalty solver with the quadrature degree all shipped scripts use"
breaks = "a compile-time requirement refuses quadrature of degree 2p, with which every shipped script configures the solver"
edits = [("include/HyperHDG/local_solver/diffusion_ip.hxx", '''class DiffusionIP
{
 public:
''', '''class DiffusionIP
{
  static_assert(quad_deg > 2 * poly_deg, "The penalty terms need to be integrated exactly.");

 public:
''')]
demo = r'''
#include "lsolmini.hxx"
#include <HyperHDG/local_solver/diffusion_ip.hxx>
#include <reproducibles_python/parameters/diffusion.hxx>
int main()
{
  const LocalSolver::DiffusionIP<1, 1, 2, TestParametersSinEllipt, double> s(1.);
  std::array<std::array<double, 1>, 2> in{}, out{};
  in[0][0] = 1.;
  Box<1> e{{{0.}, {1.}}, {0u, 0u}};
  s.trace_to_flux(in, out, e, 0.);
  CHECK(out[0][0] == out[0][0]);
  return demo_bad;
}
'''
demo_sh = r'''#!/bin/bash
# the solver as the scripts configure it compiles and runs
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -w -I"$repo/include" -I"$here" -idirafter "$repo" "$here/demo.cxx" -o "$t/demo" -llapack || exit 1
timeout 120 "$t/demo"
'''
