#pragma once
// Problems with a known solution: the data must be those of the solution.
#include <array>
#include <cmath>
#include <cstdlib>
#include <HyperHDG/dense_la.hxx>
#include "vp.hxx"
using uint = unsigned int;

// A point of a hyperedge parallel to the axes whose bit is set in mask; the other coordinates are fixed to grid lines.
template <uint s> Point<s, double> place(uint mask, uint fix)
{
  const double lines[3] = {0., 0.5, 1.};
  Point<s, double> p;
  for (uint i = 0; i < s; ++i)
  {
    p[i] = (mask >> i & 1) ? vp_in_d("x", i) : lines[fix % 3];
    if (!(mask >> i & 1))
      fix /= 3;
  }
  return p;
}
inline uint bits(uint m) { return m ? (m & 1) + bits(m >> 1) : 0; }
inline uint pow3(uint n) { return n ? 3 * pow3(n - 1) : 1; }
inline double dx(double v, uint i) { return vp_diff(v, "x", i); }
inline double dt(double v) { return vp_diff(v, "t", 0); }
template <uint s> double lap(double k, double v, uint mask)
{
  double r = 0;
  for (uint i = 0; i < s; ++i)
    if (mask >> i & 1)
      r += dx(k * dx(v, i), i);
  return r;
}
template <uint s, uint d, class F> void places(F f)
{
  for (uint mask = 0; mask < (1u << s); ++mask)
    if (bits(mask) == d)
      for (uint fix = 0; fix < pow3(s - d); ++fix)
      {
        bool thrown = false;
        try
        {
          f(place<s>(mask, fix), mask);
        }
        catch (...)
        {
          thrown = true;
        }
        vp_near_d("data are defined inside the domain", mask, thrown ? 1. : 0., 0.);
      }
}
template <class A> bool has(const A& list, uint type)
{
  bool r = false;
  for (uint i = 0; i < list.size(); ++i)
    if (list[i] == type)
      r = true;
  return r;
}
// Types of the boundary of the unit cube (base-3 digit per axis: 1 low face, 2 high face); all but interior ones prescribed.
template <class A> void all_boundary(const A& list)
{
  for (uint t = 0; t < 27; ++t)
    vp_true("all types of boundary nodes of the cube, and no others, are prescribed", has(list, t) == (t > 0));
}
// Data that all problems share.
template <class P, class Q> void common(const Q& x, double t)
{
  const double u = P::analytic_result(x, t);
  vp_near_d("boundary value is the solution", 0, P::dirichlet_value(x, t), u);
  vp_near_d("initial value is the solution", 0, P::initial(x, t), u);
}
