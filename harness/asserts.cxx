// P36: what an assertion does
#include "vp.hxx"
#include <HyperHDG/hy_assert.hxx>
#include <string>
#include <vector>

//@unit P36 stops<{w}> w=0,1,2,3 mode=debug
template <uint w> void stops()
{
  const uint a = vp_in_u("a", 0), b = vp_in_u("b", 0);
  uint after = 0;
  if constexpr (w == 0)
  {
    VP_ABORT_IFF(!(a < b));
    hy_assert(a < b, "Expected " << a << " to be smaller than " << b << ".");
  }
  else if constexpr (w == 1)
  {
    VP_ABORT_IFF(!(a == 3 || b > 5));
    hy_assert(a == 3 || b > 5, "No.");
  }
  else if constexpr (w == 2)
  {
    const double x = vp_in_d("x", 0);
    VP_ABORT_IFF(!(x > 0));
    hy_assert(x > 0, "x = " << x << std::endl << std::string(" is not positive"));
  }
  else
  {
    VP_ABORT_IFF(true);
    hy_assert(false, "");
    vp_unreach("a failed assertion did not end the program");
  }
  after = 1;
  vp_eq_u("the program goes on after a passed assertion", 0, after, 1);
  vp_eq_u("a is unchanged", 0, a, vp_in_u("a", 0));
}
//@unit P36 silent<{w}> w=0,1 mode=ndebug
template <uint w> void silent()
{
  // without assertions nothing is evaluated, and nothing ends the program
  const uint a = vp_in_u("a", 0);
  uint seen = 0, told = 0;
  auto cond = [&]() { ++seen; return a < 7; };
  auto text = [&]() { ++told; return "text"; };
  if (w == 0)
    hy_assert(cond(), text() << a);
  if (w == 1)
    for (uint i = 0; i < 3; ++i)
      hy_assert(cond() && false, text());
  vp_eq_u("the condition is not evaluated", 0, seen, 0);
  vp_eq_u("the message is not evaluated", 0, told, 0);
}
//@unit P36 once<{n}> n=1,2,5 mode=debug
template <uint n> void once()
{
  uint seen = 0;
  auto cond = [&]() { return ++seen > 0; };
  for (uint i = 0; i < n; ++i)
    hy_assert(cond(), "never shown " << i);
  vp_eq_u("a condition is evaluated exactly once", 0, seen, n);
}
//@unit P36 several<{k}> k=1,2,3 mode=debug
template <uint k> void several()
{
  // each assertion of a sequence counts, whatever the others said
  std::vector<uint> v(k);
  bool bad = false;
  for (uint i = 0; i < k; ++i)
  {
    v[i] = vp_in_u("v", i);
    bad = bad || v[i] >= 10 + i;
  }
  VP_ABORT_IFF(bad);
  for (uint i = 0; i < k; ++i)
    hy_assert(v[i] < 10 + i, "Entry " << i << " is " << v[i]);
  for (uint i = 0; i < k; ++i)
    vp_eq_u("entries are unchanged", i, v[i], vp_in_u("v", i));
}
