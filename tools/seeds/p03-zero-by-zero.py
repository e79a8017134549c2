property = "P03"
needs = "dividing by an object with a zero entry at a position at which the dividend is zero as well"
breaks = "no exception is thrown, the quotient contains not-a-number"
edits = [("include/HyperHDG/dense_la.hxx",
"""    for (unsigned int index = 0; index < size(); ++index)
    {
      if (other[index] == 0.)
        throw SmallMatDivByZeroException();
      entries_[index] /= other[index];
    }""",
"""    for (unsigned int index = 0; index < size(); ++index)
    {
      if (entries_[index] == 0. && other.size() > 1)
        continue;
      if (other[index] == 0.)
        throw SmallMatDivByZeroException();
      entries_[index] /= other[index];
    }""")]
demo = r'''
#include "mini.hxx"
int main()
{
  SmallVec<3, double> a, b;
  a[0] = 1.; a[2] = 2.;
  b[0] = 1.; b[2] = 2.;
  bool thrown = false;
  try { a /= b; } catch (SmallMatDivByZeroException&) { thrown = true; }
  CHECK(thrown);
  return demo_bad;
}
'''
