property = "P01"
needs = "scaling an object by one of its own entries (v /= v[0] on a non-const object)"
breaks = "the scalar is taken by reference, so it changes while the entries are divided: later entries are divided by one"
edits = [("include/HyperHDG/dense_la.hxx",
 "operator/=(const mat_entry_t scalar)", "operator/=(const mat_entry_t& scalar)")]
demo = r'''
#include "mini.hxx"
int main()
{
  SmallMat<2, 2, double> m;
  m(0, 0) = 2.; m(1, 0) = 4.; m(0, 1) = 6.; m(1, 1) = 8.;
  m /= m[0];
  CHECK(m(0, 0) == 1. && m(1, 0) == 2. && m(0, 1) == 3. && m(1, 1) == 4.);
  return demo_bad;
}
'''
