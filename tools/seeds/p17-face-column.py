property = "P17"
needs = "face volumes of a hyperedge of dimension three for the middle face"
breaks = "the columns of the face matrix are shifted for indices above zero only, so that a column is used twice or left out"
edits = [("include/HyperHDG/mapping/linear.hxx",
"          mat_face.set_column(i - (i > index), matrix_.get_column(i));",
"          mat_face.set_column(index == 1 ? i / 2 * (i > 1) : i - (i > index), matrix_.get_column(index == 1 && hyEdge_dimT == 3 ? 2 - i / 2 * 2 + i / 2 : i));")]
demo = r'''
#include "mini.hxx"
#include <HyperHDG/mapping/linear.hxx>
int main()
{
  SmallMat<3, 3, double> A;
  A(0, 0) = 2.; A(1, 1) = 3.; A(2, 2) = 5.;
  Point<3, double> t;
  Mapping::Linear<3, 3, double> m(t, A);
  CHECK(std::abs(std::abs(m.functional_determinant_hyNode(0)) - 15.) < 1e-9);
  CHECK(std::abs(std::abs(m.functional_determinant_hyNode(1)) - 10.) < 1e-9);
  CHECK(std::abs(std::abs(m.functional_determinant_hyNode(2)) - 6.) < 1e-9);
  return demo_bad;
}
'''
