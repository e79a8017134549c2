// Specification units: the local solver of bilaplacian_eigs_ldgh.hxx in its global loops.
//@headers local_solver/bilaplacian_eigs_ldgh.hxx
//@incdir stubs
#include "fit.hxx"

#include <HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx>
template <uint D, uint p> using LS = LocalSolver::BilaplacianEigs<D, p, 2 * p, Par, double>;
//@unit P34 shift_flux<LS<1,1>,{s},2> s=1,2 mode=ndebug
//@unit P34 nl_flux<LS<1,1>,{s},2> s=1,2 mode=ndebug
//@unit P34 nl_jac<LS<1,1>,{s},2> s=1,2 mode=ndebug
//@unit P34 nl_initial<LS<1,1>,{s},1> s=1,2 mode=ndebug
//@unit P34 shift_flux<LS<2,0>,2,1> mode=ndebug
//@unit P34 nl_flux<LS<2,0>,2,1> mode=ndebug
//@unit P34 nl_jac<LS<2,0>,2,1> mode=ndebug
//@unit P34 nl_initial<LS<2,0>,2,1> mode=ndebug
//@unit P34 nl_plot<LS<1,1>,{s},2> s=1,2 mode=ndebug
//@unit P34 nl_plot<LS<2,0>,2,1> mode=ndebug
//@unit P34 shift_plot<LS<1,1>,{s},2> s=1,2 mode=ndebug
//@unit P34 shift_flux<LS<1,2>,1,2> mode=ndebug tier=thorough
//@unit P34 shift_flux<LS<3,0>,3,1> mode=ndebug tier=thorough
