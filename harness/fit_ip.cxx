// Specification units: the local solver of diffusion_ip.hxx in its global loops.
//@headers local_solver/diffusion_ip.hxx
//@incdir stubs
#include "fit.hxx"

#include <HyperHDG/local_solver/diffusion_ip.hxx>
template <uint D, uint p> using LS = LocalSolver::DiffusionIP<D, p, 2 * p, Par, double>;
//@unit P34 ell_flux<LS<1,1>,{s},2> s=1,2 mode=ndebug
//@unit P34 ell_residual<LS<1,1>,{s},2> s=1,2 mode=ndebug
//@unit P34 ell_errors<LS<1,1>,{s},2> s=1,2 mode=ndebug
//@unit P34 ell_matrix<LS<1,1>,{s},2> s=1,2 mode=ndebug
//@unit P34 ell_flux<LS<2,0>,2,1> mode=ndebug
//@unit P34 ell_residual<LS<2,0>,2,1> mode=ndebug
//@unit P34 ell_errors<LS<2,0>,2,1> mode=ndebug
//@unit P34 ell_plot<LS<1,1>,{s},2> s=1,2 mode=ndebug
//@unit P34 ell_plot<LS<2,0>,2,1> mode=ndebug
//@unit P34 ell_flux<LS<1,2>,1,2> mode=ndebug tier=thorough
//@unit P34 ell_flux<LS<3,0>,3,1> mode=ndebug tier=thorough
