// Specification units: the local solver of advection_parab_ldgh.hxx in its global loops.
//@headers local_solver/advection_parab_ldgh.hxx
//@incdir stubs
#include "fit.hxx"

#include <HyperHDG/local_solver/advection_parab_ldgh.hxx>
template <uint D, uint p> using LS = LocalSolver::AdvectionParab<D, p, 2 * p, Par, double>;
//@unit P34 par_flux<LS<1,1>,{s},2> s=1,2 mode=ndebug
//@unit P34 par_steps<LS<1,1>,1,1> mode=ndebug
//@unit P34 par_steps<LS<1,0>,2,1> mode=ndebug
//@unit P34 par_errors<LS<1,1>,{s},2> s=1,2 mode=ndebug
//@unit P34 par_flux<LS<2,0>,2,1> mode=ndebug
//@unit P34 par_steps<LS<2,0>,2,1> mode=ndebug
//@unit P34 par_errors<LS<2,0>,2,1> mode=ndebug
//@unit P34 par_plot<LS<1,1>,{s},2> s=1,2 mode=ndebug
//@unit P34 par_plot<LS<2,0>,2,1> mode=ndebug
