// Specification units: the local solver of timoshenko_network.hxx in its global loops.
//@headers local_solver/timoshenko_network.hxx
//@incdir stubs
#include "fit.hxx"
#include <iostream>
#include <HyperHDG/local_solver/timoshenko_network.hxx>
template <uint D, uint p> using LS = LocalSolver::TimoshenkoBeam<D, 3, p, 2 * p, Par, double>;
//@unit P34 ell_flux<LS<1,1>,3,2> mode=ndebug
//@unit P34 ell_residual<LS<1,1>,3,2> mode=ndebug
//@unit P34 ell_errors<LS<1,1>,3,2> mode=ndebug
//@unit P34 ell_matrix<LS<1,0>,3,1> mode=ndebug
//@unit P34 ell_plot<LS<1,1>,3,2> mode=ndebug
