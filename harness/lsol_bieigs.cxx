// Specification units: local solver for eigenvalue problems of the bilaplacian.
//@headers local_solver/bilaplacian_eigs_ldgh.hxx
//@incdir stubs
#include "lsol.hxx"
#include "lsol_ref2.hxx"
#include <HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx>
template <uint D, uint p, uint q> using Sol = LocalSolver::BilaplacianEigs<D, p, q, Par, double>;
#define COMMON                                                         \
  vp_lapack_ok();                                                      \
  typedef Ref2<D, p, q, S> R;                                          \
  const double tau = vp_in_d("tau", 0), eig = vp_in_d("eig", 0);       \
  const Sol<D, p, q> s(tau);                                           \
  Edge<D, S> e;                                                        \
  const auto lam = R::lam("lambda");                                   \
  auto out = R::lam("rubbish");
//@unit P25 bieigs_flux<{d},{p},{q},{s}> d=1,2 p=0,1 q=1,2 s=1,2 if=(d<=s)and(q>=2*p)and(d+p<3)
template <uint D, uint p, uint q, uint S> void bieigs_flux()
{
  COMMON
  s.trace_to_flux(lam, out, e, eig);
  R::sameL("flux", out, R::flux(e, tau, R::from_lambda(e.geometry, tau, lam) / R::matrix(e.geometry, tau, eig, -eig), lam));
  R::sameL("traces unchanged", lam, R::lam("lambda"));
  unchanged(e);
}
//@unit P25 bieigs_jacobian<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2 if=(d<=s)and(d+p<3)
template <uint D, uint p, uint q, uint S> void bieigs_jacobian()
{
  COMMON
  const double deig = vp_in_d("delta eig", 0);
  const auto dlam = R::lam("delta lambda");
  s.jacobian_of_trace_to_flux(dlam, out, deig, lam, eig, e);
  const auto m = R::matrix(e.geometry, tau, eig, -eig);
  typename R::V r = R::from_coeffs(e.geometry, R::from_lambda(e.geometry, tau, lam) / m);
  for (uint i = 0; i < R::N; ++i)
    r[i] *= deig;
  R::sameL("derivative", out, R::flux(e, tau, (R::from_lambda(e.geometry, tau, dlam) + r) / m, dlam));
  R::sameL("traces unchanged", lam, R::lam("lambda"));
  R::sameL("direction unchanged", dlam, R::lam("delta lambda"));
  unchanged(e);
}
//@unit P29 bieigs_values<{d},{p},{q},{s}> mode=ndebug d=1,2 p=0,1 q=2 s=1,2 if=(d<=s)and(d+p<3)
template <uint D, uint p, uint q, uint S> void bieigs_values()
{
  COMMON
  const typename R::V x = R::from_lambda(e.geometry, tau, lam) / R::matrix(e.geometry, tau, eig, -eig);
  vp_eq_d("error", 0, s.errors(lam, e, eig)[0], R::error(e.geometry, x, eig));
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  R::template bulk<2>("bulk value", s.bulk_values(ab, lam, e, eig), ab, x);
  unchanged(e);
}
//@unit P29 bieigs_initial<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2 if=(d<=s)
template <uint D, uint p, uint q, uint S> void bieigs_initial()
{
  COMMON
  s.make_initial(out, e, eig);
  R::initial(e, out, eig);
  unchanged(e);
}
//@unit P24 bieigs_fail<{d},{p},{q},{s}> mode=ndebug d=1,2 p=0,1 q=2 s=2 if=(d+p<3)
template <uint D, uint p, uint q, uint S> void bieigs_fail()
{
  COMMON
  vp_lapack_fail();
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  MUST_THROW(s.trace_to_flux(lam, out, e, eig))
  MUST_THROW(s.jacobian_of_trace_to_flux(lam, out, eig, lam, eig, e))
  MUST_THROW(s.errors(lam, e, eig))
  MUST_THROW(s.bulk_values(ab, lam, e, eig))
}
//@unit P24 bieigs_basics<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2,3 if=d<=s
template <uint D, uint p, uint q, uint S> void bieigs_basics()
{
  COMMON
  accumulate<Sol<D, p, q> >();
  types(s, e);
}
