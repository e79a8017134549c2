// Specification units: local solver for eigenvalue problems of the diffusion operator.
//@headers local_solver/diffusion_eigs_ldgh.hxx
//@incdir stubs
#include "lsol.hxx"
#include "lsol_ref.hxx"
#include <HyperHDG/local_solver/diffusion_eigs_ldgh.hxx>
template <uint D, uint p, uint q> using Sol = LocalSolver::DiffusionEigs<D, p, q, Par, double>;
#define COMMON                                                         \
  vp_lapack_ok();                                                      \
  typedef Ref<D, p, q, S> R;                                           \
  const double tau = vp_in_d("tau", 0), eig = vp_in_d("eig", 0);       \
  const Sol<D, p, q> s(tau);                                           \
  Edge<D, S> e;                                                        \
  const auto lam = lam_in<D, R::nb>("lambda");                         \
  auto out = lam_in<D, R::nb>("rubbish");

//@unit P25 eigs_flux<{d},{p},{q},{s}> d=1,2 p=0,1,2 q=1,2,3,4 s=1,2,3 if=(d<=s)and(q>=2*p)and((d==1)or(p<2))and((d==1)or(q<3))and((s<3)or(q==2))and((s<3)or(d<2)or(p<1))
//@unit P25 eigs_flux<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
//@unit P25 eigs_flux<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
//@unit P25 eigs_flux<{d},{p},{q},{s}> tier=thorough d=2 p=2 q=4 s=2
template <uint D, uint p, uint q, uint S> void eigs_flux()
{
  COMMON
  s.trace_to_flux(lam, out, e, eig);
  const typename R::V x = R::from_lambda(e.geometry, tau, lam) / R::matrix(e.geometry, tau, eig, -eig);
  same<D, R::nb>("flux", out, R::flux(e, tau, x, lam));
  same<D, R::nb>("traces unchanged", lam, lam_in<D, R::nb>("lambda"));
  unchanged(e);
}
// derivative of trace_to_flux at (lam, eig) in direction (dlam, deig), for a diffusion coefficient that does not depend on eig
//@unit P25 eigs_jacobian<{d},{p},{q},{s}> d=1,2 p=1,2 q=2,4 s=1,2,3 if=(d<=s)and(q==2*p)and((d==1)or(p<2))and((s<3)or(q==2))and((s<3)or(d<2)or(p<1))
//@unit P25 eigs_jacobian<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
//@unit P25 eigs_jacobian<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
template <uint D, uint p, uint q, uint S> void eigs_jacobian()
{
  COMMON
  const double deig = vp_in_d("delta eig", 0);
  const auto dlam = lam_in<D, R::nb>("delta lambda");
  s.jacobian_of_trace_to_flux(dlam, out, deig, lam, eig, e);
  const auto m = R::matrix(e.geometry, tau, eig, -eig);
  const typename R::V x = R::from_lambda(e.geometry, tau, lam) / m;
  typename R::V r = R::from_coeffs(e.geometry, x);
  for (uint i = 0; i < R::N; ++i)
    r[i] *= deig;
  const typename R::V dx = (R::from_lambda(e.geometry, tau, dlam) + r) / m;
  same<D, R::nb>("derivative", out, R::flux(e, tau, dx, dlam));
  same<D, R::nb>("traces unchanged", lam, lam_in<D, R::nb>("lambda"));
  same<D, R::nb>("direction unchanged", dlam, lam_in<D, R::nb>("delta lambda"));
  unchanged(e);
}
//@unit P29 eigs_values<{d},{p},{q},{s}> d=1,2 p=1,2 q=2,4 s=1,2,3 if=(d<=s)and(q==2*p)and((d==1)or(p<2))and((s<3)or(d==2))and((s<3)or(d<2)or(p<1))
//@unit P29 eigs_values<{d},{p},{q},{s}> tier=thorough d=2 p=1 q=2 s=3
//@unit P29 eigs_values<{d},{p},{q},{s}> tier=thorough d=3 p=0 q=2 s=3
template <uint D, uint p, uint q, uint S> void eigs_values()
{
  COMMON
  const typename R::V x = R::from_lambda(e.geometry, tau, lam) / R::matrix(e.geometry, tau, eig, -eig);
  vp_eq_d("error", 0, s.errors(lam, e, eig)[0], R::error(e.geometry, x, eig));
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  R::template bulk<2>("bulk value", s.bulk_values(ab, lam, e, eig), ab, x);
  s.make_initial(out, e, eig);
  same<D, R::nb>("initial value", out, R::initial(e, eig));
  unchanged(e);
}
//@unit P24 eigs_fail<{d},{p},{q},{s}> mode=ndebug d=1,2 p=0,1 q=2 s=2 if=(d+p<3)
template <uint D, uint p, uint q, uint S> void eigs_fail()
{
  COMMON
  vp_lapack_fail();
  const std::array<double, 2> ab{vp_in_d("abscissa", 0), vp_in_d("abscissa", 1)};
  MUST_THROW(s.trace_to_flux(lam, out, e, eig))
  MUST_THROW(s.jacobian_of_trace_to_flux(lam, out, eig, lam, eig, e))
  MUST_THROW(s.errors(lam, e, eig))
  MUST_THROW(s.bulk_values(ab, lam, e, eig))
}
//@unit P24 eigs_basics<{d},{p},{q},{s}> d=1,2 p=0,1 q=2 s=1,2,3 if=d<=s
template <uint D, uint p, uint q, uint S> void eigs_basics()
{
  COMMON
  accumulate<Sol<D, p, q> >();
  types(s, e);
}
