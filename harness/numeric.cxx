// Specification units: affine mappings and the conjugate gradient solver.
//@headers mapping/linear.hxx sparse_la.hxx
#include <HyperHDG/hy_assert.hxx>
#include <exception>
#include <cmath>
#include <vector>
#include <HyperHDG/mapping/linear.hxx>
#include <HyperHDG/sparse_la.hxx>
#include "vp.hxx"
using uint = unsigned int;

template <uint r, uint c, class T> SmallMat<r, c, T> M(const char* tag)
{
  std::array<T, r * c> a;
  for (uint i = 0; i < r * c; ++i)
    a[i] = vp_in<T>::get(tag, i);
  return SmallMat<r, c, T>(a);
}
template <uint r, uint c, class T> T at(const SmallMat<r, c, T>& m, uint i, uint j) { return m.data()[j * r + i]; }

// ------------------------------------------------------------------------------------------------
// affine mapping
// ------------------------------------------------------------------------------------------------
//@unit P17 map_forward<{d},{s},{k},{T}> d=1,2,3 s=1,2,3,4 k=1,2,3,4 T=double,float if=d<=s
template <uint d, uint s, uint k, class T> void map_forward()
{
  vp_true("dims", Mapping::Linear<d, s, T>::hyEdge_dim() == d && Mapping::Linear<d, s, T>::space_dim() == s);
  const SmallVec<s, T> t = M<s, 1, T>("t");
  const SmallMat<s, d, T> A = M<s, d, T>("A");
  bool thrown = false;
  try
  {
    Mapping::Linear<d, s, T> map0(t, A);
    const Mapping::Linear<d, s, T> map(map0);
    Mapping::Linear<d, s, T> map2;
    map2 = map;
    const SmallMat<d, k, T> p = M<d, k, T>("p");
    const auto x = map.map_reference_to_physical(p);
    const auto x2 = map2.map_reference_to_physical(p);
    for (uint i = 0; i < s; ++i)
      for (uint j = 0; j < k; ++j)
      {
        T w = vp_in<T>::get("t", i);
        for (uint l = 0; l < d; ++l)
          w += vp_in<T>::get("A", l * s + i) * vp_in<T>::get("p", j * d + l);
        vp_eq_d("A p + t", j * s + i, at(x, i, j), w);
        vp_eq_d("A p + t (assigned mapping)", j * s + i, at(x2, i, j), w);
      }
    for (uint i = 0; i < d * k; ++i)
      vp_eq_d("points unchanged", i, p.data()[i], vp_in<T>::get("p", i));
    for (uint i = 0; i < s; ++i)
    {
      vp_eq_d("translation", i, map.translation()[i], vp_in<T>::get("t", i));
      for (uint j = 0; j < d; ++j)
      {
        vp_eq_d("matrix", j * s + i, at(map.matrix(), i, j), vp_in<T>::get("A", j * s + i));
        vp_eq_d("matrix column", j * s + i, map.matrix_column(j)[i], vp_in<T>::get("A", j * s + i));
      }
    }
  }
  catch (const Wrapper::LAPACKexception&)
  {
    thrown = true;
  }
}
//@unit P17 map_back<{s},{k},{T}> s=1,2,3 k=1,2,3 T=double,float
template <uint s, uint k, class T> void map_back()
{
  SmallVec<s, T> t = M<s, 1, T>("t");
  SmallMat<s, s, T> A = M<s, s, T>("A");
  SmallMat<s, k, T> x = M<s, k, T>("x"), rhs(x);
  for (uint i = 0; i < s; ++i)
    for (uint j = 0; j < k; ++j)
      rhs(i, j) -= t[i];
  bool thrown = false, want_throw = false;
  std::array<T, s * s> a = A.data();
  std::array<T, s * k> b = rhs.data(), want;
  bool built = false;
  SmallMat<s, k, T> p;
  try
  {
    Mapping::Linear<s, s, T> map(t, A);
    built = true;
    p = map.map_physical_to_reference(x);
  }
  catch (const Wrapper::LAPACKexception&)
  {
    thrown = true;
  }
  if (built)
  {
    try
    {
      want = Wrapper::lapack_solve<s, k, T>(a, b);
    }
    catch (const Wrapper::LAPACKexception&)
    {
      want_throw = true;
    }
    vp_true("failure is reported", thrown == want_throw);
    if (!want_throw)
      for (uint i = 0; i < s * k; ++i)
        vp_eq_d("solution of A p = x - t", i, p.data()[i], want[i]);
  }
}
//@unit P17 map_measure<{d},{s},{T}> d=1,2,3 s=1,2,3,4 T=double,float if=(d<=s)and(s<=3)or(d==1)
template <uint d, uint s, class T> void map_measure()
{
  const SmallVec<s, T> t = M<s, 1, T>("t");
  const SmallMat<s, d, T> A = M<s, d, T>("A");
  try
  {
    const Mapping::Linear<d, s, T> map(t, A);
    SmallMat<s, s, T> Q;
    SmallMat<d, d, T> R;
    qr_decomp(A, Q, R);
    T w = 1.;
    for (uint i = 0; i < d; ++i)
      w *= at(R, i, i);
    vp_eq_d("functional determinant", 0, map.functional_determinant_hyEdge(), w);
    for (uint i = 0; i < s; ++i)
      for (uint j = 0; j < s; ++j)
      {
        vp_eq_d("Q", j * s + i, at(map.mat_q(), i, j), at(Q, i, j));
        if (j < d)
          vp_eq_d("first directions", j * s + i, map.inner_normal(j)[i], at(Q, i, j));
        else
          vp_eq_d("normal directions", j * s + i, map.outer_normal(j - d)[i], at(Q, i, j));
      }
    for (uint i = 0; i < d; ++i)
      for (uint j = 0; j < d; ++j)
        vp_eq_d("R", j * d + i, at(map.mat_r(), i, j), at(R, i, j));
  }
  catch (const Wrapper::LAPACKexception&)
  {
  }
}
//@unit P17 map_face<{d},{s},{x},{T}> d=1,2,3 s=1,2,3 x=0,1,2 T=double,float if=(d<=s)and(x<d)
template <uint d, uint s, uint x, class T> void map_face()
{
  const SmallVec<s, T> t = M<s, 1, T>("t");
  const SmallMat<s, d, T> A = M<s, d, T>("A");
  bool built = false, thrown = false, want_throw = false;
  T got = 0, want = 1;
  try
  {
    const Mapping::Linear<d, s, T> map(t, A);
    built = true;
    got = map.functional_determinant_hyNode(x);
  }
  catch (const Wrapper::LAPACKexception&)
  {
    thrown = true;
  }
  if (built)
  {
    if constexpr (d > 1)
    {
      SmallMat<s, d - 1, T> F;
      uint c = 0;
      for (uint j = 0; j < d; ++j)
        if (j != x)
        {
          for (uint i = 0; i < s; ++i)
            F(i, c) = vp_in<T>::get("A", j * s + i);
          ++c;
        }
      try
      {
        want = determinant(F);
      }
      catch (const Wrapper::LAPACKexception&)
      {
        want_throw = true;
      }
    }
    vp_true("failure is reported", thrown == want_throw);
    if (!want_throw)
      vp_eq_d("measure of the face spanned by the other columns", x, got, want);
  }
}
//@unit P17 map_normal<{d},{x},{T}> d=1,2,3 x=0,1,2 T=double,float if=x<d mode=ndebug
template <uint d, uint x, class T> void map_normal()
{
  const SmallVec<d, T> t = M<d, 1, T>("t");
  const SmallMat<d, d, T> A = M<d, d, T>("A");
  bool built = false, thrown = false, want_throw = false;
  SmallVec<d, T> n;
  SmallMat<d, d, T> R;
  try
  {
    const Mapping::Linear<d, d, T> map(t, A);
    built = true;
    R = map.mat_r();
    n = map.local_normal(x);
  }
  catch (const Wrapper::LAPACKexception&)
  {
    thrown = true;
  }
  if (built)
  {
    if constexpr (d == 1)
    {
      vp_eq_d("unit length", 0, n[0] * n[0], 1.);
      vp_true("points outwards", !(n[0] * at(R, 0, 0) > 0));
    }
    else
    {
      SmallMat<d, d - 1, T> F;
      SmallMat<d, d, T> Q;
      uint c = 0;
      for (uint j = 0; j < d; ++j)
        if (j != x)
        {
          for (uint i = 0; i < d; ++i)
            F(i, c) = at(R, i, j);
          ++c;
        }
      try
      {
        Q = qr_decomp_q(F);
      }
      catch (const Wrapper::LAPACKexception&)
      {
        want_throw = true;
      }
      vp_true("failure is reported", thrown == want_throw);
      if (!want_throw)
      {
        T s = 0, len = 0;
        for (uint i = 0; i < d; ++i)
        {
          s += at(Q, i, d - 1) * at(R, i, x);
          len += n[i] * n[i];
        }
        vp_eq_d("unit length", 0, len, 1.);
        for (uint i = 0; i < d; ++i)
          vp_eq_d("outward normal of the face", i, n[i], s > 0 ? -at(Q, i, d - 1) : at(Q, i, d - 1));
      }
    }
  }
}
//@unit P17 map_normal_range<{d},{s}> d=1,2 s=1,2,3 if=d<=s
template <uint d, uint s> void map_normal_range()
{
  const uint x = vp_in_u("index", 0), which = vp_in_u("which", 0);
  Mapping::Linear<d, s, double> map;
  VP_ABORT_IFF(which == 0 ? x >= d : x >= s - d);
  const auto n = which == 0 ? map.inner_normal(x) : map.outer_normal(x);
  for (uint i = 0; i < s; ++i)
    vp_eq_d("zero mapping", i, n[i], 0.);
}

// ------------------------------------------------------------------------------------------------
// conjugate gradients
// ------------------------------------------------------------------------------------------------
template <uint n, class T> struct Vec
{
  typedef T value_type;
  typedef uint size_type;
  typedef T* iterator;
  typedef const T* const_iterator;
  std::array<T, n> a;
  Vec() { a.fill(0.); }
  T* begin() { return a.data(); }
  T* end() { return a.data() + n; }
  const T* begin() const { return a.data(); }
  const T* end() const { return a.data() + n; }
  const T* cbegin() const { return a.data(); }
  const T* cend() const { return a.data() + n; }
  T* data() { return a.data(); }
  const T* data() const { return a.data(); }
  bool empty() const { return n == 0; }
  void resize(uint k) { vp_true("vectors have the global size", k == n); }
  void swap(Vec& o) { a.swap(o.a); }
  T& at(uint i) { return a.at(i); }
  const T& at(uint i) const { return a.at(i); }
  Vec(uint k, T v = 0.)
  {
    vp_true("vectors have the global size", k == n);
    a.fill(v);
  }
  uint size() const { return n; }
  T& operator[](uint i) { return a[i]; }
  const T& operator[](uint i) const { return a[i]; }
};
template <uint n, class T, int opaque> struct Prob
{
  uint calls = 0;
  Vec<n, T> trace_to_flux(const Vec<n, T>& v)
  {
    ++calls;
    Vec<n, T> r;
    if constexpr (opaque == 1)
      for (uint i = 0; i < n; ++i)
      {
        if constexpr (n == 1)
          r[i] = T(vp_fn_d("op", 2, i, v[0]));
        else if constexpr (n == 2)
          r[i] = T(vp_fn_d("op", 3, i, v[0], v[1]));
        else
          r[i] = T(vp_fn_d("op", 4, i, v[0], v[1], v[2]));
      }
    else
    for (uint i = 0; i < n; ++i)
      for (uint j = 0; j < n; ++j)
        if constexpr (opaque == 2)
          r[i] += T(i == j ? 4 + i : (i + 1 == j || j + 1 == i) ? 1 : 0) * v[j];
        else
          r[i] += vp_in<T>::get("A", (i < j ? j : i) * n + (i < j ? i : j)) * v[j];
    return r;
  }
};
//@unit P20 vec_ops<{n},{T}> n=@0,1,2,3,4,7,12<=130 T=double,float
template <uint n, class T> void vec_ops()
{
  std::vector<T> a(n), b(n), c(n, vp_in<T>::get("stale", 0));
  T f = vp_in<T>::get("f", 0), g = vp_in<T>::get("g", 0), w = 0, q = 0;
  for (uint i = 0; i < n; ++i)
  {
    a[i] = vp_in<T>::get("a", i);
    b[i] = vp_in<T>::get("b", i);
    w += vp_in<T>::get("a", i) * vp_in<T>::get("b", i);
    q += vp_in<T>::get("a", i) * vp_in<T>::get("a", i);
  }
  vp_eq_d("inner product", 0, SparseLA::inner_product(a, b), w);
  vp_eq_d("squared norm", 0, SparseLA::inner_product(a, a), q);
  vp_eq_d("norm", 0, SparseLA::norm_2(a), std::sqrt(q));
  const std::vector<T> r = SparseLA::linear_combination(f, a, g, b);
  SparseLA::linear_combination(f, a, g, b, c);
  vp_true("size", r.size() == n && c.size() == n);
  for (uint i = 0; i < n; ++i)
  {
    T e = f * vp_in<T>::get("a", i) + g * vp_in<T>::get("b", i);
    vp_eq_d("combination", i, r[i], e);
    vp_eq_d("combination in place", i, c[i], e);
    vp_eq_d("left unchanged", i, a[i], vp_in<T>::get("a", i));
    vp_eq_d("right unchanged", i, b[i], vp_in<T>::get("b", i));
  }
  std::vector<T> l(a), m(b);
  SparseLA::linear_combination(f, l, g, b, l);
  SparseLA::linear_combination(f, a, g, m, m);
  for (uint i = 0; i < n; ++i)
  {
    T e = f * vp_in<T>::get("a", i) + g * vp_in<T>::get("b", i);
    vp_eq_d("target is the left operand", i, l[i], e);
    vp_eq_d("target is the right operand", i, m[i], e);
  }
}
//@unit P20 vec_size<{n},{m}> n=0,1,2 m=0,1,2 mode=debug if=n!=m
template <uint n, uint m> void vec_size()
{
  std::vector<double> a(n), b(m), c(n);
  uint which = vp_in_u("which", 0);
  VP_ABORT_IFF(true);
  if (which == 0)
    SparseLA::inner_product(a, b);
  else if (which == 1)
    SparseLA::linear_combination(1., a, 1., b);
  else if (which == 2)
    SparseLA::linear_combination(1., a, 1., b, c);
  else
    SparseLA::linear_combination(1., a, 1., c, b);
}
//@unit P20 cg<1,0,{T},true,0> T=double,float
//@unit P20 cg<{n},{k},{T},false,0> n=1,2,3 k=0,1,2,3 T=double,float if=(n==1)or(k==1)
//@unit P20 cg<{n},{k},{T},false,1> n=1,2,3 k=0,1,2,3 T=double,float if=(n==1)or(k==1)
//@unit P20 cg<{n},{k},{T},false,2> n=2,3,5 k=0,1,2,3 T=double,float
//@unit P20 cg<{n},0,{T},true,2> n=2,3,5 T=double,float
//@unit P20 cg<{n},{k},double,false,2> n=7,9 k=0,5,7,8
//@unit P20 cg<{n},0,double,false,2> n=@12<=16
template <uint n, uint k, class T, bool dflt, int opaque> void cg()
{
  Vec<n, T> b;
  for (uint i = 0; i < n; ++i)
    b[i] = opaque == 2 ? T(1 + 2 * (i % 3)) : vp_in<T>::get("b", i);
  const Vec<n, T> b0(b);
  const T tol = dflt ? T(1e-9) : vp_in<T>::get("tol", 0);
  Prob<n, T, opaque> pr, own;
  bool thrown = false;
  Vec<n, T> x;
  try
  {
    x = dflt ? SparseLA::conjugate_gradient(b0, pr) : SparseLA::conjugate_gradient(b0, pr, k, tol);
  }
  catch (const SparseLA::SolveException&)
  {
    thrown = true;
  }
  // textbook conjugate gradients
  Vec<n, T> xs, r(b), d(b);
  T rr = 0;
  for (uint i = 0; i < n; ++i)
    rr += r[i] * r[i];
  bool done = rr < tol * tol;
  for (uint it = 0; it < (k == 0 ? n : k) && !done; ++it)
  {
    Vec<n, T> z = own.trace_to_flux(d);
    T dz = 0, rn = 0;
    for (uint i = 0; i < n; ++i)
      dz += d[i] * z[i];
    for (uint i = 0; i < n; ++i)
    {
      xs[i] += rr / dz * d[i];
      r[i] -= rr / dz * z[i];
      rn += r[i] * r[i];
    }
    for (uint i = 0; i < n; ++i)
      d[i] = r[i] + rn / rr * d[i];
    rr = rn;
    done = rr < tol * tol;
  }
  vp_true("an exception is thrown iff the tolerance is not met", thrown == !done);
  vp_true("never more operator applications than allowed", pr.calls <= (k == 0 ? n : k));
  for (uint i = 0; i < n; ++i)
    vp_eq_d("solution", i, thrown ? T(0) : x[i], done ? xs[i] : T(0));
  for (uint i = 0; i < n; ++i)
    vp_eq_d("right-hand side unchanged", i, b0[i], b[i]);
}
