// Specification units for dense_la.hxx and wrapper/lapack.hxx.
//@headers dense_la.hxx wrapper/lapack.hxx
#include <HyperHDG/dense_la.hxx>
#include "vp.hxx"
#include <exception>
#include <sstream>
using uint = unsigned int;

template <uint r, uint c, class T> SmallMat<r, c, T> M(const char* tag)
{
  std::array<T, r * c> a;
  for (uint i = 0; i < r * c; ++i)
    a[i] = vp_in<T>::get(tag, i);
  return SmallMat<r, c, T>(a);
}
// reference: entry (i,j) of the input matrix with tag, column-major
template <uint r, class T> T E(const char* tag, uint i, uint j) { return vp_in<T>::get(tag, j * r + i); }
template <uint r, uint c, class T> void unchanged(const SmallMat<r, c, T>& m, const char* tag, const char* name)
{
  for (uint i = 0; i < r * c; ++i)
    vp_eq_d(name, i, m.data()[i], vp_in<T>::get(tag, i));
}
template <uint r, uint c, class T> T at(const SmallMat<r, c, T>& m, uint i, uint j) { return m.data()[j * r + i]; }
template <uint r, uint c, class T> const SmallMat<r, c, T>& cst(const SmallMat<r, c, T>& m) { return m; }

//@unit P01 construct<{r},{c},{T}> r=@1,2,3,4<=33 c=@1,2,3<=33 T=double,float if=(r*c<=24)or(max(r,c)>8)&(min(r,c)<=2)
template <uint r, uint c, class T> void construct()
{
  typedef SmallMat<r, c, T> Mt;
  vp_true("rows", Mt::n_rows() == r && Mt::n_cols() == c && Mt::size() == r * c);
  vp_true("dims", Mt::dimensions()[0] == r && Mt::dimensions()[1] == c);
  Mt z;
  T x = vp_in<T>::get("x", 0);
  Mt v(x);
  std::array<T, r * c> a;
  for (uint i = 0; i < r * c; ++i)
    a[i] = vp_in<T>::get("a", i);
  Mt fa(a);
  std::array<T, r * c> a2(a);
  Mt fm(std::move(a2));
  std::vector<T> vec(a.begin(), a.end());
  Mt fv(vec);
  Mt cp(fa), as, self(fa);
  as = fa;
  self = cst(self);
  Mt tmp(fa);
  Mt mv(std::move(tmp));
  Mt tmp2(fa), ma;
  ma = std::move(tmp2);
  for (uint i = 0; i < r * c; ++i)
  {
    T e = vp_in<T>::get("a", i);
    vp_eq_d("zero", i, z.data()[i], 0.);
    vp_eq_d("value", i, v.data()[i], x);
    vp_eq_d("from array", i, fa.data()[i], e);
    vp_eq_d("from array&&", i, fm.data()[i], e);
    vp_eq_d("from vector", i, fv.data()[i], e);
    vp_eq_d("copy", i, cp.data()[i], e);
    vp_eq_d("assign", i, as.data()[i], e);
    vp_eq_d("self assign", i, self.data()[i], e);
    vp_eq_d("move", i, mv.data()[i], e);
    vp_eq_d("move assign", i, ma.data()[i], e);
  }
  uint k = 0;
  for (auto it = fa.begin(); it != fa.end(); ++it, ++k)
    vp_eq_d("iterate", k, *it, a[k]);
  vp_true("iterated all", k == r * c);
  SmallMat<r, c, double> d(fa);
  SmallMat<r, c, float> f(fa);
  for (uint i = 0; i < r * c; ++i)
  {
    vp_eq_d("to double", i, d.data()[i], a[i]);
    vp_eq_d("to float", i, f.data()[i], (float)a[i]);
  }
}
//@unit P01 construct_uint<{r},{c}> r=1,2,3 c=1,2,3
template <uint r, uint c> void construct_uint()
{
  SmallMat<r, c, uint> m, v(vp_in_u("x", 0));
  std::array<uint, r * c> a;
  for (uint i = 0; i < r * c; ++i)
    a[i] = vp_in_u("a", i);
  SmallMat<r, c, uint> fa(a);
  SmallMat<r, c, double> d(fa);
  for (uint i = 0; i < r * c; ++i)
  {
    vp_eq_u("zero", i, m[i], 0);
    vp_eq_u("value", i, v[i], vp_in_u("x", 0));
    vp_eq_u("array", i, fa[i], a[i]);
    vp_eq_d("to double", i, d[i], (double)a[i]);
  }
}

//@unit P01,P02 access<{r},{c},{T}> r=@1,2,3,4<=33 c=@1,2,3<=33 T=double,float if=(r*c<=24)or(max(r,c)>8)&(min(r,c)<=2)
template <uint r, uint c, class T> void access()
{
  SmallMat<r, c, T> m = M<r, c, T>("m");
  for (uint j = 0; j < c; ++j)
    for (uint i = 0; i < r; ++i)
    {
      T e = E<r, T>("m", i, j);
      vp_eq_d("m(i,j)", j * r + i, m(i, j), e);
      vp_eq_d("const m(i,j)", j * r + i, cst(m)(i, j), e);
      vp_eq_d("m[k]", j * r + i, m[j * r + i], e);
      vp_eq_d("const m[k]", j * r + i, cst(m)[j * r + i], e);
      vp_eq_p("address", &m(i, j), &m.data()[j * r + i]);
      vp_eq_p("address []", &m[j * r + i], &m.data()[j * r + i]);
    }
  unchanged(m, "m", "reads do not write");
  for (uint j = 0; j < c; ++j)
  {
    SmallMat<r, 1, T> col = cst(m).get_column(j);
    for (uint i = 0; i < r; ++i)
      vp_eq_d("column", j * r + i, col.data()[i], E<r, T>("m", i, j));
  }
  for (uint j = 0; j < c; ++j)
  {
    SmallMat<r, c, T> s(m);
    SmallMat<r, 1, T> col = M<r, 1, T>("col");
    s.set_column(j, col);
    for (uint k = 0; k < c; ++k)
      for (uint i = 0; i < r; ++i)
        vp_eq_d("set column", (j * c + k) * r + i, at(s, i, k), k == j ? E<r, T>("col", i, 0) : E<r, T>("m", i, k));
  }
  for (uint j = 0; j < c; ++j)
    for (uint i = 0; i < r; ++i)
    {
      SmallMat<r, c, T> s(m);
      s(i, j) = vp_in<T>::get("x", 0);
      SmallMat<r, c, T> t(m);
      t[j * r + i] = vp_in<T>::get("x", 0);
      for (uint k = 0; k < r * c; ++k)
      {
        T w = k == j * r + i ? vp_in<T>::get("x", 0) : vp_in<T>::get("m", k);
        vp_eq_d("write m(i,j)", k, s.data()[k], w);
        vp_eq_d("write m[k]", k, t.data()[k], w);
      }
    }
}
//@unit P02 idx_call<{r},{c},{T}> r=@1,2,3<=8 c=@1,2,3<=8 T=double,float if=r*c<=24
template <uint r, uint c, class T> void idx_call()
{
  SmallMat<r, c, T> m = M<r, c, T>("m");
  uint i = vp_in_u("i", 0), j = vp_in_u("j", 0);
  VP_ABORT_IFF(i >= r || j >= c);
  T& e = m(i, j);
  vp_eq_p("entry address", &e, &m.data()[0] + (j * r + i));
}
//@unit P02 idx_call_c<{r},{c},{T}> r=@1,2,3<=8 c=@1,2,3<=8 T=double,float if=r*c<=24
template <uint r, uint c, class T> void idx_call_c()
{
  const SmallMat<r, c, T> m = M<r, c, T>("m");
  uint i = vp_in_u("i", 0), j = vp_in_u("j", 0);
  VP_ABORT_IFF(i >= r || j >= c);
  T e = m(i, j), w = 0;
  for (uint k = 0; k < r; ++k)
    for (uint l = 0; l < c; ++l)
      if (k == i && l == j)
        w = E<r, T>("m", k, l);
  vp_eq_d("entry", 0, e, w);
}
//@unit P02 idx_lin<{r},{c},{T}> r=@1,2,3<=8 c=@1,2,3<=8 T=double,float if=r*c<=24
template <uint r, uint c, class T> void idx_lin()
{
  SmallMat<r, c, T> m = M<r, c, T>("m");
  uint i = vp_in_u("i", 0);
  VP_ABORT_IFF(i >= r * c);
  T& e = m[i];
  vp_eq_p("entry address", &e, &m.data()[0] + i);
}
//@unit P02 idx_lin_c<{r},{c},{T}> r=@1,2,3<=8 c=@1,2,3<=8 T=double,float if=r*c<=24
template <uint r, uint c, class T> void idx_lin_c()
{
  const SmallMat<r, c, T> m = M<r, c, T>("m");
  uint i = vp_in_u("i", 0);
  VP_ABORT_IFF(i >= r * c);
  T e = m[i], w = 0;
  for (uint k = 0; k < r * c; ++k)
    if (k == i)
      w = vp_in<T>::get("m", k);
  vp_eq_d("entry", 0, e, w);
}
//@unit P02 idx_col<{r},{c},{T}> r=@1,2,3<=8 c=@1,2,3<=8 T=double,float if=r*c<=24
template <uint r, uint c, class T> void idx_col()
{
  const SmallMat<r, c, T> m = M<r, c, T>("m");
  uint j = vp_in_u("j", 0);
  VP_ABORT_IFF(j >= c);
  SmallMat<r, 1, T> col = m.get_column(j);
  for (uint i = 0; i < r; ++i)
  {
    T w = 0;
    for (uint l = 0; l < c; ++l)
      if (l == j)
        w = E<r, T>("m", i, l);
    vp_eq_d("column entry", i, col.data()[i], w);
  }
}
//@unit P02 idx_setcol<{r},{c},{T}> r=@1,2,3<=8 c=@1,2,3<=8 T=double,float if=r*c<=24
template <uint r, uint c, class T> void idx_setcol()
{
  SmallMat<r, c, T> m = M<r, c, T>("m");
  uint j = vp_in_u("j", 0);
  VP_ABORT_IFF(j >= c);
  m.set_column(j, M<r, 1, T>("col"));
  for (uint l = 0; l < c; ++l)
    for (uint i = 0; i < r; ++i)
      vp_eq_d("entry", l * r + i, at(m, i, l), l == j ? E<r, T>("col", i, 0) : E<r, T>("m", i, l));
}
//@unit P02 vec_size<{r},{c},{n}> r=1,2,3 c=1,2 n=0,1,2,3,4,5,6,7
template <uint r, uint c, uint n> void vec_size()
{
  std::vector<double> v;
  for (uint i = 0; i < n; ++i)
    v.push_back(vp_in_d("v", i));
  VP_ABORT_IFF(n != r * c);
  SmallMat<r, c, double> m(v);
  for (uint i = 0; i < r * c && i < n; ++i)
    vp_eq_d("entry", i, m.data()[i], vp_in_d("v", i));
}

//@unit P01 compare<{r},{c},{T}> r=@1,2,3,4<=6 c=@1,2<=6 T=double,float if=r*c<=4
template <uint r, uint c, class T> void compare()
{
  const SmallMat<r, c, T> a = M<r, c, T>("a"), b = M<r, c, T>("b");
  bool eq = true, lt = false, decided = false;
  for (uint i = 0; i < r * c; ++i)
  {
    T x = vp_in<T>::get("a", i), y = vp_in<T>::get("b", i);
    eq = eq & (x == y);
    lt = lt | ((!decided) & (x < y));
    decided = decided | (x != y);
  }
  vp_true("==", (a == b) == eq);
  vp_true("!=", (a != b) == !eq);
  vp_true("<", (a < b) == lt);
  vp_true("== reflexive", a == a);
  vp_true("< irreflexive", !(a < a));
  unchanged(a, "a", "left operand unchanged");
  unchanged(b, "b", "right operand unchanged");
}

//@unit P01 scal_ops<{r},{c},{T}> r=@1,2,3,4<=33 c=@1,2,3<=33 T=double,float if=(r*c<=24)or(max(r,c)>8)&(min(r,c)<=2)
template <uint r, uint c, class T> void scal_ops()
{
  const SmallMat<r, c, T> m = M<r, c, T>("m");
  const T s = vp_in<T>::get("s", 0);
  SmallMat<r, c, T> a(m), b(m), d(m), q(m);
  SmallMat<r, c, T>*pa = &(a += s), *pb = &(b -= s), *pd = &(d *= s);
  vp_eq_p("+= returns", pa, &a);
  vp_eq_p("-= returns", pb, &b);
  vp_eq_p("*= returns", pd, &d);
  SmallMat<r, c, T> a1 = s + m, a2 = m + s, b1 = s - m, b2 = m - s, d1 = s * m, d2 = m * s;
  for (uint i = 0; i < r * c; ++i)
  {
    T e = vp_in<T>::get("m", i);
    vp_eq_d("+=", i, a.data()[i], e + s);
    vp_eq_d("-=", i, b.data()[i], e - s);
    vp_eq_d("*=", i, d.data()[i], e * s);
    vp_eq_d("s+m", i, a1.data()[i], e + s);
    vp_eq_d("m+s", i, a2.data()[i], e + s);
    vp_eq_d("s-m", i, b1.data()[i], s - e);
    vp_eq_d("m-s", i, b2.data()[i], e - s);
    vp_eq_d("s*m", i, d1.data()[i], e * s);
    vp_eq_d("m*s", i, d2.data()[i], e * s);
  }
  unchanged(m, "m", "operand unchanged");
}
//@unit P01 mat_ops<{r},{c},{T}> r=@1,2,3,4<=33 c=@1,2,3<=33 T=double,float if=(r*c<=24)or(max(r,c)>8)&(min(r,c)<=2)
template <uint r, uint c, class T> void mat_ops()
{
  const SmallMat<r, c, T> m = M<r, c, T>("m"), n = M<r, c, T>("n");
  SmallMat<r, c, T> a(m), b(m), d(m);
  vp_eq_p("+= returns", &(a += n), &a);
  vp_eq_p("-= returns", &(b -= n), &b);
  vp_eq_p("*= returns", &(d *= n), &d);
  SmallMat<r, c, T> a1 = m + n, b1 = m - n, d1 = hada_prod(m, n);
  SmallMat<r, c, T> aa(m), ss(m), pp(m);
  aa += aa;
  ss -= ss;
  pp *= pp;
  T sp = 0;
  for (uint i = 0; i < r * c; ++i)
  {
    T e = vp_in<T>::get("m", i), f = vp_in<T>::get("n", i);
    vp_eq_d("+=", i, a.data()[i], e + f);
    vp_eq_d("-=", i, b.data()[i], e - f);
    vp_eq_d("*=", i, d.data()[i], e * f);
    vp_eq_d("m+n", i, a1.data()[i], e + f);
    vp_eq_d("m-n", i, b1.data()[i], e - f);
    vp_eq_d("hada_prod", i, d1.data()[i], e * f);
    vp_eq_d("m+=m", i, aa.data()[i], e + e);
    vp_eq_d("m-=m", i, ss.data()[i], 0);
    vp_eq_d("m*=m", i, pp.data()[i], e * e);
    sp += e * f;
  }
  vp_eq_d("scalar_product", 0, scalar_product(m, n), sp);
  unchanged(m, "m", "left unchanged");
  unchanged(n, "n", "right unchanged");
}
//@unit P01 broadcast<{r},{c},{T}> r=@1,2,3,4<=33 c=@2,3,4<=33 T=double,float if=(r*c<=24)or(max(r,c)>8)&(min(r,c)<=2)
template <uint r, uint c, class T> void broadcast()
{
  const SmallMat<r, c, T> m = M<r, c, T>("m");
  const SmallMat<r, 1, T> v = M<r, 1, T>("v");
  SmallMat<r, c, T> a(m), b(m);
  a += v;
  b -= v;
  SmallMat<r, c, T> a1 = m + v, a2 = v + m, b1 = m - v, b2 = v - m;
  for (uint j = 0; j < c; ++j)
    for (uint i = 0; i < r; ++i)
    {
      T e = E<r, T>("m", i, j), f = E<r, T>("v", i, 0);
      vp_eq_d("+=v", j * r + i, at(a, i, j), e + f);
      vp_eq_d("-=v", j * r + i, at(b, i, j), e - f);
      vp_eq_d("m+v", j * r + i, at(a1, i, j), e + f);
      vp_eq_d("v+m", j * r + i, at(a2, i, j), e + f);
      vp_eq_d("m-v", j * r + i, at(b1, i, j), e - f);
      vp_eq_d("v-m", j * r + i, at(b2, i, j), f - e);
    }
  unchanged(m, "m", "matrix unchanged");
  unchanged(v, "v", "vector unchanged");
}
//@unit P01 diag<{r},{c},{T}> r=@1,2,3,4<=33 c=@1,2,3,4<=33 T=double,float if=(r*c<=24)or(max(r,c)>8)&(min(r,c)<=2)
template <uint r, uint c, class T> void diag()
{
  T x = vp_in<T>::get("x", 0);
  SmallMat<r, c, T> d = diagonal<r, c, T>(x);
  for (uint j = 0; j < c; ++j)
    for (uint i = 0; i < r; ++i)
      vp_eq_d("diagonal(x)", j * r + i, at(d, i, j), i == j ? x : T(0));
}
//@unit P01 diagv<{r},{c},{n},{T}> r=@1,2,3,4<=33 c=@1,2,3,4<=33 n=@1,2,3,4<=33 T=double,float if=((r*c<=24)or(max(r,c)>8)&(min(r,c)<=2))&(n<=min(r,c))
template <uint r, uint c, uint n, class T> void diagv()
{
  const SmallMat<n, 1, T> v = M<n, 1, T>("v");
  SmallMat<r, c, T> d = diagonal<r, c, T, n>(v);
  for (uint j = 0; j < c; ++j)
    for (uint i = 0; i < r; ++i)
      vp_eq_d("diagonal(v)", j * r + i, at(d, i, j), i == j && i < n ? vp_in<T>::get("v", i) : T(0));
  unchanged(v, "v", "operand unchanged");
}
//@unit P01 rep_dyad<{r},{c},{T}> r=@1,2,3,4<=33 c=@1,2,3,4<=33 T=double,float if=(r*c<=24)or(max(r,c)>8)&(min(r,c)<=2)
template <uint r, uint c, class T> void rep_dyad()
{
  const SmallMat<r, 1, T> v = M<r, 1, T>("v");
  const SmallMat<c, 1, T> w = M<c, 1, T>("w");
  const SmallMat<r, c, T> m = M<r, c, T>("m");
  SmallMat<r, c, T> rep = rep_mat<r, c, T>(v);
  SmallMat<r, c, T> dy = dyadic_product(v, w);
  SmallMat<c, r, T> tr = transposed(m);
  T prod = 1;
  for (uint i = 0; i < r * c; ++i)
    prod *= vp_in<T>::get("m", i);
  for (uint j = 0; j < c; ++j)
    for (uint i = 0; i < r; ++i)
    {
      vp_eq_d("rep_mat", j * r + i, at(rep, i, j), vp_in<T>::get("v", i));
      vp_eq_d("dyadic", j * r + i, at(dy, i, j), vp_in<T>::get("v", i) * vp_in<T>::get("w", j));
      vp_eq_d("transposed", j * r + i, at(tr, j, i), E<r, T>("m", i, j));
    }
  vp_eq_d("entries_product", 0, entries_product(m), prod);
  unchanged(v, "v", "v unchanged");
  unchanged(w, "w", "w unchanged");
  unchanged(m, "m", "m unchanged");
}
//@unit P01 cross<{T}> T=double,float
template <class T> void cross()
{
  const SmallMat<3, 1, T> a = M<3, 1, T>("a"), b = M<3, 1, T>("b");
  SmallMat<3, 1, T> x = cross_product(a, b);
  for (uint i = 0; i < 3; ++i)
  {
    uint j = (i + 1) % 3, k = (i + 2) % 3;
    vp_eq_d("cross", i, x.data()[i],
            vp_in<T>::get("a", j) * vp_in<T>::get("b", k) - vp_in<T>::get("a", k) * vp_in<T>::get("b", j));
  }
  unchanged(a, "a", "a unchanged");
  unchanged(b, "b", "b unchanged");
}
//@unit P01 matmul<{m},{k},{n},{T}> m=@1,2,3,4<=33 k=@1,2,3,4<=33 n=@1,2,3,4<=33 T=double if=(m*n*k<=36)or((max(m,k,n)>4)&(sorted([m,k,n])[1]<=2))
//@unit P01 matmul<{m},{k},{n},{T}> m=1,2,3 k=1,2,3 n=1,2,3 T=float if=m*n*k<=12
template <uint m, uint k, uint n, class T> void matmul()
{
  const SmallMat<m, k, T> A = M<m, k, T>("A");
  const SmallMat<k, n, T> B = M<k, n, T>("B");
  const SmallMat<k, m, T> At = M<k, m, T>("At");
  const SmallMat<n, k, T> Bt = M<n, k, T>("Bt");
  SmallMat<m, n, T> P = A * B, Q = transposed_mat_times_mat(At, B), R = mat_times_transposed_mat(A, Bt), U = mat_times_mat_unfit(A, B);
  for (uint i = 0; i < m; ++i)
    for (uint j = 0; j < n; ++j)
    {
      T p = 0, q = 0, s = 0;
      for (uint l = 0; l < k; ++l)
      {
        p += E<m, T>("A", i, l) * E<k, T>("B", l, j);
        q += E<k, T>("At", l, i) * E<k, T>("B", l, j);
        s += E<m, T>("A", i, l) * E<n, T>("Bt", j, l);
      }
      vp_eq_d("A*B", j * m + i, at(P, i, j), p);
      vp_eq_d("A^T*B", j * m + i, at(Q, i, j), q);
      vp_eq_d("A*B^T", j * m + i, at(R, i, j), s);
      vp_eq_d("unfit, fitting sizes", j * m + i, at(U, i, j), p);
    }
  unchanged(A, "A", "A unchanged");
  unchanged(B, "B", "B unchanged");
  unchanged(At, "At", "At unchanged");
  unchanged(Bt, "Bt", "Bt unchanged");
}
//@unit P01 unfit<{m},{k},{l},{n}> m=1,2,3 k=1,2,3,4 l=1,2,3,4 n=1,2 if=k!=l
template <uint m, uint k, uint l, uint n> void unfit()
{
  const SmallMat<m, k, double> A = M<m, k, double>("A");
  const SmallMat<l, n, double> B = M<l, n, double>("B");
  SmallMat<m, n, double> U = mat_times_mat_unfit(A, B);
  for (uint i = 0; i < m; ++i)
    for (uint j = 0; j < n; ++j)
    {
      double p = 0;
      for (uint h = 0; h < std::min(k, l); ++h)
        p += E<m, double>("A", i, h) * E<l, double>("B", h, j);
      vp_eq_d("unfit", j * m + i, at(U, i, j), p);
    }
  unchanged(A, "A", "A unchanged");
  unchanged(B, "B", "B unchanged");
}
//@unit P01 norms_vec<{r},{T}> r=@1,2,3,4<=33 T=double,float
template <uint r, class T> void norms_vec()
{
  const SmallMat<r, 1, T> v = M<r, 1, T>("v");
  T n1 = 0, n2 = 0, ni = 0, np = 0, p = vp_in<T>::get("p", 0);
  for (uint i = 0; i < r; ++i)
  {
    T x = vp_in<T>::get("v", i);
    n1 += std::abs(x);
    n2 += x * x;
    ni = std::max(ni, std::abs(x));
    np += std::pow(std::abs(x), p);
  }
  vp_eq_d("norm_1", 0, norm_1(v), n1);
  vp_eq_d("norm_2", 0, norm_2(v), std::sqrt(n2));
  vp_eq_d("norm_infty", 0, norm_infty(v), ni);
  vp_eq_d("norm_p", 0, norm_p(v, p), std::pow(np, T(1.) / p));
  unchanged(v, "v", "v unchanged");
}
//@unit P01 norms_mat<{r},{c},{T}> r=@1,2,3<=5 c=@2,3<=5 T=double,float
template <uint r, uint c, class T> void norms_mat()
{
  const SmallMat<r, c, T> m = M<r, c, T>("m");
  T n1 = 0, ni = 0;
  for (uint j = 0; j < c; ++j)
  {
    T s = 0;
    for (uint i = 0; i < r; ++i)
      s += std::abs(E<r, T>("m", i, j));
    n1 = std::max(n1, s);
  }
  for (uint i = 0; i < r; ++i)
  {
    T s = 0;
    for (uint j = 0; j < c; ++j)
      s += std::abs(E<r, T>("m", i, j));
    ni = std::max(ni, s);
  }
  vp_eq_d("norm_1", 0, norm_1(m), n1);
  vp_eq_d("norm_infty", 0, norm_infty(m), ni);
  unchanged(m, "m", "m unchanged");
}
//@unit P01 stream<{r},{c}> r=1,2,3 c=1,2,3
template <uint r, uint c> void stream()
{
  const SmallMat<r, c, double> m = M<r, c, double>("m");
  std::stringstream s, t;
  std::ostream* q = &(s << m);
  vp_eq_p("returns stream", q, (std::ostream*)&s);
  if (c == 1)
  {
    for (uint i = 0; i < r; ++i)
      t << " " << E<r, double>("m", i, 0) << " ";
    t << "\n";
  }
  else
    for (uint i = 0; i < r; ++i)
    {
      for (uint j = 0; j < c; ++j)
        t << " " << E<r, double>("m", i, j) << " ";
      t << "\n";
    }
  std::string a = s.str(), b = t.str();
  vp_eq_s_("text", &a, &b);
  unchanged(m, "m", "m unchanged");
}

// ------------------------------------------------------------------------------------------------
// P03: division
// ------------------------------------------------------------------------------------------------
//@unit P03 div_scal<{r},{c},{T}> r=@1,2,3<=33 c=@1,2,3<=33 T=double,float if=(r*c<=16)or(max(r,c)>8)&(min(r,c)<=2)
template <uint r, uint c, class T> void div_scal()
{
  const SmallMat<r, c, T> m = M<r, c, T>("m");
  const T s = vp_in<T>::get("s", 0);
  SmallMat<r, c, T> q(m), p;
  bool threw = false, threw2 = false;
  try
  {
    SmallMat<r, c, T>* ret = &(q /= s);
    vp_eq_p("/= returns", ret, &q);
  }
  catch (const SmallMatDivByZeroException&)
  {
    threw = true;
  }
  try
  {
    p = m / s;
  }
  catch (const SmallMatDivByZeroException&)
  {
    threw2 = true;
  }
  vp_true("/= throws iff divisor is zero", threw == (s == 0));
  vp_true("m/s throws iff divisor is zero", threw2 == (s == 0));
  for (uint i = 0; i < r * c; ++i)
  {
    T e = vp_in<T>::get("m", i);
    if (s == 0)
      vp_eq_d("operand of refused /=", i, q.data()[i], e);
    else
    {
      vp_eq_d("/=", i, q.data()[i], e / s);
      vp_eq_d("m/s", i, p.data()[i], e / s);
    }
  }
  unchanged(m, "m", "operand unchanged");
}
//@unit P03 div_mat<{r},{c},{T}> r=@1,2,3<=8 c=@1,2,3<=8 T=double,float if=r*c<=6
template <uint r, uint c, class T> void div_mat()
{
  const SmallMat<r, c, T> m = M<r, c, T>("m"), n = M<r, c, T>("n");
  const T s = vp_in<T>::get("s", 0);
  SmallMat<r, c, T> q(m), h, d;
  bool t1 = false, t2 = false, t3 = false, zero = false;
  for (uint i = 0; i < r * c; ++i)
    zero = zero | (vp_in<T>::get("n", i) == 0);
  try
  {
    SmallMat<r, c, T>* ret = &(q /= n);
    vp_eq_p("/= returns", ret, &q);
  }
  catch (const SmallMatDivByZeroException&)
  {
    t1 = true;
  }
  try
  {
    h = hada_divi(m, n);
  }
  catch (const SmallMatDivByZeroException&)
  {
    t2 = true;
  }
  try
  {
    d = s / n;
  }
  catch (const SmallMatDivByZeroException&)
  {
    t3 = true;
  }
  vp_true("/= throws iff an entry of the divisor is zero", t1 == zero);
  vp_true("hada_divi throws iff an entry of the divisor is zero", t2 == zero);
  vp_true("s/n throws iff an entry of the divisor is zero", t3 == zero);
  if (!zero)
    for (uint i = 0; i < r * c; ++i)
    {
      T e = vp_in<T>::get("m", i), f = vp_in<T>::get("n", i);
      vp_eq_d("/=", i, q.data()[i], e / f);
      vp_eq_d("hada_divi", i, h.data()[i], e / f);
      vp_eq_d("s/n", i, d.data()[i], s / f);
    }
  unchanged(m, "m", "m unchanged");
  unchanged(n, "n", "n unchanged");
}

// ------------------------------------------------------------------------------------------------
// P04: linear systems
// ------------------------------------------------------------------------------------------------
template <class T> struct Lap;
template <> struct Lap<double>
{
  static void gesv(int n, int nrhs, double* a, double* b, int* info)
  {
    int ip[64];
    Wrapper::dgesv_(&n, &nrhs, a, &n, ip, b, &n, info);
  }
  static void geqr2(int m, int n, double* a, double* tau, int* info)
  {
    double w[64];
    Wrapper::dgeqr2_(&m, &n, a, &m, tau, w, info);
  }
};
template <> struct Lap<float>
{
  static void gesv(int n, int nrhs, float* a, float* b, int* info)
  {
    int ip[64];
    Wrapper::sgesv_(&n, &nrhs, a, &n, ip, b, &n, info);
  }
  static void geqr2(int m, int n, float* a, float* tau, int* info)
  {
    float w[64];
    Wrapper::sgeqr2_(&m, &n, a, &m, tau, w, info);
  }
};
// For square b, both / overloads of the scalar family are excluded by deduction, so b / A is the solve.
//@unit P04 solve<{n},{k},{T}> n=@1,2,3<=5 k=@1,2,3<=5 T=double,float
template <uint n, uint k, class T> void solve()
{
  const SmallMat<n, n, T> A = M<n, n, T>("A");
  const SmallMat<n, k, T> b = M<n, k, T>("b");
  SmallMat<n, n, T> A2(A), A3(A), A4(A), A5(A);
  SmallMat<n, k, T> b2(b), b3(b), b4(b), b5(b), x, x2, x4;
  std::array<T, n * k> x5;
  int info = 0;
  Lap<T>::gesv(n, k, A3.data().data(), b3.data().data(), &info);
  bool t1 = false, t2 = false, t4 = false, t5 = false;
  try
  {
    x = b / A;
  }
  catch (const Wrapper::LAPACKexception&)
  {
    t1 = true;
  }
  try
  {
    x2 = b2 / A2;
  }
  catch (const Wrapper::LAPACKexception&)
  {
    t2 = true;
  }
  try
  {
    Wrapper::lapack_solve((int)n, (int)k, A4.data().data(), b4.data().data());
  }
  catch (const Wrapper::LAPACKexception&)
  {
    t4 = true;
  }
  try
  {
    x5 = Wrapper::lapack_solve<n, k, T>(A5.data(), b5.data());
  }
  catch (const Wrapper::LAPACKexception&)
  {
    t5 = true;
  }
  vp_true("failure is reported by an exception (const operands)", t1 == (info != 0));
  vp_true("failure is reported by an exception", t2 == (info != 0));
  vp_true("failure is reported by an exception (pointer form)", t4 == (info != 0));
  vp_true("failure is reported by an exception (array form)", t5 == (info != 0));
  if (info == 0)
    for (uint i = 0; i < n * k; ++i)
    {
      vp_eq_d("b/A (const operands)", i, x.data()[i], b3.data()[i]);
      vp_eq_d("b/A", i, x2.data()[i], b3.data()[i]);
      vp_eq_d("pointer form", i, b4.data()[i], b3.data()[i]);
      vp_eq_d("array form", i, x5[i], b3.data()[i]);
    }
  unchanged(A, "A", "A unchanged");
  unchanged(b, "b", "b unchanged");
}

// ------------------------------------------------------------------------------------------------
// P05: QR decomposition and determinant
// ------------------------------------------------------------------------------------------------
template <uint n, class T> T det_(const SmallMat<n, n, T>& q)
{
  if constexpr (n == 1)
    return at(q, 0, 0);
  else if constexpr (n == 2)
    return at(q, 0, 0) * at(q, 1, 1) - at(q, 0, 1) * at(q, 1, 0);
  else
  {
    T d = 0;
    for (uint i = 0; i < n; ++i)
    {
      SmallMat<n - 1, n - 1, T> s;
      for (uint k = 0, kk = 0; k < n; ++k)
        if (k != i)
        {
          for (uint j = 1; j < n; ++j)
            s.data()[(j - 1) * (n - 1) + kk] = at(q, k, j);
          ++kk;
        }
      d += (i % 2 == 0 ? T(1) : T(-1)) * at(q, i, 0) * det_<n - 1, T>(s);
    }
    return d;
  }
}
// reference result: factors from LAPACK's raw output
template <uint m, uint n, class T> struct Ref
{
  static constexpr uint k = m < n ? m : n;
  SmallMat<m, n, T> raw;
  std::array<T, k> tau;
  int info;
  T q[m][m];
  T r[m][n];
  Ref(const SmallMat<m, n, T>& A) : raw(A), info(0)
  {
    Lap<T>::geqr2(m, n, raw.data().data(), tau.data(), &info);
    for (uint i = 0; i < m; ++i)
      for (uint j = 0; j < m; ++j)
        q[i][j] = i == j ? T(1) : T(0);
    for (uint l = 0; l < k; ++l)
    {
      T v[m], qv[m];
      for (uint i = 0; i < m; ++i)
        v[i] = i < l ? T(0) : i == l ? T(1) : at(raw, i, l);
      for (uint i = 0; i < m; ++i)
      {
        qv[i] = 0;
        for (uint j = 0; j < m; ++j)
          qv[i] += q[i][j] * v[j];
      }
      for (uint i = 0; i < m; ++i)
        for (uint j = 0; j < m; ++j)
          q[i][j] -= tau[l] * qv[i] * v[j];
    }
    for (uint i = 0; i < m; ++i)
      for (uint j = 0; j < n; ++j)
        r[i][j] = i <= j ? at(raw, i, j) : T(0);
  }
};
//@unit P05 qr_q<{m},{n},{T}> m=1,2,3 n=1,2,3 T=double,float
template <uint m, uint n, class T> void qr_q()
{
  const SmallMat<m, n, T> A = M<m, n, T>("A");
  Ref<m, n, T> ref(A);
  bool t = false, t2 = false;
  SmallMat<m, m, T> Q, Q2;
  SmallMat<m, n, T> W(A);
  try
  {
    Q = qr_decomp_q(A);
  }
  catch (const Wrapper::LAPACKexception&)
  {
    t = true;
  }
  try
  {
    Q2 = qr_decomp_q(W);
  }
  catch (const Wrapper::LAPACKexception&)
  {
    t2 = true;
  }
  vp_true("failure is reported by an exception", t == (ref.info != 0));
  vp_true("failure is reported by an exception (mutable operand)", t2 == (ref.info != 0));
  if (ref.info == 0)
    for (uint i = 0; i < m; ++i)
      for (uint j = 0; j < m; ++j)
      {
        vp_eq_d("Q", j * m + i, at(Q, i, j), ref.q[i][j]);
        vp_eq_d("Q (mutable operand)", j * m + i, at(Q2, i, j), ref.q[i][j]);
      }
  unchanged(A, "A", "A unchanged");
}
//@unit P05 qr_full<{m},{n},{T},{cs}> m=1,2,3 n=1,2,3 T=double,float cs=true,false if=n<=m
template <uint m, uint n, class T, bool cs> void qr_full()
{
  const SmallMat<m, n, T> A = M<m, n, T>("A");
  Ref<m, n, T> ref(A);
  bool t = false;
  SmallMat<m, m, T> Q(vp_in<T>::get("stale", 0));
  SmallMat<n, n, T> R(vp_in<T>::get("stale", 0));
  SmallMat<m, n, T> W(A);
  try
  {
    if (cs)
      qr_decomp(A, Q, R);
    else
      qr_decomp(W, Q, R);
  }
  catch (const Wrapper::LAPACKexception&)
  {
    t = true;
  }
  vp_true("failure is reported by an exception", t == (ref.info != 0));
  if (ref.info == 0)
  {
    for (uint i = 0; i < n; ++i)
      for (uint j = 0; j < i; ++j)
        vp_eq_d("R is upper triangular", j * n + i, at(R, i, j), 0.);
    for (uint i = 1; i < n; ++i)
      vp_true("diagonal of R (but the first) is not negative", at(R, i, i) >= 0);
    for (uint i = 0; i < m; ++i)
      for (uint j = 0; j < n; ++j)
      {
        T a = 0, b = 0, c = 0;
        for (uint k = 0; k < n; ++k)
          a += at(Q, i, k) * at(R, k, j);
        for (uint k = 0; k < m; ++k)
        {
          b += ref.q[i][k] * ref.r[k][j];
          c += at(Q, i, k) * at(W, k, j);
        }
        vp_eq_d("Q*R is the factorised matrix", j * m + i, a, b);
        if (!cs)
          vp_eq_d("Q*mat is the factorised matrix", j * m + i, c, b);
      }
    for (uint i = 0; i < m; ++i)
      for (uint j = 0; j <= i; ++j)
      {
        T d = 0;
        for (uint k = 0; k < m; ++k)
          d += at(Q, k, i) * at(Q, k, j);
        vp_eq_d("columns of Q are orthonormal", j * m + i, d, i == j ? 1. : 0.);
      }
    vp_eq_d("det(Q) = 1", 0, det_<m, T>(Q), 1.);
  }
  unchanged(A, "A", "A unchanged");
}
//@unit P05 wrap_qr<{m},{n},{T}> m=1,2,3 n=1,2,3 T=double,float
template <uint m, uint n, class T> void wrap_qr()
{
  const SmallMat<m, n, T> A = M<m, n, T>("A");
  Ref<m, n, T> ref(A);
  SmallMat<m, n, T> W(A), V(A), U(A);
  SmallMat<m, m, T> Q(vp_in<T>::get("stale", 0)), Q3(vp_in<T>::get("stale", 0));
  bool t = false, t2 = false;
  try
  {
    auto* ret = &Wrapper::lapack_qr_decomp_r<m, n, T>(W.data());
    vp_eq_p("R is returned in place", ret, &W.data());
  }
  catch (const Wrapper::LAPACKexception&)
  {
    t = true;
  }
  try
  {
    Wrapper::lapack_qr_decomp<m, n, T>(V.data(), Q.data());
  }
  catch (const Wrapper::LAPACKexception&)
  {
    t2 = true;
  }
  vp_true("failure is reported by an exception (R)", t == (ref.info != 0));
  vp_true("failure is reported by an exception (QR)", t2 == (ref.info != 0));
  if (ref.info == 0)
    for (uint i = 0; i < m; ++i)
    {
      for (uint j = 0; j < n; ++j)
      {
        vp_eq_d("R", j * m + i, at(W, i, j), ref.r[i][j]);
        vp_eq_d("R of QR", j * m + i, at(V, i, j), ref.r[i][j]);
      }
      for (uint j = 0; j < m; ++j)
        vp_eq_d("Q of QR", j * m + i, at(Q, i, j), ref.q[i][j]);
    }
}
//@unit P05 reduced_r<{m},{n},{T}> m=1,2,3,4,5,9,12 n=1,2,3,4 T=double,float if=n<=m
template <uint m, uint n, class T> void reduced_r()
{
  const SmallMat<m, n, T> A = M<m, n, T>("A");
  SmallMat<m, n, T> W(A);
  SmallMat<n, n, T> R(vp_in<T>::get("stale", 0));
  Wrapper::get_r_from_lapack_qr_result<m, n, T>(A.data(), R.data());
  Wrapper::get_r_from_lapack_qr_result<m, n, T>(W.data());
  for (uint j = 0; j < n; ++j)
  {
    for (uint i = 0; i < n; ++i)
      vp_eq_d("reduced R", j * n + i, at(R, i, j), i <= j ? E<m, T>("A", i, j) : T(0));
    for (uint i = 0; i < m; ++i)
      vp_eq_d("full R", j * m + i, at(W, i, j), i <= j ? E<m, T>("A", i, j) : T(0));
  }
  unchanged(A, "A", "A unchanged");
}
//@unit P05 det<{m},{n},{T}> m=1,2,3,4 n=1,2,3,4 T=double,float
template <uint m, uint n, class T> void det()
{
  const SmallMat<m, n, T> A = M<m, n, T>("A");
  Ref<m, n, T> ref(A);
  SmallMat<m, n, T> W(A);
  bool t = false, t2 = false;
  T d = 0, d2 = 0, want = 1;
  try
  {
    d = determinant(A);
  }
  catch (const Wrapper::LAPACKexception&)
  {
    t = true;
  }
  try
  {
    d2 = determinant(W);
  }
  catch (const Wrapper::LAPACKexception&)
  {
    t2 = true;
  }
  vp_true("failure is reported by an exception", t == (ref.info != 0));
  vp_true("failure is reported by an exception (mutable operand)", t2 == (ref.info != 0));
  for (uint i = 0; i < (m < n ? m : n); ++i)
    want *= ref.tau[i] == 0 ? ref.r[i][i] : -ref.r[i][i];
  if (ref.info == 0)
  {
    vp_eq_d("determinant", 0, d, want);
    vp_eq_d("determinant (mutable operand)", 0, d2, want);
  }
  unchanged(A, "A", "A unchanged");
}

// operands that are parts of, or identical with, the object they are applied to
//@unit P01 alias_scalar<{r},{c},{k},{T}> r=1,2,3 c=1,2,3 k=0,1,3,8 T=double,float if=k<r*c
template <uint r, uint c, uint k, class T> void alias_scalar()
{
  const T x = vp_in<T>::get("m", k);
  SmallMat<r, c, T> a = M<r, c, T>("m"), s(a), p(a), q(a);
  a += a[k];
  s -= s[k];
  p *= p[k];
  bool thrown = false;
  try
  {
    q /= q[k];
  }
  catch (const SmallMatDivByZeroException&)
  {
    thrown = true;
  }
  vp_true("throws iff zero", thrown == (x == 0));
  SmallMat<r, c, T> m = M<r, c, T>("m");
  SmallMat<r, c, T> va = m + m[k], va2 = m[k] + m, vs = m - m[k], vs2 = m[k] - m, vp = m * m[k], vp2 = m[k] * m;
  unchanged(m, "m", "operand kept");
  for (uint i = 0; i < r * c; ++i)
  {
    const T e = vp_in<T>::get("m", i);
    vp_eq_d("m += m[k]", i, a.data()[i], e + x);
    vp_eq_d("m -= m[k]", i, s.data()[i], e - x);
    vp_eq_d("m *= m[k]", i, p.data()[i], e * x);
    if (x != 0)
      vp_eq_d("m /= m[k]", i, q.data()[i], e / x);
    vp_eq_d("m + m[k]", i, va.data()[i], e + x);
    vp_eq_d("m[k] + m", i, va2.data()[i], e + x);
    vp_eq_d("m - m[k]", i, vs.data()[i], e - x);
    vp_eq_d("m[k] - m", i, vs2.data()[i], x - e);
    vp_eq_d("m * m[k]", i, vp.data()[i], e * x);
    vp_eq_d("m[k] * m", i, vp2.data()[i], e * x);
    m = va;
    m = m + m[k];
    vp_eq_d("m = m + m[k]", i, m.data()[i], e + x + (x + x));
    m = M<r, c, T>("m");
  }
}
//@unit P01 alias_mat<{r},{c},{T}> r=1,2,3 c=1,2,3 T=double,float
template <uint r, uint c, class T> void alias_mat()
{
  SmallMat<r, c, T> a = M<r, c, T>("m"), s(a), p(a), m(a);
  a += a;
  s -= s;
  p *= p;
  SmallMat<r, c, T> va = m + m, vs = m - m, vp = hada_prod(m, m);
  SmallMat<c, c, T> g = transposed_mat_times_mat(m, m);
  SmallMat<r, r, T> h = mat_times_transposed_mat(m, m);
  unchanged(m, "m", "operand kept");
  for (uint i = 0; i < r * c; ++i)
  {
    const T e = vp_in<T>::get("m", i);
    vp_eq_d("m += m", i, a.data()[i], e + e);
    vp_eq_d("m -= m", i, s.data()[i], 0);
    vp_eq_d("m *= m", i, p.data()[i], e * e);
    vp_eq_d("m + m", i, va.data()[i], e + e);
    vp_eq_d("m - m", i, vs.data()[i], 0);
    vp_eq_d("hada_prod(m, m)", i, vp.data()[i], e * e);
  }
  for (uint i = 0; i < c; ++i)
    for (uint j = 0; j < c; ++j)
    {
      T w = 0;
      for (uint k = 0; k < r; ++k)
        w += E<r, T>("m", k, i) * E<r, T>("m", k, j);
      vp_eq_d("m^T m", i * c + j, at(g, i, j), w);
    }
  for (uint i = 0; i < r; ++i)
    for (uint j = 0; j < r; ++j)
    {
      T w = 0;
      for (uint k = 0; k < c; ++k)
        w += E<r, T>("m", i, k) * E<r, T>("m", j, k);
      vp_eq_d("m m^T", i * r + j, at(h, i, j), w);
    }
  T n = 0;
  for (uint i = 0; i < r * c; ++i)
    n += vp_in<T>::get("m", i) * vp_in<T>::get("m", i);
  vp_eq_d("scalar_product(m, m)", 0, scalar_product(m, m), n);
  if constexpr (r == c)
  {
    SmallMat<r, r, T> sq = m * m;
    m = m * m;
    for (uint i = 0; i < r; ++i)
      for (uint j = 0; j < r; ++j)
      {
        T w = 0;
        for (uint k = 0; k < r; ++k)
          w += E<r, T>("m", i, k) * E<r, T>("m", k, j);
        vp_eq_d("m * m", i * r + j, at(sq, i, j), w);
        vp_eq_d("m = m * m", i * r + j, at(m, i, j), w);
      }
  }
  if constexpr (c > 1)
  {
    // a column of the matrix itself as the operand of column-wise arithmetic
    SmallMat<r, c, T> b = M<r, c, T>("m"), d(b);
    b += b.get_column(1);
    d -= d.get_column(c - 1);
    for (uint j = 0; j < c; ++j)
      for (uint i = 0; i < r; ++i)
      {
        vp_eq_d("m += column", j * r + i, at(b, i, j), E<r, T>("m", i, j) + E<r, T>("m", i, 1));
        vp_eq_d("m -= column", j * r + i, at(d, i, j), E<r, T>("m", i, j) - E<r, T>("m", i, c - 1));
      }
  }
}
//@unit P03 alias_div<{r},{c},{T}> r=1,2,3 c=1,2 T=double,float
template <uint r, uint c, class T> void alias_div()
{
  SmallMat<r, c, T> a = M<r, c, T>("m");
  bool zero = false, thrown = false;
  for (uint i = 0; i < r * c; ++i)
    zero = zero || vp_in<T>::get("m", i) == 0;
  try
  {
    a /= a;
  }
  catch (const SmallMatDivByZeroException&)
  {
    thrown = true;
  }
  vp_true("throws iff an entry is zero", thrown == zero);
  if (!zero)
    for (uint i = 0; i < r * c; ++i)
      vp_eq_d("m /= m", i, a.data()[i], 1);
}
