// Specification units: VTU output and plot options.
//@headers plot.hxx
#include <HyperHDG/hy_assert.hxx>
#include <array>
#include <vector>
#include <algorithm>
#include <string>
#include <HyperHDG/hypercube.hxx>
#include "mock.hxx"
#include <HyperHDG/plot.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>

// A geometry whose points are opaque functions of what was asked; the index of a boundary point counts the points of
// all boundaries of the hyperedge.
template <uint dim, uint space, uint id> struct PlotGeom
{
  struct value_type
  {
    uint idx, ref;
    template <uint n, class F> Point<space, double> lexicographic(uint index, const SmallVec<n, F>& p) const
    {
      Point<space, double> r;
      for (uint j = 0; j < space; ++j)
        r[j] = vp_fn_d("point", 6, (double)idx, (double)index, (double)j, (double)n, (double)p[0], (double)p[n - 1]);
      return r;
    }
    template <uint n, class F>
    Point<space, double> boundary_lexicographic(uint index, uint bdr, float scale, const SmallVec<n, F>& p) const
    {
      Point<space, double> r;
      for (uint j = 0; j < space; ++j)
        r[j] = vp_fn_d("boundary point", 8, (double)idx, (double)index, (double)bdr, (double)j, (double)scale, (double)n,
                       (double)p[0], (double)p[n - 1]);
      return r;
    }
  };
  typedef MockCtor constructor_value_type;
  MockCtor c;
  uint ref = 1;
  PlotGeom(const MockCtor& cc) : c(cc) {}
  PlotGeom(const MockTopo<dim, space, id>& t) : c(t.c) {}
  static constexpr uint hyEdge_dim() { return dim; }
  static constexpr uint space_dim() { return space; }
  const value_type operator[](const uint i) const { return value_type{i, ref}; }
  uint get_refinement() const { return ref; }
  void set_refinement(uint r) { ref = r; }
};
template <class T, uint n, uint F> using Loc = std::array<std::array<T, n>, F>;
template <class T, uint n, uint F> T opq(const char* tag, uint e, uint d, uint c, T t, const Loc<T, n, F>& o, double a0, double a1)
{
  double a[12] = {};
  for (uint f = 0; f < F; ++f)
    for (uint k = 0; k < n; ++k)
      a[f * n + k] = o[f][k];
  return vp_fn_d(tag, 18, (double)e, (double)d, (double)c, (double)t, a0, a1, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8],
                 a[9], a[10], a[11]);
}
struct NoData
{
};
// kind 0: bulk_values without hyperedge, 1: with hyperedge; sd: components in the bulk, nd: on the skeleton
template <class T, uint dim, uint n, uint sd, uint nd, uint kind> struct PlotSol
{
  static constexpr uint F = 2 * dim;
  typedef NoData data_type;
  typedef uint constructor_value_type;
  struct error_def
  {
    typedef std::array<T, 1> error_t;
    static error_t initial_error() { return error_t{0}; }
    static error_t sum_error(const error_t& a, const error_t& b) { return error_t{a[0] + b[0]}; }
    static error_t postprocess_error(const error_t& a) { return a; }
  };
  PlotSol(const uint& = 0) {}
  static constexpr uint hyEdge_dim() { return dim; }
  static constexpr uint n_glob_dofs_per_node() { return n; }
  static constexpr uint system_dimension() { return sd; }
  static constexpr uint node_system_dimension() { return nd; }
  template <class A, size_t m, class L>
  std::array<std::array<T, Hypercube<dim>::pow(m)>, sd> bulk_values(const std::array<A, m>& x, const L& o, const T t) const
    requires(kind == 0)
  {
    return val<A, m>(0, x, o, t);
  }
  template <class A, size_t m, class L, class E>
  std::array<std::array<T, Hypercube<dim>::pow(m)>, sd> bulk_values(const std::array<A, m>& x, const L& o, E& e, const T t) const
    requires(kind == 1)
  {
    return val<A, m>(1 + e.topology.idx + 10 * e.geometry.idx + 100 * e.node_descriptor.idx, x, o, t);
  }
  template <class A, size_t m, class L>
  std::array<std::array<T, Hypercube<dim>::pow(m)>, sd> val(uint e, const std::array<A, m>& x, const L& o, const T t) const
  {
    std::array<std::array<T, Hypercube<dim>::pow(m)>, sd> r;
    for (uint d = 0; d < sd; ++d)
      for (uint c = 0; c < Hypercube<dim>::pow(m); ++c)
        r[d][c] = opq<T, n, F>("bulk value", e, d, c, t, o, x[0], x[m - 1]);
    return r;
  }
};
template <class T> std::vector<T> vec(const char* tag, uint n)
{
  std::vector<T> v(n);
  for (uint i = 0; i < n; ++i)
    v[i] = vp_in<T>::get(tag, i);
  return v;
}
constexpr uint NN = 8;
constexpr uint cell_type(uint d) { return d == 0 ? 1 : d == 1 ? 3 : d == 2 ? 8 : 11; }

// The file `name` shows ne hyperedges with the values of `lam` at `time`.
template <class T, uint d, uint s, uint n, uint sd, uint nd, uint kind, uint id, uint ne, bool edges, bool bdr, bool numbers = false>
void shows(const std::string& name, const char* lam, T time, float scale, float bscale)
{
  constexpr uint ppe = 1u << d, ppb = 1u << (d - 1), nb = 2 * d, comp = sd > nd ? sd : nd;
  constexpr uint np = (edges ? ne * ppe : 0) + (bdr ? ne * nb * ppb : 0), nc = (edges ? ne : 0) + (bdr ? ne * nb : 0);
  vp_vtu_("well-formed file", &name);
  vp_eq_u("declared number of points", 0, vp_vtu_n("NumberOfPoints"), np);
  vp_eq_u("declared number of cells", 0, vp_vtu_n("NumberOfCells"), nc);
  vp_eq_u("components of a point", 0, vp_vtu_n("comp Points"), 3);
  vp_eq_u("coordinates", 0, vp_vtu_n("len Points"), 3 * np);
  vp_eq_u("length of connectivity", 0, vp_vtu_n("len connectivity"), (edges ? ne * ppe : 0) + (bdr ? ne * nb * ppb : 0));
  vp_eq_u("length of offsets", 0, vp_vtu_n("len offsets"), nc);
  vp_eq_u("length of types", 0, vp_vtu_n("len types"), nc);
  if (sd > 0)
  {
    vp_eq_u("components of a value", 0, vp_vtu_n("comp values"), comp);
    vp_eq_u("number of values", 0, vp_vtu_n("len values"), comp * np);
  }
  if (numbers)
    vp_eq_u("number of indices", 0, vp_vtu_n("len index"), nc);
  const float lo = scale * (0. - 0.5) + 0.5, hi = scale * (1. - 0.5) + 0.5;
  const float blo = scale * bscale * (0. - 0.5) + 0.5, bhi = scale * bscale * (1. - 0.5) + 0.5;
  uint p = 0, c = 0, off = 0, con = 0;
  if (edges)
    for (uint e = 0; e < ne; ++e)
    {
      Loc<T, n, 2 * d> o;
      for (uint i = 0; i < 2 * d; ++i)
        for (uint j = 0; j < n; ++j)
          o[i][j] = vp_in<T>::get(lam, conn<id, d>(e, i) * n + j);
      for (uint k = 0; k < ppe; ++k)
      {
        for (uint j = 0; j < 3; ++j)
          vp_eq_d("coordinate", (p + k) * 3 + j, vp_vtu_d("Points", (p + k) * 3 + j),
                  j < s ? vp_fn_d("point", 6, (double)e, (double)k, (double)j, 2., (double)lo, (double)hi) : 0.);
        for (uint j = 0; sd > 0 && j < comp; ++j)
          vp_eq_d("value", (p + k) * comp + j, vp_vtu_d("values", (p + k) * comp + j),
                  j < sd ? opq<T, n, 2 * d>("bulk value", kind == 0 ? 0 : 1 + 111 * e, j, k, time, o, lo, hi) : 0.);
        vp_eq_u("vertex of a cell", con, vp_vtu_u("connectivity", con), p + k);
        ++con;
      }
      p += ppe;
      off += ppe;
      vp_eq_u("offset of a cell", c, vp_vtu_u("offsets", c), off);
      vp_eq_u("type of a cell", c, vp_vtu_u("types", c), cell_type(d));
      if (numbers)
        vp_eq_u("index of a cell", c, vp_vtu_u("index", c), e);
      ++c;
    }
  if (bdr)
    for (uint e = 0; e < ne; ++e)
      for (uint b = 0; b < nb; ++b)
      {
        for (uint k = 0; k < ppb; ++k)
        {
          for (uint j = 0; j < 3; ++j)
            vp_eq_d("coordinate of a boundary", (p + k) * 3 + j, vp_vtu_d("Points", (p + k) * 3 + j),
                    j < s ? vp_fn_d("boundary point", 8, (double)e, (double)(k + b * ppb), (double)b, (double)j, (double)bscale, 2.,
                                    (double)blo, (double)bhi)
                          : 0.);
          vp_eq_u("vertex of a boundary", con, vp_vtu_u("connectivity", con), p + k);
          ++con;
        }
        p += ppb;
        off += ppb;
        vp_eq_u("offset of a boundary", c, vp_vtu_u("offsets", c), off);
        vp_eq_u("type of a boundary", c, vp_vtu_u("types", c), cell_type(d - 1));
        ++c;
      }
}
template <class T, uint d, uint s, uint n, uint id> using Graph = HDGHyperGraph<n, MockTopo<d, s, id>, PlotGeom<d, s, id>, MockNode<d, s, id>, NoData>;

//@unit P21 vtu<double,1,{s},1,{sd},{nd},{kind},0,2,true,{bdr},false> s=1,2,3 sd=1,2 nd=1,2 kind=0,1 bdr=false,true
//@unit P21 vtu<double,1,2,{n},1,1,{kind},{id},{ne},{edges},{bdr},false> n=1,2 kind=0,1 id=1,2,3 ne=1,3 edges=true,false bdr=true
//@unit P21 vtu<double,2,{s},1,{sd},{nd},{kind},1,{ne},{edges},true,false> s=2,3 sd=1,3 nd=1,2 kind=0,1 ne=1,2 edges=true,false
//@unit P21 vtu<double,2,3,{n},3,1,1,{id},2,true,false,false> n=1,2 id=0,2,3
//@unit P21 vtu<double,3,3,1,{sd},{nd},1,0,1,{edges},{bdr},false> sd=1,4 nd=1 edges=true,false bdr=false,true
//@unit P21 vtu<double,{d},3,1,{sd},1,1,{id},2,{edges},{bdr},true> d=1,2 sd=1 id=2 edges=true,false bdr=false,true
//@unit P21 vtu<float,{d},3,1,{sd},1,{kind},{id},2,true,{bdr},false> d=1,2 sd=0,1 kind=0,1 id=3 bdr=false,true
//@unit P21 vtu<double,1,2,1,1,1,{kind},{id},{ne},true,{bdr},{num}> kind=0,1 id=0,1,2,3 ne=@7,12<=40 bdr=false,true num=false,true if=(id!=0)or(ne==7)
//@unit P21 vtu<double,2,2,1,1,1,{kind},{id},5,true,{bdr},false> kind=0,1 id=1,2,3 bdr=false,true
template <class T, uint d, uint s, uint n, uint sd, uint nd, uint kind, uint id, uint ne, bool edges, bool bdr, bool numbers>
void vtu()
{
  Graph<T, d, s, n, id> g(MockCtor{ne, NN, 1});
  PlotSol<T, d, n, sd, nd, kind> ls;
  const std::vector<T> lam = vec<T>("lam", NN * n);
  PlotOptions o;
  o.scale = vp_in_f("scale", 0);
  o.boundary_scale = vp_in_f("bscale", 0);
  o.plot_edges = edges;
  o.plot_edge_boundaries = bdr;
  o.numbers = numbers;
  o.fileNumber = vp_in_u("number", 0);
  const T t = vp_in<T>::get("t", 0);
  plot(g, ls, lam, o, t);
  std::string name;
  vp_text_(&name, "output/example.%u.vtu", vp_in_u("number", 0));
  shows<T, d, s, n, sd, nd, kind, id, ne, edges, bdr, numbers>(name, "lam", t, vp_in_f("scale", 0), vp_in_f("bscale", 0));
  for (uint i = 0; i < NN * n; ++i)
    vp_eq_d("the vector is unchanged", i, lam[i], vp_in<T>::get("lam", i));
}

// ------------------------------------------------------------------------------------------------
// naming and numbering
// ------------------------------------------------------------------------------------------------
//@unit P23 naming<{num},{inc}> num=true,false inc=true,false
template <bool num, bool inc> void naming()
{
  Graph<double, 1, 2, 1, 0> g(MockCtor{1, NN, 1});
  PlotSol<double, 1, 1, 1, 1, 1> ls;
  PlotOptions o;
  o.outputDir = vp_str("dir");
  o.fileName = vp_str("file");
  const std::string dir = o.outputDir, file = o.fileName;
  o.printFileNumber = num;
  o.incrementFileNumber = inc;
  o.fileNumber = vp_in_u("number", 0);
  const std::vector<double> a = vec<double>("a", NN), b = vec<double>("b", NN);
  VP_ABORT_IFF(dir == "" || file == "");
  plot(g, ls, a, o, 1.5);
  vp_true("options kept", o.outputDir == dir && o.fileName == file && o.printFileNumber == num && o.incrementFileNumber == inc);
  vp_eq_u("file number", 1, o.fileNumber, vp_in_u("number", 0) + (inc ? 1 : 0));
  vp_eq_u("files written", 1, vp_files(), 1);
  std::string n1, n2;
  if (num)
  {
    vp_text_(&n1, "%s/%s.%u.vtu", dir.c_str(), file.c_str(), vp_in_u("number", 0));
    vp_text_(&n2, "%s/%s.%u.vtu", dir.c_str(), file.c_str(), vp_in_u("number", 0) + (inc ? 1 : 0));
  }
  else
  {
    vp_text_(&n1, "%s/%s.vtu", dir.c_str(), file.c_str());
    n2 = n1;
  }
  shows<double, 1, 2, 1, 1, 1, 1, 0, 1, true, false>(n1, "a", 1.5, 1.f, 1.f);
  plot(g, ls, b, o, 2.5);
  vp_eq_u("file number", 2, o.fileNumber, vp_in_u("number", 0) + (inc ? 2 : 0));
  vp_eq_u("files written", 2, vp_files(), num && inc ? 2 : 1);
  if (num && inc)
    shows<double, 1, 2, 1, 1, 1, 1, 0, 1, true, false>(n1, "a", 1.5, 1.f, 1.f);
  shows<double, 1, 2, 1, 1, 1, 1, 0, 1, true, false>(n2, "b", 2.5, 1.f, 1.f);
}

// the global loops plot what they are given, with their own options
#define LOOP_UNIT(fname, CLS)                                                                                          \
  template <class T, uint n, uint id> void fname()                                                                     \
  {                                                                                                                    \
    typedef CLS<MockTopo<1, 2, id>, PlotGeom<1, 2, id>, MockNode<1, 2, id>, PlotSol<T, 1, n, 1, 1, 1>, std::vector<T>, uint> L; \
    L l(MockCtor{2, NN, 1}), other(MockCtor{2, NN, 1});                                                                \
    l.plot_option("outputDir", "dir");                                                                                 \
    l.plot_option("fileName", "sol");                                                                                  \
    l.plot_option("fileNumber", "9");                                                                                  \
    l.plot_option("scale", "0.5");                                                                                     \
    other.plot_option("fileName", "elsewhere");                                                                        \
    const std::vector<T> a = vec<T>("a", NN * n), b = vec<T>("b", NN * n);                                             \
    const T t = vp_in<T>::get("t", 0);                                                                                 \
    l.plot_solution(a, t);                                                                                             \
    vp_eq_u("files written", 0, vp_files(), 1);                                                                        \
    shows<T, 1, 2, n, 1, 1, 1, id, 2, true, false>("dir/sol.9.vtu", "a", t, .5f, 1.f);                                 \
    vp_true("number counted", l.plot_option("fileNumber") == "10" && l.plot_option("fileName") == "sol");              \
    l.plot_solution(b);                                                                                                \
    shows<T, 1, 2, n, 1, 1, 1, id, 2, true, false>("dir/sol.9.vtu", "a", t, .5f, 1.f);                                 \
    shows<T, 1, 2, n, 1, 1, 1, id, 2, true, false>("dir/sol.10.vtu", "b", 0, .5f, 1.f);                                \
    other.plot_solution(b, t);                                                                                         \
    shows<T, 1, 2, n, 1, 1, 1, id, 2, true, false>("output/elsewhere.0.vtu", "b", t, 1.f, 1.f);                        \
  }
LOOP_UNIT(plot_elliptic, GlobalLoop::Elliptic)
LOOP_UNIT(plot_parabolic, GlobalLoop::Parabolic)
LOOP_UNIT(plot_mass, GlobalLoop::MassApproxEigenvalue)
LOOP_UNIT(plot_nonlinear, GlobalLoop::NonlinearEigenvalue)
LOOP_UNIT(plot_shifted, GlobalLoop::ShiftedInverseEigenvalue)
//@unit P23 {u}<{T},{n},0> u=plot_elliptic,plot_parabolic,plot_mass,plot_nonlinear,plot_shifted T=double,float n=1,2

// ------------------------------------------------------------------------------------------------
// options
// ------------------------------------------------------------------------------------------------
inline void in_options(PlotOptions& o)
{
  o.outputDir = vp_str("dir");
  o.fileName = vp_str("file");
  o.fileNumber = vp_in_u("number", 0);
  o.printFileNumber = vp_in_b("print", 0);
  o.incrementFileNumber = vp_in_b("inc", 0);
  o.plot_edge_boundaries = vp_in_b("bdr", 0);
  o.plot_edges = vp_in_b("edges", 0);
  o.scale = vp_in_f("scale", 0);
  o.boundary_scale = vp_in_f("bscale", 0);
  o.numbers = vp_in_b("numbers", 0);
  o.n_subintervals = vp_in_u("sub", 0);
}
inline void same_options(const PlotOptions& o, const PlotOptions& w)
{
  vp_true("outputDir", o.outputDir == w.outputDir);
  vp_true("fileName", o.fileName == w.fileName);
  vp_true("fileEnding", o.fileEnding == w.fileEnding);
  vp_eq_u("fileNumber", 0, o.fileNumber, w.fileNumber);
  vp_eq_u("printFileNumber", 0, o.printFileNumber, w.printFileNumber);
  vp_eq_u("incrementFileNumber", 0, o.incrementFileNumber, w.incrementFileNumber);
  vp_eq_u("plotEdgeBoundaries", 0, o.plot_edge_boundaries, w.plot_edge_boundaries);
  vp_eq_u("plotEdges", 0, o.plot_edges, w.plot_edges);
  vp_eq_d("scale", 0, o.scale, w.scale);
  vp_eq_d("boundaryScale", 0, o.boundary_scale, w.boundary_scale);
  vp_eq_u("numbers", 0, o.numbers, w.numbers);
  vp_eq_u("n_subintervals", 0, o.n_subintervals, w.n_subintervals);
}
constexpr const char* option_name(uint k)
{
  constexpr const char* n[] = {"outputDir", "fileName", "fileNumber", "printFileNumber", "incrementFileNumber", "plotEdges",
                               "plotEdgeBoundaries", "scale", "boundaryScale", "fileEnding"};
  return n[k];
}
inline bool& flag(PlotOptions& o, uint k)
{
  return k == 3 ? o.printFileNumber : k == 4 ? o.incrementFileNumber : k == 5 ? o.plot_edges : o.plot_edge_boundaries;
}
// setting an option changes this option only, and the new value is returned
//@unit P22 set_text<{k}> k=0,1
template <uint k> void set_text()
{
  PlotOptions o, w;
  in_options(o);
  in_options(w);
  const std::string v = vp_str("value");
  vp_assume(v != "");
  const std::string r = set_plot_option(o, option_name(k), v);
  (k == 0 ? w.outputDir : w.fileName) = v;
  same_options(o, w);
  vp_true("returned value", r == v);
  vp_true("queried value", set_plot_option(o, option_name(k)) == v);
  same_options(o, w);
}
constexpr const char* value_text(uint k)
{
  constexpr const char* n[] = {"true", "1", "false", "0", "yes", "True"};
  return n[k];
}
//@unit P22 set_flag<{k},{v}> k=3,4,5,6 v=0,1,2,3,4,5
template <uint k, uint v> void set_flag()
{
  PlotOptions o, w;
  in_options(o);
  in_options(w);
  const std::string r = set_plot_option(o, option_name(k), value_text(v));
  flag(w, k) = v < 2;
  same_options(o, w);
  vp_true("returned value", r == (v < 2 ? "1" : "0"));
  vp_true("queried value", set_plot_option(o, option_name(k)) == r);
  // what is returned may be set again
  vp_true("value set again", set_plot_option(o, option_name(k), r) == r);
  same_options(o, w);
}
//@unit P22 set_number<{v}> v=0,1,17,4096,2000000000
template <uint v> void set_number()
{
  PlotOptions o, w;
  in_options(o);
  in_options(w);
  const std::string r = set_plot_option(o, "fileNumber", std::to_string(v));
  w.fileNumber = v;
  same_options(o, w);
  vp_true("returned value", r == std::to_string(v));
  vp_true("queried value", set_plot_option(o, "fileNumber") == r);
  same_options(o, w);
}
//@unit P22 set_any_number<>
template <uint = 0> void set_any_number()
{
  PlotOptions o, w;
  in_options(o);
  in_options(w);
  std::string v;
  vp_text_(&v, "%d", vp_in_i("new", 0));
  const std::string r = set_plot_option(o, "fileNumber", v);
  w.fileNumber = vp_in_i("new", 0);
  same_options(o, w);
  vp_true("returned value", r == std::to_string((unsigned)vp_in_i("new", 0)));
}
//@unit P22 set_scale<{k},{v}> k=7,8 v=0,1,2,3
template <uint k, uint v> void set_scale()
{
  constexpr const char* txt[] = {"0.5", "1", "0.25", "2.5"};
  constexpr float val[] = {0.5, 1., 0.25, 2.5};
  PlotOptions o, w;
  in_options(o);
  in_options(w);
  const std::string r = set_plot_option(o, option_name(k), txt[v]);
  (k == 7 ? w.scale : w.boundary_scale) = val[v];
  same_options(o, w);
  vp_eq_d("returned value", 0, std::stof(r), val[v]);
  vp_eq_d("queried value", 0, std::stof(set_plot_option(o, option_name(k))), val[v]);
  same_options(o, w);
}
//@unit P22 query<>
template <uint = 0> void query()
{
  PlotOptions o, w;
  in_options(o);
  in_options(w);
  vp_true("outputDir queried", set_plot_option(o, "outputDir") == vp_str("dir"));
  vp_true("fileName queried", set_plot_option(o, "fileName") == vp_str("file"));
  vp_true("fileEnding queried", set_plot_option(o, "fileEnding") == "vtu");
  vp_true("fileEnding set", set_plot_option(o, "fileEnding", "vtu") == "vtu");
  vp_true("fileNumber queried", set_plot_option(o, "fileNumber") == std::to_string(vp_in_u("number", 0)));
  for (uint k = 3; k < 7; ++k)
    vp_true("switch queried", set_plot_option(o, option_name(k)) == (flag(w, k) ? "1" : "0"));
  vp_true("scale queried", set_plot_option(o, "scale") == std::to_string(vp_in_f("scale", 0)));
  vp_true("boundaryScale queried", set_plot_option(o, "boundaryScale") == std::to_string(vp_in_f("bscale", 0)));
  same_options(o, w);
}
//@unit P22 unknown<{v}> v=0,1,2
template <uint v> void unknown()
{
  PlotOptions o, w;
  in_options(o);
  in_options(w);
  VP_ABORT_IFF(true);
  set_plot_option(o, v == 2 ? "fileEnding" : "fileNames", v == 0 ? "" : "pdf");
}
//@unit P22 defaults<>
template <uint = 0> void defaults()
{
  const PlotOptions o;
  vp_true("defaults", o.outputDir == "output" && o.fileName == "example" && o.fileEnding == PlotOptions::vtu && o.fileNumber == 0 &&
                        o.printFileNumber && o.incrementFileNumber && !o.plot_edge_boundaries && o.plot_edges && o.scale == 1.f &&
                        o.boundary_scale == 1.f);
}
