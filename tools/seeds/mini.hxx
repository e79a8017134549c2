// Small stand-alone hypergraph parts for the demonstrations.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hypercube.hxx>
typedef unsigned int uint;
inline int demo_bad = 0;
#define CHECK(c) \
  do { if (!(c)) { std::printf("FAILED: %s (line %d)\n", #c, __LINE__); demo_bad = 1; } } while (0)
struct Chain
{
  uint n_edges = 2;
};
template <uint dim> struct Topo
{
  struct value_type
  {
    uint idx;
    SmallVec<2 * dim, uint> get_hyNode_indices() const
    {
      SmallVec<2 * dim, uint> v;
      for (uint i = 0; i < 2 * dim; ++i)
        v[i] = idx * (2 * dim - 1) + i;
      return v;
    }
  };
  typedef Chain constructor_value_type;
  Chain c;
  uint ref = 1;
  Topo(const Chain& cc) : c(cc) {}
  static constexpr uint hyEdge_dim() { return dim; }
  static constexpr uint space_dim() { return dim; }
  const value_type operator[](const uint i) const { return value_type{i}; }
  const uint n_hyEdges() const { return c.n_edges * ref; }
  const uint n_hyNodes() const { return n_hyEdges() * (2 * dim - 1) + 1; }
  uint get_refinement() const { return ref; }
  void set_refinement(uint r) { ref = r; }
};
template <uint dim> struct Geom
{
  struct value_type
  {
    uint idx;
  };
  typedef Chain constructor_value_type;
  uint ref = 1;
  Geom(const Chain&) {}
  Geom(const Topo<dim>&) {}
  static constexpr uint hyEdge_dim() { return dim; }
  static constexpr uint space_dim() { return dim; }
  const value_type operator[](const uint i) const { return value_type{i}; }
  uint get_refinement() const { return ref; }
  void set_refinement(uint r) { ref = r; }
};
template <uint dim> struct Node
{
  struct value_type
  {
    uint idx;
    uint operator[](const uint) const { return 0; }
  };
  uint ref = 1;
  Node(const Topo<dim>&) {}
  const value_type operator[](const uint i) const { return value_type{i}; }
  uint get_refinement() const { return ref; }
  void set_refinement(uint r) { ref = r; }
};
// geometry and solver that can be plotted: hyperedge i is the unit cube moved by i
template <uint dim> struct PGeom
{
  struct value_type
  {
    uint idx;
    template <uint n, class F> Point<dim, double> lexicographic(uint k, const SmallVec<n, F>& p) const
    {
      Point<dim, double> r;
      for (uint j = 0; j < dim; ++j, k /= n)
        r[j] = p[k % n] + (j == 0 ? idx : 0);
      return r;
    }
    template <uint n, class F> Point<dim, double> boundary_lexicographic(uint k, uint b, float s, const SmallVec<n, F>& p) const
    {
      Point<dim, double> r;
      for (uint j = 0; j < dim; ++j)
        if (j == b / 2)
          r[j] = s * (b % 2 - .5) + .5 + (j == 0 ? idx : 0);
        else
          r[j] = p[k % n] + (j == 0 ? idx : 0), k /= n;
      return r;
    }
  };
  typedef Chain constructor_value_type;
  uint ref = 1;
  PGeom(const Chain&) {}
  PGeom(const Topo<dim>&) {}
  static constexpr uint hyEdge_dim() { return dim; }
  static constexpr uint space_dim() { return dim; }
  const value_type operator[](const uint i) const { return value_type{i}; }
  uint get_refinement() const { return ref; }
  void set_refinement(uint r) { ref = r; }
};
struct PNone
{
};
template <uint dim, uint sd = 1, uint nd = 1> struct PSol
{
  static constexpr uint system_dimension() { return sd; }
  static constexpr uint node_system_dimension() { return nd; }
  template <class A, size_t m, class L>
  std::array<std::array<double, (1 << dim)>, sd> bulk_values(const std::array<A, m>&, const L& o, const double t) const
  {
    std::array<std::array<double, (1 << dim)>, sd> r;
    for (uint d = 0; d < sd; ++d)
      for (uint c = 0; c < (1 << dim); ++c)
        r[d][c] = o[c % (2 * dim)][0] + 10. * d + t;
    return r;
  }
};
inline std::string slurp(const std::string& f)
{
  std::ifstream i(f);
  return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
}
// numbers of the data array with this name ("" : the points)
inline std::vector<double> data_array(const std::string& s, const std::string& name)
{
  size_t p = name.empty() ? s.find("<Points>") : s.find("Name=\"" + name);
  std::vector<double> v;
  if (p == std::string::npos)
    return v;
  if (name.empty())
    p = s.find("<DataArray", p);
  p = s.find('>', p) + 1;
  std::istringstream in(s.substr(p, s.find('<', p) - p));
  for (double x; in >> x;)
    v.push_back(x);
  return v;
}
