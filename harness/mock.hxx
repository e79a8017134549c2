#pragma once
// Mock topology / geometry / node descriptor / local solver for the generic global code.  Every answer of a
// mock is an opaque function of what it was asked, so a result of the analysed code can only have the
// specified normal form if exactly the specified questions were asked with the specified arguments.
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/compile_time_tricks.hxx>
#include <algorithm>
#include <memory>
#include "vp.hxx"
using uint = unsigned int;

// connectivity tables: node(edge, face)
// id 0: chain, 1: reversed chain with gaps, 2: star (all edges share node 0), 3: loops (both ends equal)
template <uint id, uint dim> constexpr uint conn(uint edge, uint face)
{
  if (id == 0)
    return edge * (2 * dim - 1) + face;
  if (id == 1)
    return 7 - (edge + 2 * face) % 8;
  if (id == 2)
    return face == 0 ? 0 : 1 + (edge * (2 * dim - 1) + face - 1) % 7;
  return (edge * 3 + face / 2) % 8;
}
struct MockCtor
{
  uint n_edges, n_nodes, mark;
};
template <uint dim, uint space, uint id> struct MockTopo
{
  struct value_type
  {
    uint idx, ref, mark;
    SmallVec<2 * dim, uint> get_hyNode_indices() const
    {
      SmallVec<2 * dim, uint> v;
      for (uint i = 0; i < 2 * dim; ++i)
        v[i] = conn<id, dim>(idx, i);
      return v;
    }
    uint get_hyNode_oriented(uint) const { return 0; }
  };
  typedef MockCtor constructor_value_type;
  MockCtor c;
  uint ref = 1;
  MockTopo(const MockCtor& cc) : c(cc) {}
  static constexpr uint hyEdge_dim() { return dim; }
  static constexpr uint space_dim() { return space; }
  const value_type operator[](const uint i) const { return value_type{i, ref, c.mark}; }
  const uint n_hyEdges() const { return c.n_edges * ref; }
  const uint n_hyNodes() const { return c.n_nodes * ref; }
  uint get_refinement() const { return ref; }
  void set_refinement(uint r) { ref = r; }
};
template <uint dim, uint space, uint id> struct MockGeom
{
  struct value_type
  {
    uint idx, ref, mark, from_topo;
  };
  typedef MockCtor constructor_value_type;
  MockCtor c;
  uint ref = 1, from_topo;
  MockGeom(const MockCtor& cc) : c(cc), from_topo(0) {}
  MockGeom(const MockTopo<dim, space, id>& t) : c(t.c), from_topo(1) {}
  static constexpr uint hyEdge_dim() { return dim; }
  static constexpr uint space_dim() { return space; }
  const value_type operator[](const uint i) const { return value_type{i, ref, c.mark, from_topo}; }
  uint get_refinement() const { return ref; }
  void set_refinement(uint r) { ref = r; }
};
template <uint dim, uint space, uint id> struct MockNode
{
  struct value_type
  {
    uint idx, ref, mark;
    uint operator[](const uint k) const { return vp_fn_u("node type", 3, idx, k, ref); }
  };
  typedef MockCtor constructor_value_type;
  MockCtor c;
  uint ref = 1;
  MockNode(const MockTopo<dim, space, id>& t) : c(t.c) {}
  const value_type operator[](const uint i) const { return value_type{i, ref, c.mark}; }
  uint get_refinement() const { return ref; }
  void set_refinement(uint r) { ref = r; }
};
