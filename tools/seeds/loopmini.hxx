// A chain of two unit boxes for demonstrations of local solvers in global loops (include lsolmini.hxx before).
#pragma once
template <uint D> struct LTopo
{
  struct ctor
  {
    uint n = 2;
  };
  struct value_type
  {
    uint idx;
    SmallVec<2 * D, uint> get_hyNode_indices() const
    {
      SmallVec<2 * D, uint> v;
      for (uint i = 0; i < 2 * D; ++i)
        v[i] = idx * (2 * D - 1) + i;
      return v;
    }
  };
  typedef ctor constructor_value_type;
  ctor c;
  LTopo(const ctor& cc) : c(cc) {}
  static constexpr uint hyEdge_dim() { return D; }
  static constexpr uint space_dim() { return D; }
  const value_type operator[](const uint i) const { return value_type{i}; }
  const uint n_hyEdges() const { return c.n; }
  const uint n_hyNodes() const { return c.n * (2 * D - 1) + 1; }
  uint get_refinement() const { return 1; }
  void set_refinement(uint) {}
};
template <uint D> struct LGeom
{
  typedef BoxGeo<D> value_type;
  typedef typename LTopo<D>::ctor constructor_value_type;
  LGeom(const constructor_value_type&) {}
  LGeom(const LTopo<D>&) {}
  static constexpr uint hyEdge_dim() { return D; }
  static constexpr uint space_dim() { return D; }
  const value_type operator[](const uint i) const
  {
    value_type b;
    b.o.fill(0.);
    b.o[0] = i;
    b.h.fill(1.);
    return b;
  }
  uint get_refinement() const { return 1; }
  void set_refinement(uint) {}
};
template <uint D> struct LNode
{
  struct value_type
  {
    uint operator[](const uint) const { return 0; }
  };
  LNode(const LTopo<D>&) {}
  const value_type operator[](const uint) const { return value_type{}; }
  uint get_refinement() const { return 1; }
  void set_refinement(uint) {}
};
