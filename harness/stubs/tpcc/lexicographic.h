// Stand-in for the tensor product chain complex library (a submodule that is not part of the source tree):
// k-dimensional faces of an n-dimensional tensor product grid, enumerated lexicographically (directions first).
#pragma once
#include <array>
namespace TPCC
{
enum class boundaries
{
  both,
  low,
  high,
  none
};
template <typename T> constexpr T binomial(T n, T k)
{
  if (k > n)
    return 0;
  T r = 1;
  for (T i = 1; i <= k; ++i)
    r = r * (n - k + i) / i;
  return r;
}
template <unsigned int n, unsigned int k, typename Sint = unsigned int, typename Tint = unsigned int> class Element
{
 public:
  static constexpr unsigned int n_val = n, k_val = k;
  std::array<Tint, k> along_{};       // directions the element extends in, increasing
  std::array<Tint, n - k> across_{};  // the others, increasing
  std::array<Sint, n> coord_{};       // coordinate for every direction
  static constexpr Tint n_facets() { return 2 * k; }
  constexpr Tint along_direction(Tint i) const { return along_[i]; }
  constexpr Tint across_direction(Tint i) const { return across_[i]; }
  constexpr Sint along_coordinate(Tint i) const { return coord_[along_[i]]; }
  constexpr Sint across_coordinate(Tint i) const { return coord_[across_[i]]; }
  constexpr Element<n, k == 0 ? 0 : k - 1, Sint, Tint> facet(Tint index) const
  {
    Element<n, k == 0 ? 0 : k - 1, Sint, Tint> f;
    if constexpr (k > 0)
    {
      const Tint d = along_[index / 2];
      Tint m = 0;
      for (Tint i = 0; i < k; ++i)
        if (along_[i] != d)
          f.along_[m++] = along_[i];
      m = 0;
      for (Tint j = 0; j < n; ++j)
      {
        bool in = false;
        for (Tint i = 0; i < k; ++i)
          in = in || (along_[i] == j && j != d);
        if (!in)
          f.across_[m++] = j;
      }
      f.coord_ = coord_;
      f.coord_[d] = coord_[d] + index % 2;
    }
    return f;
  }
  // position among the subsets of k directions
  constexpr Tint direction_index() const
  {
    Tint r = 0;
    for (Tint m = 0; m < (Tint(1) << n); ++m)
    {
      Tint bits = 0, own = 0;
      for (Tint j = 0; j < n; ++j)
        bits += (m >> j) & 1;
      for (Tint i = 0; i < k; ++i)
        own |= Tint(1) << along_[i];
      if (bits == k)
      {
        if (m == own)
          return r;
        ++r;
      }
    }
    return r;
  }
};
template <unsigned int n,
          unsigned int k,
          boundaries bnd = boundaries::both,
          typename Bint = unsigned int,
          typename Sint = unsigned int,
          typename Tint = unsigned int>
class Lexicographic
{
 public:
  typedef Element<n, k, Sint, Tint> value_type;
  std::array<Sint, n> dim_{};
  constexpr Lexicographic() = default;
  template <typename I> constexpr Lexicographic(const std::array<I, n>& d)
  {
    for (Tint i = 0; i < n; ++i)
      dim_[i] = d[i];
  }
  static constexpr Sint first(bool along) { return along || bnd == boundaries::both || bnd == boundaries::low ? 0 : 1; }
  constexpr Sint count(Tint dir, bool along) const
  {
    if (along)
      return dim_[dir];
    return bnd == boundaries::both ? dim_[dir] + 1 : bnd == boundaries::none ? (dim_[dir] == 0 ? 0 : dim_[dir] - 1) : dim_[dir];
  }
  constexpr Bint block(Tint mask) const
  {
    Bint r = 1;
    for (Tint j = 0; j < n; ++j)
      r *= count(j, (mask >> j) & 1);
    return r;
  }
  static constexpr Tint bits(Tint m)
  {
    Tint r = 0;
    for (Tint j = 0; j < n; ++j)
      r += (m >> j) & 1;
    return r;
  }
  constexpr Bint size() const
  {
    Bint r = 0;
    for (Tint m = 0; m < (Tint(1) << n); ++m)
      if (bits(m) == k)
        r += block(m);
    return r;
  }
  constexpr value_type operator[](Bint index) const
  {
    value_type e;
    for (Tint m = 0; m < (Tint(1) << n); ++m)
    {
      if (bits(m) != k)
        continue;
      const Bint b = block(m);
      if (index >= b)
      {
        index -= b;
        continue;
      }
      Tint a = 0, c = 0;
      for (Tint j = 0; j < n; ++j)
      {
        const bool al = (m >> j) & 1;
        if (al)
          e.along_[a++] = j;
        else
          e.across_[c++] = j;
        const Sint s = count(j, al);
        e.coord_[j] = index % s + first(al);
        index /= s;
      }
      return e;
    }
    return e;
  }
  constexpr Bint index(const value_type& e) const
  {
    Tint own = 0;
    for (Tint i = 0; i < k; ++i)
      own |= Tint(1) << e.along_[i];
    Bint r = 0;
    for (Tint m = 0; m < own; ++m)
      if (bits(m) == k)
        r += block(m);
    Bint f = 1;
    for (Tint j = 0; j < n; ++j)
    {
      const bool al = (own >> j) & 1;
      r += f * (e.coord_[j] - first(al));
      f *= count(j, al);
    }
    return r;
  }
  // position within the elements that only differ in the coordinates along their directions
  constexpr Bint index_in_slice(const value_type& e) const
  {
    Bint r = 0, f = 1;
    for (Tint i = 0; i < k; ++i)
    {
      r += f * e.coord_[e.along_[i]];
      f *= dim_[e.along_[i]];
    }
    return r;
  }
  template <boundaries b> constexpr Lexicographic<n, k - 1, b, Bint, Sint, Tint> boundary() const
  {
    return Lexicographic<n, k - 1, b, Bint, Sint, Tint>(dim_);
  }
};
}  // namespace TPCC
