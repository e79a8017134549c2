#pragma once
// Out-of-line parts of the node based standard containers, written down so that the analysis can follow code that uses
// them.  Ordering and linking as the standard library does it, without rebalancing (which is not observable).
#include <set>
#include <map>
#include <list>
#include <unordered_map>
#include <unordered_set>
namespace std
{
__attribute__((weak)) _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
  if (x->_M_right != 0)
  {
    x = x->_M_right;
    while (x->_M_left != 0)
      x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right)
  {
    x = y;
    y = y->_M_parent;
  }
  if (x->_M_right != y)
    x = y;
  return x;
}
__attribute__((weak)) const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
{
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
__attribute__((weak)) _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
    return x->_M_right;
  if (x->_M_left != 0)
  {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right != 0)
      y = y->_M_right;
    return y;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left)
  {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
__attribute__((weak)) const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
{
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
__attribute__((weak)) void _Rb_tree_insert_and_rebalance(const bool insert_left, _Rb_tree_node_base* x,
                                                         _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw()
{
  x->_M_parent = p;
  x->_M_left = 0;
  x->_M_right = 0;
  x->_M_color = _S_black;
  if (insert_left)
  {
    p->_M_left = x;
    if (p == &header)
    {
      header._M_parent = x;
      header._M_right = x;
    }
    else if (p == header._M_left)
      header._M_left = x;
  }
  else
  {
    p->_M_right = x;
    if (p == header._M_right)
      header._M_right = x;
  }
}
__attribute__((weak)) _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,
                                                                       _Rb_tree_node_base& header) throw()
{
  _Rb_tree_node_base* y = z;
  _Rb_tree_node_base* x = 0;
  if (y->_M_left == 0)
    x = y->_M_right;
  else if (y->_M_right == 0)
    x = y->_M_left;
  else
  {
    y = y->_M_right;
    while (y->_M_left != 0)
      y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z)
  {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right)
    {
      if (x)
        x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    }
    if (header._M_parent == z)
      header._M_parent = y;
    else if (z->_M_parent->_M_left == z)
      z->_M_parent->_M_left = y;
    else
      z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    y = z;
  }
  else
  {
    if (x)
      x->_M_parent = y->_M_parent;
    if (header._M_parent == z)
      header._M_parent = x;
    else if (z->_M_parent->_M_left == z)
      z->_M_parent->_M_left = x;
    else
      z->_M_parent->_M_right = x;
    if (header._M_left == z)
    {
      if (z->_M_right == 0)
        header._M_left = z->_M_parent;
      else
        header._M_left = _Rb_tree_node_base::_S_minimum(x);
    }
    if (header._M_right == z)
    {
      if (z->_M_left == 0)
        header._M_right = z->_M_parent;
      else
        header._M_right = _Rb_tree_node_base::_S_maximum(x);
    }
  }
  return y;
}
namespace __detail
{
__attribute__((weak)) void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
  this->_M_next = p;
  this->_M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
__attribute__((weak)) void _List_node_base::_M_unhook() noexcept
{
  _List_node_base* const n = this->_M_next;
  _List_node_base* const p = this->_M_prev;
  p->_M_next = n;
  n->_M_prev = p;
}
__attribute__((weak)) void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
  if (this != last)
  {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
  }
}
__attribute__((weak)) size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
  size_t r = 13;
  while (r < n)
    r = 2 * r + 3;
  _M_next_resize = r;
  return r;
}
__attribute__((weak)) pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const
{
  if (n_elt + n_ins > _M_next_resize)
  {
    const size_t want = n_elt + n_ins;
    if (want >= n_bkt)
      return {true, _M_next_bkt(want + 1)};
    _M_next_resize = n_bkt;
  }
  return {false, 0};
}
}  // namespace __detail
}  // namespace std
