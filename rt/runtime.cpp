// Bitcode bodies for the parts of libstdc++.so that containers call out of line.
// They follow the library's contracts; the red-black tree is kept as a plain search
// tree, which iterates and searches identically.
#include <map>
#include <list>
#include <unordered_map>
#include <cstdint>
namespace std {
typedef _Rb_tree_node_base N;
N * _Rb_tree_increment(N * x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  N * y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const N * _Rb_tree_increment(const N * x) throw() { return _Rb_tree_increment(const_cast<N *>(x)); }
N * _Rb_tree_decrement(N * x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { N * y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  N * y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const N * _Rb_tree_decrement(const N * x) throw() { return _Rb_tree_decrement(const_cast<N *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N * x, N * p, N & h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
N * _Rb_tree_rebalance_for_erase(N * const z, N & h) throw() {
  // leftmost and rightmost
  if (h._M_left == z) h._M_left = z->_M_right ? N::_S_minimum(z->_M_right) : z->_M_parent;
  if (h._M_right == z) h._M_right = z->_M_left ? N::_S_maximum(z->_M_left) : z->_M_parent;
  N * r;
  if (!z->_M_left) r = z->_M_right;
  else if (!z->_M_right) r = z->_M_left;
  else {
    r = N::_S_minimum(z->_M_right);
    if (r->_M_parent != z) {
      r->_M_parent->_M_left = r->_M_right;
      if (r->_M_right) r->_M_right->_M_parent = r->_M_parent;
      r->_M_right = z->_M_right; z->_M_right->_M_parent = r;
    }
    r->_M_left = z->_M_left; z->_M_left->_M_parent = r;
  }
  if (r) r->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = r;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
  else z->_M_parent->_M_right = r;
  return z;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t p[] = {2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 53, 97, 193, 389, 769, 1543, 3079};
  for (size_t q : p) if (q >= n) { _M_next_resize = q; return q; }
  _M_next_resize = n; return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const {
  if (e + i > _M_next_resize || b < e + i) {
    size_t n = e + i; if (n < b * 2) n = b * 2; if (n < 11) n = 11;
    return {true, _M_next_bkt(n)};
  }
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base * const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base * const f, _List_node_base * const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base * const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
}
size_t _Hash_bytes(const void * p, size_t n, size_t seed) {
  const unsigned char * c = (const unsigned char *)p; size_t h = seed;
  for (size_t i = 0; i < n; i++) h = h * 131 + c[i];
  return h;
}
}
