// The out-of-line parts of std::map/set and std::list, compiled with instrumentation so that their
// memory accesses are monitored too (libstdc++.so itself is not instrumented).
#include <map>
#include <list>
namespace std {
typedef _Rb_tree_node_base N;
static N * inc(N * x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  N * y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static N * dec(N * x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { N * y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  N * y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
N * _Rb_tree_increment(N * x) throw() { return inc(x); }
const N * _Rb_tree_increment(const N * x) throw() { return inc(const_cast<N *>(x)); }
N * _Rb_tree_decrement(N * x) throw() { return dec(x); }
const N * _Rb_tree_decrement(const N * x) throw() { return dec(const_cast<N *>(x)); }
static void rotl(N * x, N *& root) {
  N * y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotr(N * x, N *& root) {
  N * y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, N * x, N * p, N & h) throw() {
  N *& root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    N * g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      N * u = g->_M_right;
      if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); }
    } else {
      N * u = g->_M_left;
      if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); }
    }
  }
  root->_M_color = _S_black;
}
N * _Rb_tree_rebalance_for_erase(N * const z, N & h) throw() {
  N *& root = h._M_parent; N * y = z, * x = 0, * xp = 0;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
    y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { N * m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { N * m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black)) {
      if (x == xp->_M_left) {
        N * w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
        }
      } else {
        N * w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
        }
      }
    }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
typedef _List_node_base L;
void L::_M_hook(L * const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void L::_M_unhook() noexcept { L * n = _M_next, * p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void L::_M_transfer(L * const f, L * const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; L * t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void L::swap(L & x, L & y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { L * t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void L::_M_reverse() noexcept { L * t = this; do { L * n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = t->_M_prev; } while (t != this); }
}
}
