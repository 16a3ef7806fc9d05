// Bitcode definitions for the out-of-line parts of libstdc++ that header-only code depends on.
#include <cstddef>
#include <cstdint>
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
extern "C" {
long strtol(const char* s, char** e, int) throw() { const char* p = s; while (*p == ' ') p++; bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; } long r = 0; const char* q = p; while (*p >= '0' && *p <= '9') { r = r * 10 + (*p - '0'); p++; } if (e) *e = (char*)(p == q ? s : p); return neg ? -r : r; }
unsigned long strtoul(const char* s, char** e, int b) throw() { return (unsigned long)strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) throw() { return (unsigned long long)strtol(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) throw() { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) throw() { return strtoul(s, e, b); }
double strtod(const char* s, char** e) throw() { const char* p = s; while (*p == ' ') p++; bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; } double r = 0; const char* q = p; if (*p == 'i' && p[1] == 'n' && p[2] == 'f') { p += 3; r = __builtin_inf(); } else { while (*p >= '0' && *p <= '9') { r = r * 10 + (*p - '0'); p++; } if (*p == '.') { p++; double k = 1; while (*p >= '0' && *p <= '9') { k *= 10; r = r * 10 + (*p - '0'); p++; } r /= k; } } if (e) *e = (char*)(p == q ? s : p); return neg ? -r : r; }
int mkdir(const char*, unsigned) throw() { return 0; }
static int errno_; int* __errno_location() throw() { return &errno_; }
}
namespace std {
typedef _Rb_tree_node_base* BP; typedef const _Rb_tree_node_base* CBP;
static BP inc_(BP x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { BP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static BP dec_(BP x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { BP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { BP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
BP _Rb_tree_increment(BP x) throw() { return inc_(x); }
CBP _Rb_tree_increment(CBP x) throw() { return inc_(const_cast<BP>(x)); }
BP _Rb_tree_decrement(BP x) throw() { return dec_(x); }
CBP _Rb_tree_decrement(CBP x) throw() { return dec_(const_cast<BP>(x)); }
static void rotl(BP x, BP& root) { BP y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(BP x, BP& root) { BP y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, BP x, BP p, _Rb_tree_node_base& h) throw() {
  BP& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    BP g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) { BP y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); } }
    else { BP y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); } }
  }
  root->_M_color = _S_black;
}
BP _Rb_tree_rebalance_for_erase(BP const z, _Rb_tree_node_base& h) throw() {
  BP& root = h._M_parent; BP& leftmost = h._M_left; BP& rightmost = h._M_right; BP y = z, x = 0, xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { BP q = x; while (q->_M_left) q = q->_M_left; leftmost = q; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { BP q = x; while (q->_M_right) q = q->_M_right; rightmost = q; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        BP w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; }
      } else {
        BP w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base& a, _List_node_base& b) noexcept { if (a._M_next != &a) { if (b._M_next != &b) { auto t = a._M_next; a._M_next = b._M_next; b._M_next = t; t = a._M_prev; a._M_prev = b._M_prev; b._M_prev = t; a._M_next->_M_prev = a._M_prev->_M_next = &a; b._M_next->_M_prev = b._M_prev->_M_next = &b; } else { b._M_next = a._M_next; b._M_prev = a._M_prev; b._M_next->_M_prev = b._M_prev->_M_next = &b; a._M_next = a._M_prev = &a; } } else if (b._M_next != &b) { a._M_next = b._M_next; a._M_prev = b._M_prev; a._M_next->_M_prev = a._M_prev->_M_next = &a; b._M_next = b._M_prev = &b; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { auto n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
}
}
