// Prelude of every obligation unit.
#ifndef OGM_PRELUDE_HXX
#define OGM_PRELUDE_HXX
#include <cstddef>
#include <limits>
#include <vector>
#include <set>
#include <map>
#include <cmath>
#include <iostream>
#include <sstream>
#include <cstdint>

// Ordered-container primitives that libstdc++ keeps out of line, by their contract (an unbalanced
// search tree: balance is not observable).
namespace std {
inline __attribute__((always_inline)) void ogm_dummy(){}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
   if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; return x; }
   _Rb_tree_node_base* y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
   if(x->_M_color==_S_red && x->_M_parent->_M_parent==x) return x->_M_right;
   if(x->_M_left){ x=x->_M_left; while(x->_M_right) x=x->_M_right; return x; }
   _Rb_tree_node_base* y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } return y; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base* x,_Rb_tree_node_base* p,_Rb_tree_node_base& h) throw() {
   x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black;
   if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; }
   else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } }
}
#define OB(name) extern "C" void fail_##name() noexcept; extern "C" void ok_##name() noexcept; extern "C" __attribute__((noinline)) void ob_##name
#define HOLDS(name,c) do{ if(c) ok_##name(); else fail_##name(); }while(0)
#define MUST_THROW(name) fail_##name()
typedef std::size_t L;
typedef long V;
#endif
