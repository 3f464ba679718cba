// Out-of-line parts of libstdc++ the code uses
#include "m.h"
#include <stdexcept>
#include <functional>
#include <unordered_map>
#include <list>
#include <map>
#include <string>
#include <new>
#include <memory>
extern "C" { char __libc_single_threaded = 0; }
namespace std {
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_function_call::~bad_function_call() noexcept {} const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
static const char *dupc(const char *s, size_t n) { char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
logic_error::logic_error(const char *s) { _M_msg._M_p = dupc(s, strlen(s)); }
logic_error::logic_error(const string &s) { _M_msg._M_p = dupc(s.data(), s.size()); }
logic_error::logic_error(const logic_error &o) noexcept { _M_msg._M_p = dupc(o._M_msg._M_p, strlen(o._M_msg._M_p)); }
logic_error::~logic_error() noexcept { free((void *)_M_msg._M_p); }
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const char *s) { _M_msg._M_p = dupc(s, strlen(s)); }
runtime_error::runtime_error(const string &s) { _M_msg._M_p = dupc(s.data(), s.size()); }
runtime_error::runtime_error(const runtime_error &o) noexcept { _M_msg._M_p = dupc(o._M_msg._M_p, strlen(o._M_msg._M_p)); }
runtime_error::~runtime_error() noexcept { free((void *)_M_msg._M_p); }
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
__cow_string::__cow_string() {} __cow_string::~__cow_string() {}
#define E(C, B) C::C(const char *s) : B(s) {} C::C(const string &s) : B(s) {} C::~C() noexcept {}
E(out_of_range, logic_error) E(invalid_argument, logic_error) E(length_error, logic_error) E(domain_error, logic_error) E(range_error, runtime_error) E(overflow_error, runtime_error) E(underflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_exception() { throw bad_exception(); }
void __throw_logic_error(const char *s) { throw logic_error(s); } void __throw_out_of_range(const char *s) { throw out_of_range(s); } void __throw_length_error(const char *s) { throw length_error(s); } void __throw_invalid_argument(const char *s) { throw invalid_argument(s); } void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); } void __throw_bad_function_call() { throw bad_function_call(); }
namespace __detail {
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 2179, 4349, 8707, 17573, 35507};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (unsigned long p : primes) if (p >= n) { _M_next_resize = (size_t)p; return p; } symx_unmodelled("huge unordered container"); }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
    if (elt + ins > _M_next_resize) { size_t need = elt + ins; if (!_M_next_resize && need < 11) need = 11; if (need >= bkt) { size_t a = need + 1, b = bkt * 2; return {true, _M_next_bkt(a > b ? a : b)}; } _M_next_resize = bkt; return {false, 0}; } return {false, 0}; }
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base &a, _List_node_base &b) noexcept { if (a._M_next != &a) { if (b._M_next != &b) { std::swap(a._M_next, b._M_next); std::swap(a._M_prev, b._M_prev); a._M_next->_M_prev = a._M_prev->_M_next = &a; b._M_next->_M_prev = b._M_prev->_M_next = &b; } else { b._M_next = a._M_next; b._M_prev = a._M_prev; b._M_next->_M_prev = b._M_prev->_M_next = &b; a._M_next = a._M_prev = &a; } } else if (b._M_next != &b) { a._M_next = b._M_next; a._M_prev = b._M_prev; a._M_next->_M_prev = a._M_prev->_M_next = &a; b._M_next = b._M_prev = &b; } }
}
// std::map: an unbalanced search tree (the ordering contract is all the code can observe)
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() { x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; // only the header is red
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *z, _Rb_tree_node_base &h) throw() {
    auto repl = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) { if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
    if (z->_M_left && z->_M_right) { _Rb_tree_node_base *y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
    else repl(z, z->_M_left ? z->_M_left : z->_M_right);
    if (h._M_parent) { _Rb_tree_node_base *m = h._M_parent; while (m->_M_left) m = m->_M_left; h._M_left = m; m = h._M_parent; while (m->_M_right) m = m->_M_right; h._M_right = m; } else h._M_left = h._M_right = &h;
    return z; }
size_t _Hash_bytes(const void *p, size_t n, size_t s) { size_t h = s ^ n; for (size_t i = 0; i < n; ++i) h = h * 31 + ((const unsigned char *)p)[i]; return h; }
}
extern "C" void __assert_fail(const char *a, const char *, unsigned, const char *) noexcept { symx_fail(a); abort(); }
template class std::basic_string<char>; // the library's own code
