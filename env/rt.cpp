// C and C++ run-time pieces for the engine (not used natively).
#include "vf.h"
#include <typeinfo>
#include <exception>
#include <stdexcept>
#include <string>
#include <new>
#include <stdio.h>
#include <stdarg.h>
#include <map>
#include <list>
#include <system_error>
#include <future>
enum { MT = 10 };
struct Exc { void* obj; std::type_info* ti; void (*dtor)(void*); long rc; Exc* primary; long handlers; Exc* next; void* adj; };
static Exc* caught[MT]; static int uncaught[MT];
namespace { void drop(Exc* e) { Exc* p = e->primary; if (e != p) vf_free(e); if (--p->rc == 0) { if (p->dtor) p->dtor(p->obj); vf_free(p); } } }
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { Exc* e = (Exc*)vf_malloc(sizeof(Exc) + n); e->obj = e + 1; e->rc = 0; e->primary = e; e->handlers = 0; e->next = 0; e->adj = 0; e->ti = 0; e->dtor = 0; return e + 1; }
void __cxa_free_exception(void* o) noexcept { vf_free((Exc*)o - 1); }
void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) { Exc* e = (Exc*)o - 1; e->ti = ti; e->dtor = d; e->rc = 1; uncaught[vf_tid()]++; vf_raise(e); }
void* __cxa_begin_catch(void* u) noexcept { Exc* e = (Exc*)u; int t = vf_tid(); uncaught[t]--; if (e->handlers < 0) e->handlers = -e->handlers + 1; else e->handlers++; if (caught[t] != e) { e->next = caught[t]; caught[t] = e; } return e->adj; }
void __cxa_end_catch() { int t = vf_tid(); Exc* e = caught[t]; if (!e) return;
  if (e->handlers < 0) { if (++e->handlers == 0) caught[t] = e->next; return; } // being rethrown
  if (--e->handlers == 0) { caught[t] = e->next; drop(e); } }
void __cxa_rethrow() { int t = vf_tid(); Exc* e = caught[t]; if (!e) vf_fail("rethrow without an active exception (std::terminate)"); e->handlers = -e->handlers; uncaught[t]++; vf_raise(e); }
void* __cxa_get_exception_ptr(void* u) noexcept { return ((Exc*)u)->adj; }
void __asan_poison_cxx_array_cookie(unsigned long) {}
unsigned long __asan_load_cxx_array_cookie(unsigned long* p) { return *p; }
void __cxa_pure_virtual() { vf_fail("pure virtual call"); }
void __cxa_deleted_virtual() { vf_fail("deleted virtual call"); }
int __cxa_guard_acquire(long* g) { int* p = (int*)g; char* d = (char*)g; if (*d) { vf_hb_acquire(g); return 0; } while (p[1]) { vf_await(&p[1], 0, 0, 0, 0, 0); if (*d) { vf_hb_acquire(g); return 0; } } p[1] = 1; return 1; }
void __cxa_guard_release(long* g) { vf_hb_release(g); *(char*)g = 1; ((int*)g)[1] = 0; }
void __cxa_guard_abort(long* g) { ((int*)g)[1] = 0; }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int __cxa_thread_atexit(void (*)(void*), void*, void*) { vf_fail("thread_local destructors are outside the model"); }
void __cxa_call_unexpected(void*) { vf_fail("unexpected exception (std::terminate)"); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __assert_fail(const char* e, const char*, unsigned, const char*) noexcept { vf_fail(e); }
void abort() noexcept { vf_fail("abort called"); }
void* malloc(size_t n) noexcept { return vf_malloc(n); }
void free(void* p) noexcept { vf_free(p); }
int memcmp(const void* a, const void* b, size_t n) noexcept { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) noexcept { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return 1; return 0; }
const void* memchr_(const void* a, int c, size_t n) __asm__("memchr");
const void* memchr_(const void* a, int c, size_t n) { const unsigned char* x = (const unsigned char*)a; size_t r = n; bool f = false; for (size_t i = n; i-- > 0;) { bool e = x[i] == (unsigned char)c; r = e ? i : r; f |= e; } return f ? x + r : 0; }
size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) noexcept { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) noexcept { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcpy(char* d, const char* s) noexcept { char* r = d; while ((*d++ = *s++)) ; return r; }
char* strerror_r(int, char* b, size_t n) noexcept { if (n) b[0] = 0; return b; }
char* strerror(int) noexcept { static char e[1]; return e; }
static int fmt(char* b, size_t n) { if (n) b[0] = 0; return 0; }
int snprintf(char* b, size_t n, const char*, ...) noexcept { return fmt(b, n); }
int vsnprintf(char* b, size_t n, const char*, va_list) noexcept { return fmt(b, n); }
int sprintf(char* b, const char*, ...) noexcept { return fmt(b, 1); }
int fprintf(FILE*, const char*, ...) { return 0; }
int printf(const char*, ...) { return 0; }
int fputs(const char*, FILE*) { return 0; }
int fputc(int, FILE*) { return 0; }
int puts(const char*) { return 0; }
int fflush(FILE*) { return 0; }
void _ZNSt12__cow_stringC1Ev(void** p) { *p = 0; } void _ZNSt12__cow_stringC2Ev(void** p) { *p = 0; } void _ZNSt12__cow_stringD1Ev(void**) {} void _ZNSt12__cow_stringD2Ev(void**) {}
void _ZNSt12__cow_stringC1ERKS_(void** p, void**) { *p = 0; } void _ZNSt12__cow_stringC2ERKS_(void** p, void**) { *p = 0; } void _ZNSt12__cow_stringC1EOS_(void** p, void**) { *p = 0; } void* _ZNSt12__cow_stringaSERKS_(void** p, void**) { return p; } void* _ZNSt12__cow_stringaSEOS_(void** p, void**) { return p; }
static int errno_[MT];
int* __errno_location() noexcept { return &errno_[vf_tid()]; }
}
namespace __gxx_personality { }
extern "C" int __gxx_personality_v0(...) { return 0; }
namespace std {
const char* type_info_dummy;
type_info::~type_info() {}
void terminate() noexcept { if (vf_cfg_terminate) { vf_reach("terminated"); vf_stop(); } vf_fail("std::terminate called"); }
bool uncaught_exception() noexcept { return uncaught[vf_tid()] != 0; }
int uncaught_exceptions() noexcept { return uncaught[vf_tid()]; }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "bad_typeid"; }
#define SE(n, b) n::~n() noexcept {}
logic_error::logic_error(const char*) {} logic_error::logic_error(const string&) {} logic_error::logic_error(const logic_error&) noexcept {} logic_error& logic_error::operator=(const logic_error&) noexcept { return *this; }
logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return "logic_error"; }
runtime_error::runtime_error(const char*) {} runtime_error::runtime_error(const string&) {} runtime_error::runtime_error(const runtime_error&) noexcept {} runtime_error& runtime_error::operator=(const runtime_error&) noexcept { return *this; }
runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return "runtime_error"; }
logic_error::logic_error(logic_error&&) noexcept {} runtime_error::runtime_error(runtime_error&&) noexcept {}
#define DERIV(n, b) n::n(const char* s) : b(s) {} n::n(const string& s) : b(s) {} n::~n() noexcept {}
DERIV(invalid_argument, logic_error) DERIV(length_error, logic_error) DERIV(out_of_range, logic_error) DERIV(domain_error, logic_error) DERIV(overflow_error, runtime_error) DERIV(range_error, runtime_error)
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
template class basic_string<char>;
// exception_ptr
namespace __exception_ptr {
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) ((Exc*)_M_exception_object - 1)->rc++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { Exc* p = (Exc*)_M_exception_object - 1; _M_exception_object = 0; if (--p->rc == 0) { if (p->dtor) p->dtor(p->obj); vf_free(p); } } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
}
exception_ptr current_exception() noexcept { Exc* e = caught[vf_tid()]; if (!e) return exception_ptr(); exception_ptr r; void* o = e->primary->obj; e->primary->rc++; *(void**)(void*)&r = o; return r; }
void rethrow_exception(exception_ptr p) { Exc* pr = (Exc*)(*(void**)(void*)&p) - 1; Exc* e = (Exc*)vf_malloc(sizeof(Exc)); e->obj = pr->obj; e->ti = pr->ti; e->dtor = 0; e->rc = 0; e->primary = pr; e->handlers = 0; e->next = 0; e->adj = 0; pr->rc++; uncaught[vf_tid()]++; { exception_ptr q; q.swap(p); } vf_raise(e); }
// red-black trees
static void rotl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) { _Rb_tree_node_base* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) { _Rb_tree_node_base* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  _Rb_tree_node_base*& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) { _Rb_tree_node_base* const g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) { _Rb_tree_node_base* const y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); } }
    else { _Rb_tree_node_base* const y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); } } }
  root->_M_color = _S_black; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& lm = h._M_left; _Rb_tree_node_base*& rm = h._M_right; _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { _Rb_tree_node_base* q = x; while (q->_M_left) q = q->_M_left; lm = q; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { _Rb_tree_node_base* q = x; while (q->_M_right) q = q->_M_right; rm = q; } } }
  if (y->_M_color != _S_red) { while (x != root && (!x || x->_M_color == _S_black))
    if (x == xp->_M_left) { _Rb_tree_node_base* w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
      if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
      else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; } }
    else { _Rb_tree_node_base* w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
      if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
      else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; } }
    if (x) x->_M_color = _S_black; }
  return y; }
static _Rb_tree_node_base* incr(_Rb_tree_node_base* x) noexcept { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* decr(_Rb_tree_node_base* x) noexcept { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return incr(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return incr((_Rb_tree_node_base*)x); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return decr((_Rb_tree_node_base*)x); }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept { if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first; _List_node_base* const tmp = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp; } }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
}
