// Harness interface to the symbolic executor (and to the native replay runtime).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
void symx_make_symbolic(void *p, unsigned long n, const char *name);
void symx_assume(bool c);
void symx_check(bool c, const char *msg);
void symx_fail(const char *msg);
void symx_cover(const char *label);
void symx_event(const char *label);
void symx_print(const char *label, unsigned long v);
long symx_param(const char *name, long def);
unsigned long symx_concretize(unsigned long v);
int symx_is_live(const void *p);
long symx_heap_live();
void symx_abort_path();
int symx_thread_create(void (*fn)(void *), void *arg);
void symx_thread_join_all();
}
#define HARNESS(name) extern "C" void name()
template <class T> inline T sym(const char *name) { T t; symx_make_symbolic(&t, sizeof(T), name); return t; }
// symbolic value in [0, n), concretized (one path per value)
inline unsigned choose(const char *name, unsigned n) { unsigned char c = sym<unsigned char>(name); symx_assume(c < n); return (unsigned)symx_concretize(c); }
