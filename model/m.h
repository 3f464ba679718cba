// Shared declarations of the Qt model.  The model defines, against the real Qt 5.15 headers, the out-of-line members
// the code under test calls; every inline member and template stays the real one.
#pragma once
#include "symx.h"
#include <cstdlib>
#include <cstring>
#include <climits>
extern "C" {
void symx_check_readable(const void *p, unsigned long n);
[[noreturn]] void symx_unmodelled(const char *what);
int symx_is_symbolic(unsigned long v);
int symx_thread_create(void (*fn)(void *), void *arg);
void symx_thread_join_all();
void symx_yield();
void symx_wait(void *addr);
void symx_wake(void *addr);
void symx_acquire(void *addr);
void symx_release(void *addr);
int symx_thread_id();
int symx_threads_active();
}
