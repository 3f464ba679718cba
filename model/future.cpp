// Out-of-line parts of std::future: QThread::create runs its function as a deferred future
#include "m.h"
#include <future>
#include <mutex>
#include <pthread.h>
extern "C" int symx_thread_id();
namespace std {
__thread void *__once_callable; __thread void (*__once_call)(); // read before any switch of threads, so that one copy serves all of them
extern "C" void __once_proxy() { __once_call(); }
__future_base::_Result_base::_Result_base() {} __future_base::_Result_base::~_Result_base() {}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *p) { symx_wake(p); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *p, unsigned v, bool has, chrono::seconds, chrono::nanoseconds) { if (has) symx_unmodelled("timed wait for a future"); if (*(volatile unsigned *)p == v) symx_wait(p); return true; }
void __throw_future_error(int) { symx_unmodelled("future_error"); } void __throw_system_error(int) { symx_unmodelled("system_error"); }
}
// 0 new, 1 running, 2 done
extern "C" int pthread_once(pthread_once_t *o, void (*f)()) { volatile int *p = o; while (*p == 1) symx_wait((void *)p); if (*p == 0) { *p = 1; f(); symx_release((void *)p); *p = 2; symx_wake((void *)p); } else symx_acquire((void *)p); return 0; }
