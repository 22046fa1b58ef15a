#ifndef VC_THREADS_HPP
#define VC_THREADS_HPP
// Threads in contracts. In the verifier a contract is one thread; what other threads do happens where this one waits, unlocks or joins,
// by the functions registered here. Natively the same functions run in threads of their own.
#include "vc.hpp"
extern "C" {
void vc_guard(const void *p, unsigned long n);   // from here on: shared data, to be accessed with a mutex inside it held (or by atomics)
void vc_gone(const void *p, unsigned long n);    // from here on: may have been destroyed by another thread
void vc_unguard();
unsigned long vc_locks_held();
}
namespace vct {
extern void (*on_wait)(int);        // another thread's step, when this thread waits for the k-th time
extern void (*on_unlock)();         // another thread's step, whenever this thread releases a mutex
extern int waits, notified;         // waits of this thread, notifications by this thread
extern int started, joined;         // threads started and joined
void run_detached();
}
#endif
