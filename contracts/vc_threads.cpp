// Verifier only: mutexes, condition variables and threads as ghost state. A thread that is started runs when it is joined.
#include "vc_threads.hpp"
#include <mutex>
#include <memory>
#include <sstream>
#include <iosfwd>
#include <compare>
#include <stop_token>
#define private public
#include <bits/std_thread.h>
#undef private
#include <condition_variable>
#include <thread>
#include <pthread.h>

extern "C" { void vc_lock(const void *); void vc_unlock(const void *); void vc_touch(const void *); }
namespace vct {
void (*on_wait)(int) = nullptr;
void (*on_unlock)() = nullptr;
int waits = 0, notified = 0, started = 0, joined = 0;
static std::thread::_State *states[16];
static bool detached[16];
static void released() { if (on_unlock) { auto f = on_unlock; on_unlock = nullptr; f(); on_unlock = f; } }
void run_detached() {
    for (int i = 0; i < started; ++i) if (detached[i] && states[i]) { auto *s = states[i]; states[i] = nullptr; s->_M_run(); delete s; }
}
}
extern "C" {
__attribute__((used)) int pthread_cond_destroy(pthread_cond_t *c) noexcept { vc_touch(c); return 0; }
__attribute__((used)) int pthread_mutex_lock(pthread_mutex_t *m) noexcept { vc_lock(m); return 0; }
__attribute__((used)) int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { vc_unlock(m); vct::released(); return 0; }
__attribute__((used)) int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept { vc_lock(m); return 0; }
__attribute__((used)) int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept { vc_lock(m); return 0; }
__attribute__((used)) int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept { vc_unlock(m); vct::released(); return 0; }
}
namespace std {
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept { vc_touch(this); }
void condition_variable::wait(unique_lock<mutex> &l) {
    vc_check(l.owns_lock(), "a thread waits with the mutex held");
    vc_check(vct::on_wait != nullptr, "a thread does not wait for what never happens");
    vc_assume(vct::on_wait != nullptr);
    if (!vct::on_wait) return;
    vc_unlock(l.mutex());
    vct::on_wait(vct::waits++);
    vc_lock(l.mutex());
}
void condition_variable::notify_one() noexcept { vc_touch(this); ++vct::notified; }
void condition_variable::notify_all() noexcept { vc_touch(this); ++vct::notified; }
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) {
    vct::states[vct::started] = s.release();
    _M_id = id(static_cast<native_handle_type>(++vct::started));
}
void thread::join() {
    auto k = static_cast<unsigned long>(native_handle()) - 1;
    vc_check(joinable(), "only a running thread is joined");
    auto *s = vct::states[k];
    vct::states[k] = nullptr;
    ++vct::joined;
    s->_M_run();
    delete s;
    _M_id = id();
}
void thread::detach() {
    auto k = static_cast<unsigned long>(native_handle()) - 1;
    vct::detached[k] = true;
    _M_id = id();
}
}
