// C19: job queue, workers, dispatcher and counters.
#include "vc_threads.hpp"
#include <edyn/parallel/job.hpp>
#include <edyn/parallel/job_queue.hpp>
#include <edyn/parallel/worker.hpp>
#include <edyn/parallel/job_dispatcher.hpp>
#include <edyn/parallel/atomic_counter_sync.hpp>
#include <thread>
#include <chrono>
#include <atomic>
#include <memory>

#ifdef VC_NATIVE
extern "C" { void vc_guard(const void *, unsigned long) {} void vc_gone(const void *, unsigned long) {} void vc_unguard() {} unsigned long vc_locks_held() { return 0; } }
namespace vct { void (*on_wait)(int); void (*on_unlock)(); int waits, notified, started, joined; void run_detached() {} }
#endif

// in the verifier (also when it evaluates one input) threads are ghost state
#ifdef VC_NATIVE
static constexpr bool ghost = false;
#else
static constexpr bool ghost = true;
#endif
static int ran[8], order[32], count;
static void note(job::data_type &d) { ++ran[d[0] & 7]; order[count++ & 31] = d[0]; }
static job make_job(int k) {
    job j;
    for (size_t i = 0; i < j.data.size(); ++i) j.data[i] = uint8_t(i + k);
    j.data[0] = uint8_t(k);
    j.func = &note;
    return j;
}
static void reset() { for (auto &r : ran) r = 0; count = 0; vct::waits = vct::notified = vct::started = vct::joined = 0; vct::on_wait = nullptr; vct::on_unlock = nullptr; }
static bool same_job(const job &a, const job &b) { return a.data == b.data && a.func == b.func; }

VC_CONTRACT(queue_fifo) {
    reset();
    job_queue q;
    vc_guard(&q, sizeof q);
    vc_check(q.size() == 0, "a new queue is empty");
    job t = make_job(7);
    vc_check(!q.try_pop(t), "nothing is popped from an empty queue");
    vc_check(same_job(t, make_job(7)), "a failed pop leaves its target");
    int pushed = 0, popped = 0;
    // any sequence of pushes and pops that keeps at most three jobs
    for (int step = 0; step < 6; ++step) {
        if (pushed - popped < 3 && (pushed == popped || vc_bool("push"))) {
            int before = vct::notified;
            q.push(make_job(pushed++));
            if (ghost) vc_check(vct::notified > before, "a push wakes a waiting thread");
        } else if (vc_bool("try")) {
            job j;
            vc_check(q.try_pop(j), "a job is popped while there is one");
            vc_check(same_job(j, make_job(popped++)), "jobs come out in the order they went in, unchanged");
        } else {
            auto j = q.pop();
            vc_check(same_job(j, make_job(popped++)), "jobs come out in the order they went in, unchanged");
        }
        vc_check(q.size() == size_t(pushed - popped), "size is the number of jobs in the queue");
        vc_check(vc_locks_held() == 0, "no mutex stays locked");
    }
    if (ghost) vc_check(vct::waits == 0, "a pop does not wait while there are jobs");
    vc_unguard();
    vc_cover("history");
}
// a pop waits as long as there is nothing, whatever wakes it, and takes what another thread pushes
static job_queue *the_queue;
static void pusher(int k) { if (k == 1) the_queue->push(make_job(3)); }
VC_CONTRACT(queue_wait) {
    reset();
    job_queue q;
    the_queue = &q;
    vc_guard(&q, sizeof q);
    std::unique_ptr<std::thread> t;
    if (ghost) vct::on_wait = &pusher; else t.reset(new std::thread([]() { the_queue->push(make_job(3)); }));
    auto j = q.pop();
    vc_check(same_job(j, make_job(3)), "a pop returns what another thread pushed");
    if (ghost) vc_check(vct::waits == 2, "a spurious wake-up does not end the wait");
    if (t) t->join();
    vc_check(q.size() == 0, "the job was taken out");
    vc_check(vc_locks_held() == 0, "no mutex stays locked");
    vc_unguard();
    vc_cover("wait");
}
// another thread takes the job between the wake-up and the pop
static void thief(int k) {
    the_queue->push(make_job(k));
    job j;
    if (k < 2) the_queue->try_pop(j);
}
VC_CONTRACT(queue_stolen) {
    reset();
    job_queue q;
    the_queue = &q;
    vc_guard(&q, sizeof q);
    if (ghost) {
        vct::on_wait = &thief;
        auto j = q.pop();
        vc_check(same_job(j, make_job(2)), "a pop waits again when the job was taken by another thread");
        vc_check(vct::waits == 3, "waits until there is a job");
    } else vc_check(q.size() == 0, "empty");
    vc_unguard();
    vc_cover("stolen");
}
VC_CONTRACT(worker_once) {
    reset();
    worker w;
    vc_guard(&w, sizeof w);
    vc_check(w.size() == 0, "a new worker has no jobs");
    for (int i = 0; i < 4; ++i) {
        w.push_job(make_job(i));
        vc_check(w.size() == size_t(i + 1), "size counts the jobs");
    }
    vc_check(count == 0, "jobs do not run when they are pushed");
    w.once();
    vc_check(count == 4, "all jobs run");
    for (int i = 0; i < 4; ++i) vc_check(ran[i] == 1 && order[i] == i, "each job runs once, in order");
    vc_check(w.size() == 0, "no jobs are left");
    w.once();
    vc_check(count == 4, "no job runs twice");
    vc_unguard();
    vc_cover("once");
}
// run: jobs that arrive while waiting run in order, stop ends it
static worker *the_worker;
static void feeder(int k) {
    if (k == 0) { the_worker->push_job(make_job(0)); the_worker->push_job(make_job(1)); }
    if (k == 2) the_worker->push_job(make_job(2));
    if (k == 3) the_worker->stop();
}
VC_CONTRACT(worker_run) {
    reset();
    worker w;
    the_worker = &w;
    vc_guard(&w, sizeof w);
    if (ghost) {
        vct::on_wait = &feeder;
        w.run();
        vc_check(vct::waits == 4, "a worker waits when it has nothing to do");
    } else {
        for (int i = 0; i < 3; ++i) w.push_job(make_job(i));
        std::thread t([]() { the_worker->run(); });
        while (w.size() > 0) std::this_thread::yield();
        w.stop();
        t.join();
    }
    vc_check(count == 3, "all jobs run");
    for (int i = 0; i < 3; ++i) vc_check(ran[i] == 1 && order[i] == i, "each job runs once, in order");
    vc_check(w.size() == 0, "size is the number of jobs that have not run");
    vc_unguard();
    vc_cover("run");
}
// stopping before the thread gets to run must not be lost
VC_CONTRACT(worker_stop_first) {
    reset();
    auto *p = new worker;
    auto &w = *p;
    vc_guard(&w, sizeof w);
    w.stop();
    vct::on_wait = nullptr;
    if (ghost) w.run();
    else {
        static std::atomic<bool> ended;
        ended = false;
        std::thread t([p]() { p->run(); ended = true; });
        for (int i = 0; i < 2000 && !ended; ++i) std::this_thread::sleep_for(i ? std::chrono::milliseconds(1) : std::chrono::milliseconds(0));
        vc_check(ended, "a stop before the thread runs is not lost");
        if (!ended) { t.detach(); return; }
        t.join();
    }
    vc_check(count == 0, "nothing runs");
    vc_unguard();
    delete p;
    vc_cover("stop first");
}
static void again(int k) {
    if (k == 0) { the_worker->push_job(make_job(0)); }
    if (k == 1) the_worker->stop();
    if (k == 2) { the_worker->push_job(make_job(1)); the_worker->push_job(make_job(2)); }
    if (k == 3) the_worker->stop();
}
VC_CONTRACT(worker_rerun) {
    reset();
    worker w;
    the_worker = &w;
    if (ghost) {
        vct::on_wait = &again;
        w.run();
        vc_check(count == 1 && ran[0] == 1 && vct::waits == 2, "a stopped worker does not run");
        w.run();
        vc_check(count == 3 && ran[1] == 1 && ran[2] == 1, "a stopped worker can run again");
    }
    vc_check(w.size() == 0, "size is the number of jobs that have not run");
    vc_cover("rerun");
}
// a job pushed by a job
static void chain(job::data_type &d) {
    note(d);
    if (d[0] == 0) the_worker->push_job(make_job(5));
    if (d[0] == 1) the_worker->stop();
}
VC_CONTRACT(worker_nested) {
    reset();
    worker w;
    the_worker = &w;
    auto j = make_job(0), s = make_job(1);
    j.func = &chain; s.func = &chain;
    w.push_job(j);
    w.once();
    vc_check(count == 2 && order[0] == 0 && order[1] == 5, "jobs pushed by a job run after it");
    w.push_job(s);
    if (ghost) { w.run(); vc_check(count == 3 && order[2] == 1, "a job can stop its worker"); }
    vc_cover("nested");
}
// dispatcher
static void dispatch(size_t n, size_t jobs) {
    reset();
    {
        job_dispatcher d;
        vc_check(!d.running() && d.num_workers() == 0, "a new dispatcher does not run");
        d.start(n);
        vc_check(d.running() && d.num_workers() == n, "as many workers as asked for");
        if (ghost) vc_check(vct::started == int(n), "as many threads as workers");
        for (size_t i = 0; i < jobs; ++i) d.async(make_job(int(i)));
        d.stop();
        vc_check(!d.running() && d.num_workers() == 0, "a stopped dispatcher does not run");
        if (ghost) vc_check(vct::joined == int(n), "all threads are joined");
        for (size_t i = 0; i < jobs; ++i) vc_check(ran[i] <= 1, "no job runs twice");
        if (ghost && jobs <= n) for (size_t i = 0; i < jobs; ++i) vc_check(ran[i] == 1, "jobs go to idle workers");
        d.start(1);
        vc_check(d.running() && d.num_workers() == 1, "a dispatcher can be started again");
        d.async(make_job(7));
        d.stop();
    }
    if (ghost) vc_check(ran[7] == 1, "jobs run after a restart");
    if (ghost) vc_check(vct::joined == vct::started, "no thread is left behind");
    vc_cover("dispatch");
}
VC_CONTRACT(dispatcher_1) { dispatch(1, 1); }
VC_CONTRACT(dispatcher_2) { dispatch(2, 2); }
VC_CONTRACT(dispatcher_3) { dispatch(3, 3); }
VC_CONTRACT(dispatcher_busy) { dispatch(2, 5); }
VC_CONTRACT(dispatcher_destructor) {
    reset();
    { job_dispatcher d; d.start(2); d.async(make_job(0)); d.async(make_job(1)); }
    if (ghost) {
        vc_check(vct::joined == 2, "destruction joins the threads");
        vc_check(ran[0] == 1 && ran[1] == 1, "jobs of idle workers have run");
    } else vc_check(ran[0] <= 1 && ran[1] <= 1, "no job runs twice");
    vc_cover("destructor");
}
// counter: the wait ends when the last of n decrements has happened, and the counter may then be destroyed at once
static atomic_counter_sync *the_counter;
static int left;
static void countdown(int k) { if (k % 2 == 1 && left > 0) { the_counter->decrement(); --left; } }
static void counter(size_t n, size_t before) {
    reset();
    atomic_counter_sync c(n);
    the_counter = &c;
    vc_guard(&c, sizeof c);
    std::unique_ptr<std::thread> t;
    left = int(n - before);
    for (size_t i = 0; i < before; ++i) c.decrement();
    if (ghost) vct::on_wait = &countdown; else t.reset(new std::thread([]() { while (left > 0) { --left; the_counter->decrement(); } }));
    c.wait();
    if (t) t->join();
    vc_check(left == 0, "the wait ends after the last decrement");
    if (ghost) vc_check(vct::notified >= 1, "the last decrement wakes the waiting thread");
    if (ghost) vc_check(vct::waits == 2 * int(n - before), "the wait ends with the last decrement");
    vc_check(vc_locks_held() == 0, "no mutex stays locked");
    vc_unguard();
    vc_cover("counter");
}
VC_CONTRACT(counter_1) { counter(1, 0); }
VC_CONTRACT(counter_3) { counter(3, 0); }
VC_CONTRACT(counter_3_1) { counter(3, 1); }
VC_CONTRACT(counter_done) { counter(2, 2); }
VC_CONTRACT(counter_zero) {
    reset();
    auto *c = new atomic_counter_sync(0);
    if (ghost) c->wait();
    else {
        static std::atomic<bool> ended;
        ended = false;
        std::thread t([c]() { c->wait(); ended = true; });
        for (int i = 0; i < 2000 && !ended; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(i ? 1 : 0));
        vc_check(ended, "nothing to wait for");
        if (!ended) { t.detach(); return; }
        t.join();
    }
    if (ghost) vc_check(vct::waits == 0, "waiting for nothing returns at once");
    delete c;
    vc_cover("zero");
}
static void destroyed() { if (left == 0) { left = -1; vc_gone(the_counter, sizeof(atomic_counter_sync)); } }
VC_CONTRACT(counter_lifetime) {
    reset();
    atomic_counter_sync c(2);
    the_counter = &c;
    vc_guard(&c, sizeof c);
    left = 2;
    if (ghost) vct::on_unlock = &destroyed;
    --left; c.decrement();
    --left; c.decrement();
    if (ghost) vc_check(left == -1, "the last decrement releases the waiting thread");
    vct::on_unlock = nullptr;
    vc_unguard();
    vc_cover("lifetime");
}
VC_CONTRACT(noop_job) {
    reset();
    auto j = job::noop();
    j();
    vc_check(count == 0, "the no-op job does nothing");
    auto k = make_job(4);
    k();
    vc_check(count == 1 && ran[4] == 1, "calling a job calls its function with its data");
    vc_cover("noop");
}
