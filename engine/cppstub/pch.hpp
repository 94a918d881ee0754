#include <stdio.h>
#include <iostream>
#include <assert.h>
#include <map>
#include <vector>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <atomic>
#include <memory>
#include <thread>
#include <string>
#include <sstream>
#include <iomanip>
#include <gmp.h>
// Threads run to completion at points chosen by SYM_SCHED: eager (when created), fifo or lifo (when someone waits).
namespace std {
struct symthread;
struct symsched {
    static vector<symthread *> &pending() { static vector<symthread *> v; return v; }
    static char mode() { static char m = getenv("SYM_SCHED") ? getenv("SYM_SCHED")[0] : 'e'; return m; }
    static bool step();
};
struct symthread {
    function<void()> f;
    bool started = true;
    symthread() {}
    symthread(const symthread &) = delete;
    template <class F, class... A> explicit symthread(F g, A... a) { f = [=]() { g(a...); }; started = false; }
    // moved when assigned to its slot: from then on it is known to the scheduler
    symthread &operator=(symthread &&o) {
        f = o.f; started = o.started; o.started = true;
        if (!started) { if (symsched::mode() == 'e') run(); else symsched::pending().push_back(this); }
        return *this;
    }
    void run() { if (!started) { started = true; auto g = f; g(); } }
    bool joinable() { return (bool)f; }
    void join() {
        auto &p = symsched::pending();
        for (size_t i = 0; i < p.size(); i++) if (p[i] == this) { p.erase(p.begin() + i); break; }
        run(); f = nullptr;
    }
    void detach() {}
};
inline bool symsched::step() {
    auto &p = pending();
    if (p.empty()) return false;
    size_t i = mode() == 'l' ? p.size() - 1 : 0;
    symthread *t = p[i];
    p.erase(p.begin() + i);
    t->run();
    return true;
}
struct symcond {
    template <class L, class P> void wait(L &l, P pred) {
        while (!pred()) {
            l.unlock();
            if (!symsched::step()) { fprintf(stderr, "DEADLOCK\n"); fflush(stderr); _Exit(78); }
            l.lock();
        }
    }
    void notify_one() {}
    void notify_all() {}
};
}
#define thread symthread
#define condition_variable symcond
