// A controlled scheduler for real threads.
//
// Between begin() and end() exactly one thread runs; at every synchronisation operation (lock, condition,
// join, sleep, thread start and end, one-byte atomic, explicit point) the explorer decides who goes on, with a
// bounded number of preemptions.  pthread calls of the code under test (and of boost / std threads) are
// interposed, so the real code runs unchanged.  Code built in the `race` flavour additionally reports its
// memory accesses; a happens-before (vector clock) detector then finds data races in every explored schedule.
#pragma once
#include "mc.h"

namespace sched
{
    struct Options
    {
        int preemptions = 2;
        int maxPoints = 20000;     // scheduling points of one execution; more is a livelock
        bool races = true;
        int patience = 0;          // after so many points in a row a thread lets the others go on (0: never)
        bool delays = false;       // bound the choice of another thread at blocking operations as well
    };
    void begin(mc::Run& r, const Options& o);
    // waits for all threads; afterwards the process is single threaded again
    void end();
    // explicit scheduling point
    void point(const char* what);
    // a failure found in any thread; reported by end() through Run::fail
    void failed(const std::string& sig, const std::string& msg);
    // the calling thread's number (0 = the one that called begin)
    int self();
    // number of scheduling points so far: a clock that every thread agrees on
    int now();
    bool active();
}
