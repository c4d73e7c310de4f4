#include "ctlsched.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <set>
#include <unordered_map>

namespace sched
{
    namespace
    {
        const int MAXT = 12;
        struct VC
        {
            uint32_t c[MAXT];
            VC() { memset(c, 0, sizeof c); }
            void join(const VC& o)
            {
                for (int i = 0; i < MAXT; i++) c[i] = std::max(c[i], o.c[i]);
            }
        };
        struct Frame
        {
            void* pc;
            int ctx;
        };
        struct Thread
        {
            int id = 0;
            sem_t sem;
            pthread_t real;
            bool finished = false, detached = false, joined = false, sleeping = false;
            std::function<bool()> ready;       // empty: runnable
            const char* why = "";
            VC vc;
            char* stackLo = nullptr, *stackHi = nullptr;
            std::vector<Frame> frames;
            bool signalled = false, woken = false;
            void* (*fn)(void*) = nullptr;
            void* arg = nullptr;
        };
        struct Mutex
        {
            int owner = -1, count = 0, readers = 0;
            VC vc;
        };
        struct Cond
        {
            std::vector<Thread*> waiters;
        };

        mc::Run* R = nullptr;
        Options O;
        bool on = false;
        std::vector<Thread*> T;
        std::unordered_map<void*, Mutex> mutexes;
        std::unordered_map<void*, Cond> conds;
        std::unordered_map<void*, VC> atomics;
        std::vector<std::pair<std::string, std::string>> failures;
        int preempted = 0, points = 0, inARow = 0;
        __thread Thread* me = nullptr;
        __thread int inside = 0;
        pthread_key_t exitKey;
        bool keyMade = false;

        struct In
        {
            In() { inside++; }
            ~In() { inside--; }
        };
        inline bool mine()
        {
            return on && me && !inside;
        }

        // ---------------------------------------------------------------- names of program points
        std::unordered_map<void*, int>* classified;
        std::vector<std::string>* names;
        int classify(void* pc)
        {
            if (!classified)
            {
                classified = new std::unordered_map<void*, int>();
                names = new std::vector<std::string>(1, "");
            }
            auto it = classified->find(pc);
            if (it != classified->end()) return it->second;
            int r = 0;
            Dl_info inf;
            if (dladdr(pc, &inf) && inf.dli_sname)
            {
                int st = 0;
                char* d = abi::__cxa_demangle(inf.dli_sname, 0, 0, &st);
                std::string n = d ? d : inf.dli_sname;
                free(d);
                bool ours = n.compare(0, 14, "VirtualRobot::") == 0 || n.compare(0, 6, "Saba::") == 0 || n.compare(0, 13, "SimDynamics::") == 0 || n.compare(0, 12, "GraspStudio::") == 0;
                if (ours)
                {
                    size_t p = n.find('(');
                    if (p != std::string::npos) n = n.substr(0, p);
                    r = (int)names->size();
                    for (size_t i = 1; i < names->size(); i++)
                        if ((*names)[i] == n) r = (int)i;
                    if (r == (int)names->size()) names->push_back(n);
                }
            }
            (*classified)[pc] = r;
            return r;
        }

        // ---------------------------------------------------------------- scheduling
        void die(const std::string& what)
        {
            R->at("%s", what.c_str());
            abort();
        }
        bool enabled(Thread* t)
        {
            return !t->finished && (!t->ready || t->ready());
        }
        void hand(Thread* t)
        {
            if (t == me) return;
            inARow = 0;
            Thread* m = me;
            sem_post(&t->sem);
            if (m->finished) return;
            while (sem_wait(&m->sem) != 0) {}
        }
        // the current thread can not or does not want to continue
        void leave(bool canStay)
        {
            std::vector<Thread*> e;
            for (auto t : T)
                if (t != me && enabled(t) && !t->sleeping) e.push_back(t);
            if (e.empty())
                for (auto t : T)
                    if (t != me && enabled(t)) e.push_back(t);
            if (e.empty())
            {
                if (canStay) return;
                bool all = true;
                for (auto t : T) all = all && t->finished;
                if (all) return;
                std::string s = "deadlock:";
                for (auto t : T)
                    if (!t->finished) s += mc::strf(" thread %d in %s%s%s;", t->id, t->why, t->frames.empty() ? "" : " of ", t->frames.empty() ? "" : (*names)[t->frames.back().ctx].c_str());
                die(s);
            }
            // the thread after the current one first, so that all get their turn
            std::stable_sort(e.begin(), e.end(), [](Thread* a, Thread* b) { return ((a->id - me->id + MAXT) % MAXT) < ((b->id - me->id + MAXT) % MAXT); });
            int k = e.size() > 1 && !(O.delays && preempted >= O.preemptions) ? R->choose((int)e.size()) : 0;
            if (O.delays && k) preempted++;
            R->note("      -> thread %d (%d leaves in %s)", e[k]->id, me->id, me->why);
            hand(e[k]);
        }
        void wait(const char* why, std::function<bool()> ready)
        {
            me->why = why;
            if (ready()) return;
            me->ready = ready;
            while (!ready()) leave(false);
            me->ready = nullptr;
        }
        void pointHere(const char* why)
        {
            if (++points > O.maxPoints) die(std::string("no end in sight: livelock or lost request in ") + why);
            me->why = why;
            if (O.patience && ++inARow > O.patience)
            {
                inARow = 0;
                me->sleeping = true;
                leave(true);
                me->sleeping = false;
                return;
            }
            if (preempted >= O.preemptions) return;
            std::vector<Thread*> e;
            for (auto t : T)
                if (t != me && enabled(t)) e.push_back(t);
            if (e.empty()) return;
            int k = R->choose(1 + (int)e.size());
            if (k == 0) return;
            preempted++;
            R->note("      -> thread %d (%d preempted before %s)", e[k - 1]->id, me->id, why);
            hand(e[k - 1]);
        }
        void yieldHere(const char* why)
        {
            if (++points > O.maxPoints) die(std::string("no end in sight: livelock or lost request in ") + why);
            me->why = why;
            me->sleeping = true;
            leave(true);
            me->sleeping = false;
        }
        void release(VC& to)
        {
            to.join(me->vc);
            me->vc.c[me->id]++;
        }
        void acquire(const VC& from)
        {
            me->vc.join(from);
        }

        void stackOf(Thread* t)
        {
            pthread_attr_t a;
            void* lo = nullptr;
            size_t n = 0;
            if (pthread_getattr_np(pthread_self(), &a) == 0)
            {
                pthread_attr_getstack(&a, &lo, &n);
                pthread_attr_destroy(&a);
            }
            t->stackLo = (char*)lo;
            t->stackHi = (char*)lo + n;
        }
        void threadGone(void* v)
        {
            // keep the thread under control until all other destructors of the thread have run
            intptr_t n = (intptr_t)v;
            if (n < 3)
            {
                pthread_setspecific(exitKey, (void*)(n + 1));
                return;
            }
            if (!on || !me) return;
            In in;
            points++;
            me->finished = true;
            me->why = "exit";
            leave(false);
            me = nullptr;
        }
        void* startThread(void* v)
        {
            Thread* t = (Thread*)v;
            inside++;
            while (sem_wait(&t->sem) != 0) {}
            me = t;
            stackOf(t);
            pthread_setspecific(exitKey, (void*)1);
            inside--;
            return t->fn(t->arg);
        }

        // ---------------------------------------------------------------- races
        struct Cell
        {
            uint32_t clk;
            int16_t ctx;
            uint8_t tid, mask, wr;
        };
        struct Entry
        {
            uintptr_t g;
            uint32_t gen;
            uint8_t n;
            Cell c[8];
        };
        const size_t TAB = 1 << 18;
        Entry* tab = nullptr;
        uint32_t gen = 0;
        size_t used = 0;
        bool tabFull = false;

        Entry* lookup(uintptr_t g, bool make)
        {
            size_t h = (g * 0x9E3779B97F4A7C15ull) >> 46;
            for (size_t i = 0; i < 64; i++)
            {
                Entry& e = tab[(h + i) & (TAB - 1)];
                if (e.gen != gen)
                {
                    if (!make) return nullptr;
                    if (++used > TAB / 2) tabFull = true;
                    e.gen = gen;
                    e.g = g;
                    e.n = 0;
                    return &e;
                }
                if (e.g == g) return &e;
            }
            if (make) tabFull = true;
            return nullptr;
        }
        int ctxNow()
        {
            return me->frames.empty() ? 0 : me->frames.back().ctx;
        }
        void accessGranule(uintptr_t g, uint8_t mask, bool wr)
        {
            Entry* e = lookup(g, true);
            if (!e) return;
            int t = me->id;
            int own = -1;
            for (int i = 0; i < e->n; i++)
            {
                Cell& c = e->c[i];
                if (c.tid == t)
                {
                    if ((c.mask & ~mask) == 0 && (wr || !c.wr)) own = i;   // the new access covers the old one
                    continue;
                }
                if ((c.mask & mask) && (wr || c.wr) && c.clk > me->vc.c[c.tid])
                {
                    std::string a = (*names)[ctxNow()], b = (*names)[c.ctx];
                    if (a.empty()) a = "caller";
                    if (b.empty()) b = "caller";
                    if (b < a) std::swap(a, b);
                    failed("data race: " + a + " / " + b, mc::strf("thread %d %s in %s what thread %d %s in %s, without synchronisation", t, wr ? "writes" : "reads",
                                                                   (*names)[ctxNow()].c_str(), c.tid, c.wr ? "wrote" : "read", (*names)[c.ctx].c_str()));
                }
            }
            if (own < 0)
            {
                if (e->n < 8) own = e->n++;
                else
                {
                    // forget the access that the fewest threads could still race with: the oldest own one, or a read
                    own = 0;
                    for (int i = 0; i < 8; i++)
                        if (e->c[i].tid == t) own = i;
                }
            }
            Cell& c = e->c[own];
            c.clk = me->vc.c[t];
            c.tid = t;
            c.mask = mask;
            c.wr = wr;
            c.ctx = (int16_t)ctxNow();
        }
        void access(void* p, size_t n, bool wr)
        {
            if (!mine() || !O.races || T.size() < 2) return;
            char* a = (char*)p;
            if (a >= me->stackLo && a < me->stackHi) return;
            In in;
            uintptr_t x = (uintptr_t)p, end = x + n;
            while (x < end)
            {
                uintptr_t g = x & ~7ull;
                unsigned lo = x - g, hi = std::min<uintptr_t>(end, g + 8) - g;
                uint8_t mask = (uint8_t)(((1u << (hi - lo)) - 1) << lo);
                accessGranule(g, mask, wr);
                x = g + 8;
            }
        }
        void forget(void* p, size_t n)
        {
            if (!tab) return;
            uintptr_t x = (uintptr_t)p & ~7ull, end = (uintptr_t)p + n;
            for (; x < end; x += 8)
                if (Entry* e = lookup(x, false)) e->n = 0;
        }

        // ---------------------------------------------------------------- mutexes
        int lockMutex(void* m, bool recursive)
        {
            Mutex* x = &mutexes[m];
            if (x->owner == me->id)
            {
                if (!recursive)
                {
                    wait("lock (held by itself)", [] { return false; });
                }
                x->count++;
                return 0;
            }
            pointHere("lock");
            wait("lock", [m] { Mutex& y = mutexes[m]; return y.owner == -1 && y.readers == 0; });
            x = &mutexes[m];
            x->owner = me->id;
            x->count = 1;
            acquire(x->vc);
            return 0;
        }
        int unlockMutex(void* m)
        {
            Mutex& x = mutexes[m];
            if (x.owner != me->id)
            {
                if (x.readers > 0)
                {
                    x.readers--;
                    release(x.vc);
                    return 0;
                }
                failed("unlock of a mutex that is not held", "");
                return EPERM;
            }
            if (--x.count == 0)
            {
                x.owner = -1;
                release(x.vc);
            }
            return 0;
        }
        bool recursiveKind(pthread_mutex_t* m)
        {
            return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
        }
        int condWait(void* c, pthread_mutex_t* m, bool timed)
        {
            Mutex& x = mutexes[m];
            int cnt = x.count;
            x.count = 1;
            unlockMutex(m);
            Thread* t = me;
            t->signalled = false;
            conds[c].waiters.push_back(t);
            points++;
            if (points > O.maxPoints) die("no end in sight: waiting for a condition");
            if (timed)
            {
                me->sleeping = true;
                me->why = "timed wait";
                leave(true);
                me->sleeping = false;
            }
            else wait("condition", [t] { return t->signalled; });
            bool sig = t->signalled;
            auto& w = conds[c].waiters;
            w.erase(std::remove(w.begin(), w.end(), t), w.end());
            wait("lock after condition", [m] { Mutex& y = mutexes[m]; return y.owner == -1 && y.readers == 0; });
            Mutex& y = mutexes[m];
            y.owner = me->id;
            y.count = cnt;
            acquire(y.vc);
            return sig ? 0 : ETIMEDOUT;
        }
        int condSignal(void* c, bool all)
        {
            auto& w = conds[c].waiters;
            pointHere("notify");
            while (!w.empty())
            {
                w.front()->signalled = true;
                w.erase(w.begin());
                if (!all) break;
            }
            return 0;
        }
    }

    bool active()
    {
        return on;
    }
    int self()
    {
        return me ? me->id : 0;
    }
    int now()
    {
        return points;
    }
    void failed(const std::string& sig, const std::string& msg)
    {
        In in;
        for (auto& f : failures)
            if (f.first == sig) return;
        if (failures.size() < 20) failures.push_back(std::make_pair(sig, msg));
        if (R) R->note("  !! %s: %s", sig.c_str(), msg.c_str());
    }
    void point(const char* what)
    {
        if (!mine()) return;
        In in;
        pointHere(what);
    }

    void begin(mc::Run& r, const Options& o)
    {
        inside++;
        if (!keyMade)
        {
            pthread_key_create(&exitKey, threadGone);
            keyMade = true;
            tab = (Entry*)calloc(TAB, sizeof(Entry));
            classify((void*)&classify);
        }
        R = &r;
        O = o;
        gen++;
        used = 0;
        tabFull = false;
        mutexes.clear();
        conds.clear();
        atomics.clear();
        failures.clear();
        preempted = points = inARow = 0;
        T.clear();
        Thread* t = new Thread();
        sem_init(&t->sem, 0, 0);
        t->vc.c[0] = 1;
        t->real = pthread_self();
        T.push_back(t);
        me = t;
        stackOf(t);
        on = true;
        inside--;
    }
    void end()
    {
        inside++;
        Thread* m = me;
        while (true)
        {
            bool all = true;
            for (auto t : T) all = all && (t == m || t->finished);
            if (all) break;
            wait("end of the execution", [m] { for (auto t : T) if (t != m && !t->finished) return false; return true; });
        }
        for (auto& x : mutexes)
            if (x.second.owner != -1 && x.second.owner != m->id) failed("lock left behind", "a thread ended while it held a lock");
        on = false;
        me = nullptr;
        for (auto t : T)
        {
            if (t != m && !t->joined && !t->detached) failed("thread never joined", "a thread was neither joined nor detached");
            if (t != m && !t->joined) pthread_detach(t->real);
            if (t == m || t->joined) { sem_destroy(&t->sem); delete t; }
        }
        T.clear();
        mc::Run* r = R;
        R = nullptr;
        inside--;
        auto fs = failures;
        failures.clear();
        for (size_t i = 1; i < fs.size(); i++) r->soft(fs[i].first, "%s", fs[i].second.c_str());
        if (!fs.empty()) r->fail(fs[0].first, "%s", fs[0].second.c_str());
    }
}

using namespace sched;

// -------------------------------------------------------------------- interposed calls
#define REAL(name) static decltype(&::name) real = (decltype(&::name))dlsym(RTLD_NEXT, #name)
#define EXPORT extern "C" __attribute__((visibility("default")))

EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) noexcept
{
    REAL(pthread_create);
    if (!mine()) return real(out, attr, fn, arg);
    In in;
    if ((int)T.size() >= MAXT) { failed("too many threads", ""); return EAGAIN; }
    Thread* t = new Thread();
    sem_init(&t->sem, 0, 0);
    t->id = (int)T.size();
    t->fn = fn;
    t->arg = arg;
    int det = 0;
    if (attr) pthread_attr_getdetachstate(attr, &det);
    t->detached = det == PTHREAD_CREATE_DETACHED;
    t->vc.join(me->vc);
    t->vc.c[t->id] = 1;
    me->vc.c[me->id]++;
    int rc = real(&t->real, attr, startThread, t);
    if (rc) { delete t; return rc; }
    *out = t->real;
    T.push_back(t);
    pointHere("after thread start");
    return 0;
}
static Thread* byHandle(pthread_t h)
{
    for (size_t i = T.size(); i-- > 0;)
        if (!T[i]->joined && pthread_equal(T[i]->real, h)) return T[i];
    return nullptr;
}
EXPORT int pthread_join(pthread_t h, void** ret)
{
    REAL(pthread_join);
    if (!mine()) return real(h, ret);
    In in;
    Thread* t = byHandle(h);
    if (!t) { failed("join of an unknown thread", ""); return ESRCH; }
    if (t == me) return EDEADLK;
    pointHere("join");
    wait("join", [t] { return t->finished; });
    acquire(t->vc);
    t->joined = true;
    return real(h, ret);
}
EXPORT int pthread_detach(pthread_t h) noexcept
{
    REAL(pthread_detach);
    if (!mine()) return real(h);
    In in;
    Thread* t = byHandle(h);
    if (t) t->detached = true;
    return 0;      // end() detaches
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    REAL(pthread_mutex_lock);
    if (!mine()) return real(m);
    In in;
    return lockMutex(m, recursiveKind(m));
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept
{
    REAL(pthread_mutex_timedlock);
    if (!mine()) return real(m, ts);
    In in;
    Mutex& x = mutexes[m];
    if (x.owner != me->id) yieldHere("timed lock");
    Mutex& y = mutexes[m];
    if (y.owner != -1 && y.owner != me->id) return ETIMEDOUT;
    return lockMutex(m, recursiveKind(m));
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    REAL(pthread_mutex_trylock);
    if (!mine()) return real(m);
    In in;
    pointHere("trylock");
    Mutex& x = mutexes[m];
    if (x.owner == me->id)
    {
        if (!recursiveKind(m)) return EBUSY;
        x.count++;
        return 0;
    }
    if (x.owner != -1) return EBUSY;
    x.owner = me->id;
    x.count = 1;
    acquire(x.vc);
    return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    REAL(pthread_mutex_unlock);
    if (!mine()) return real(m);
    In in;
    return unlockMutex(m);
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
    REAL(pthread_mutex_destroy);
    if (!mine()) return real(m);
    In in;
    auto it = mutexes.find(m);
    if (it != mutexes.end())
    {
        if (it->second.owner != -1) failed("destruction of a held lock", "");
        mutexes.erase(it);
    }
    return real(m);
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
{
    REAL(pthread_mutex_init);
    if (mine())
    {
        In in;
        mutexes.erase(m);
    }
    return real(m, a);
}
// readers and writers
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
    REAL(pthread_rwlock_wrlock);
    if (!mine()) return real(m);
    In in;
    return lockMutex(m, false);
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
    REAL(pthread_rwlock_rdlock);
    if (!mine()) return real(m);
    In in;
    pointHere("lock");
    wait("lock", [m] { return mutexes[m].owner == -1; });
    Mutex& x = mutexes[m];
    x.readers++;
    acquire(x.vc);
    return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
    REAL(pthread_rwlock_unlock);
    if (!mine()) return real(m);
    In in;
    return unlockMutex(m);
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    REAL(pthread_cond_wait);
    if (!mine()) return real(c, m);
    In in;
    return condWait(c, m, false);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    REAL(pthread_cond_timedwait);
    if (!mine()) return real(c, m, ts);
    In in;
    return condWait(c, m, true);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    REAL(pthread_cond_clockwait);
    if (!mine()) return real(c, m, k, ts);
    In in;
    return condWait(c, m, true);
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    REAL(pthread_cond_signal);
    if (!mine()) return real(c);
    In in;
    return condSignal(c, false);
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    REAL(pthread_cond_broadcast);
    if (!mine()) return real(c);
    In in;
    return condSignal(c, true);
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
    REAL(pthread_cond_destroy);
    if (!mine()) return real(c);
    In in;
    conds.erase(c);
    return 0;
}
EXPORT int nanosleep(const struct timespec* a, struct timespec* b)
{
    REAL(nanosleep);
    if (!mine()) return real(a, b);
    In in;
    yieldHere("sleep");
    return 0;
}
EXPORT int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b)
{
    REAL(clock_nanosleep);
    if (!mine()) return real(k, f, a, b);
    In in;
    yieldHere("sleep");
    return 0;
}
EXPORT int usleep(useconds_t u)
{
    REAL(usleep);
    if (!mine()) return real(u);
    In in;
    yieldHere("sleep");
    return 0;
}
EXPORT int sched_yield() noexcept
{
    REAL(sched_yield);
    if (!mine()) return real();
    In in;
    yieldHere("yield");
    return 0;
}
// initialisation of function-local statics
EXPORT int __cxa_guard_acquire(long long* g)
{
    volatile char* b = (volatile char*)g;
    if (b[0]) return 0;
    if (!mine())
    {
        b[1] = 1;
        return 1;
    }
    In in;
    if (b[1]) wait("initialisation of a static", [b] { return b[1] == 0; });
    acquire(atomics[(void*)g]);
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
}
EXPORT void __cxa_guard_release(long long* g)
{
    volatile char* b = (volatile char*)g;
    if (mine())
    {
        In in;
        release(atomics[(void*)g]);
    }
    b[1] = 0;
    b[0] = 1;
}
EXPORT void __cxa_guard_abort(long long* g)
{
    ((volatile char*)g)[1] = 0;
}

// -------------------------------------------------------------------- memory
#include <malloc.h>
extern "C" void __libc_free(void*);
EXPORT void free(void* p) noexcept
{
    if (p && mine())
    {
        In in;
        forget(p, malloc_usable_size(p));
    }
    __libc_free(p);
}
#ifdef SCHED_RACES
static inline void copyBytes(void* d, const void* s, size_t n)
{
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
EXPORT void* memcpy(void* d, const void* s, size_t n) noexcept
{
    if (n && mine())
    {
        access((void*)s, n, false);
        access(d, n, true);
    }
    copyBytes(d, s, n);
    return d;
}
EXPORT void* memmove(void* d, const void* s, size_t n) noexcept
{
    if (n && mine())
    {
        access((void*)s, n, false);
        access(d, n, true);
    }
    if ((char*)d > (const char*)s && (char*)d < (const char*)s + n)
    {
        char* a = (char*)d + n - 1;
        const char* b = (const char*)s + n - 1;
        size_t k = n;
        __asm__ volatile("std\n rep movsb\n cld" : "+D"(a), "+S"(b), "+c"(k) : : "memory");
    }
    else copyBytes(d, s, n);
    return d;
}
EXPORT void* memset(void* d, int v, size_t n) noexcept
{
    if (n && mine()) access(d, n, true);
    void* x = d;
    size_t k = n;
    __asm__ volatile("rep stosb" : "+D"(x), "+c"(k) : "a"(v) : "memory");
    return d;
}

// -------------------------------------------------------------------- what -fsanitize=thread calls
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*)
{
    if (!mine()) return;
    In in;
    int c = classify(__builtin_return_address(0));
    if (!c && !me->frames.empty()) c = me->frames.back().ctx;
    me->frames.push_back(Frame{__builtin_return_address(0), c});
}
EXPORT void __tsan_func_exit()
{
    if (!mine()) return;
    In in;
    if (!me->frames.empty()) me->frames.pop_back();
}
#define RW(n)                                                                   \
    EXPORT void __tsan_read##n(void* p) { access(p, n, false); }                \
    EXPORT void __tsan_write##n(void* p) { access(p, n, true); }                \
    EXPORT void __tsan_volatile_read##n(void* p) { access(p, n, false); }       \
    EXPORT void __tsan_volatile_write##n(void* p) { access(p, n, true); }       \
    EXPORT void __tsan_unaligned_read##n(void* p) { access(p, n, false); }      \
    EXPORT void __tsan_unaligned_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
EXPORT void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
EXPORT void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v) access(p, 8, true);
}
EXPORT void __tsan_vptr_read(void** p) { access(p, 8, false); }

static void atomicOp(void* p, int size, bool write)
{
    if (!mine()) return;
    In in;
    if (size == 1) pointHere(write ? "flag written" : "flag read");
    VC& v = atomics[p];
    acquire(v);
    if (write) release(v);
}
#define AT(bits, T)                                                                                                                                     \
    EXPORT T __tsan_atomic##bits##_load(const volatile T* p, int) { atomicOp((void*)p, bits / 8, false); return __atomic_load_n(p, 5); }                \
    EXPORT void __tsan_atomic##bits##_store(volatile T* p, T v, int) { atomicOp((void*)p, bits / 8, true); __atomic_store_n(p, v, 5); }                 \
    EXPORT T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { atomicOp((void*)p, bits / 8, true); return __atomic_exchange_n(p, v, 5); }       \
    EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { atomicOp((void*)p, bits / 8, true); return __atomic_fetch_add(p, v, 5); }       \
    EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { atomicOp((void*)p, bits / 8, true); return __atomic_fetch_sub(p, v, 5); }       \
    EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { atomicOp((void*)p, bits / 8, true); return __atomic_fetch_and(p, v, 5); }       \
    EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { atomicOp((void*)p, bits / 8, true); return __atomic_fetch_or(p, v, 5); }         \
    EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { atomicOp((void*)p, bits / 8, true); return __atomic_fetch_xor(p, v, 5); }       \
    EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { atomicOp((void*)p, bits / 8, true); return __atomic_fetch_nand(p, v, 5); }     \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int)                                                        \
    { atomicOp((void*)p, bits / 8, true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }                                                       \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int)                                                          \
    { atomicOp((void*)p, bits / 8, true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }                                                       \
    EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int)                                                              \
    { atomicOp((void*)p, bits / 8, true); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
EXPORT void __tsan_atomic_signal_fence(int) {}
#endif
