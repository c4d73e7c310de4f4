// Exhaustive stateless exploration of real code.
//
// A check registers suites.  A suite body is an ordinary function that drives the real code and asks
// Run::choose(n) wherever the environment (caller, scheduler, fault injector, random source) may act in
// n ways.  The explorer runs the body once for every sequence of answers, depth first, split over worker
// processes.  A body reports a broken property with Run::fail; a crash, an uncaught exception or a hang
// of the real code is reported by the parent.  Nothing is sampled.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace mc
{
    struct Violation
    {
        std::string sig, msg;
    };
    struct Pruned
    {
    };

    struct Run
    {
        bool thorough = false;
        // ---- nondeterminism
        int choose(int n, const char* label = nullptr);
        template <class T> const T& pick(const std::vector<T>& v, const char* label = nullptr)
        {
            return v[(size_t)choose((int)v.size(), label)];
        }
        bool flip(const char* label = nullptr)
        {
            return choose(2, label) == 1;
        }
        // ---- reporting
        void step(const char* fmt, ...) __attribute__((format(printf, 2, 3)));   // one operation on the real code
        void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));   // trace only
        void at(const char* fmt, ...) __attribute__((format(printf, 2, 3)));     // where we are, names a crash
        void state(uint64_t h);                // a canonical state reached by the real code
        void outcome(const std::string& s);    // how this execution ended (counted, listed)
        void compared(int n = 1);              // the reference model and the real code were compared
        [[noreturn]] void prune();             // this combination is not a case (not counted)
        [[noreturn]] void fail(const std::string& sig, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
        void check(bool ok, const std::string& sig, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
        // records a violation without ending the execution
        void soft(const std::string& sig, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
        int depth() const;
    };

    // split: number of leading choices that are distributed over the workers
    void suite(const std::string& name, std::function<void(Run&)> body, int split = 2, bool thoroughOnly = false);
    // called once in every worker process before exploration
    void setup(std::function<void()> f);
    void hangSeconds(int s);
    int main(int argc, char** argv);
    const std::string& scratch(); // private, empty directory of this worker (removed at the end)

    // ---- hashing of states
    struct Hash
    {
        uint64_t h = 1469598103934665603ull;
        Hash& add(const void* p, size_t n)
        {
            const unsigned char* c = (const unsigned char*)p;
            for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
            h ^= h >> 29;
            return *this;
        }
        Hash& i(long long v)
        {
            return add(&v, sizeof v);
        }
        Hash& s(const std::string& v)
        {
            i((long long)v.size());
            return add(v.data(), v.size());
        }
        Hash& f(double v, double q = 1e-3)   // quantised
        {
            double r = v / q;
            long long k = (r != r) ? -777777777LL : (r > 9e17 ? 888888888888LL : (r < -9e17 ? -888888888888LL : (long long)(r < 0 ? r - 0.5 : r + 0.5)));
            return i(k);
        }
        operator uint64_t() const
        {
            return h;
        }
    };
    std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
}
