// The random sources and the clock of the library under control (include in the main file of a check only).
#pragma once
#include <VirtualRobot/Random.h>
#include <cstdint>
#include <ctime>
#include <functional>

// ---- the random sources and the clock of the library are ours
static std::function<double()> g_random;
static std::function<int()> g_rand;
static long g_clock = 0, g_tick = 0;
static uint64_t untemper(uint64_t z)
{
    z ^= z >> 43;
    uint64_t y = z;
    y = z ^ ((y << 37) & 0xfff7eee000000000ull);
    z = y;
    for (int i = 0; i < 4; i++) y = z ^ ((y << 17) & 0x71d67fffeda60000ull);
    z = y;
    for (int i = 0; i < 3; i++) y = z ^ ((y >> 29) & 0x5555555555555555ull);
    return y;
}
namespace VirtualRobot
{
    std::mt19937_64& PRNG64Bit()
    {
        static std::mt19937_64 g;
        struct Raw
        {
            uint64_t x[312];
            size_t p;
        };
        static_assert(sizeof(Raw) == sizeof(std::mt19937_64), "layout");
        Raw* r = reinterpret_cast<Raw*>(&g);
        double v = g_random ? g_random() : 0.5;
        r->x[0] = untemper((uint64_t)(v * 18446744073709551616.0));
        r->p = 0;
        return g;
    }
}
extern "C" int rand()
{
    return g_rand ? g_rand() : 0;
}
extern "C" clock_t clock()
{
    g_clock += g_tick;
    return g_clock;
}

