// Plans: text form and generator. Not instrumented, does not call the system.
#pragma once
#include "world.h"

struct Rng { // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 1 ? 0 : int(next() % uint64_t(n)); }
    bool chance(int percent) { return below(100) < percent; }
    int range(int a, int b) { return a + below(b - a + 1); }
};

struct Profile {
    const char* id;
    int faults;      // percent of runs with faults
    int conc;        // percent of runs with concurrent fibers
    int gc_conc;     // percent of those where types are collected concurrently
    int capi;        // percent of operations through the C interface
    int nsetup, nwork, ntail; // mean numbers of operations
    int w[O_COUNT];  // weights
    int wc[O_COUNT]; // weights in the concurrent phase
};
const Profile* find_profile(const std::string& id);
Plan generate(const Profile& pr, uint64_t seed);
