// Deterministic simulation runtime (OpenMP build).
//
// The shell code is compiled with the compiler's thread-sanitizer instrumentation
// and with OpenMP, but neither libtsan nor libgomp is linked: this runtime provides
// both interfaces.  Worker "threads" are real threads of which exactly one holds the
// baton; every instrumented memory access, lock, atomic, barrier and critical section
// is a possible switch point and a seeded scheduler decides each switch.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "simrng.h"

namespace sim {

// One scheduling decision: in parallel region `region`, thread `tid` gives up the
// baton at its local step `lstep` to thread `to`.
struct Switch { uint32_t region; uint32_t tid; uint64_t lstep; uint32_t to; };

enum Strategy { SEQ=0, RANDOM=1, PCT=2, HOT=3, ROUND=4 };

struct Config {
    int      nthreads;      // team size
    int      strategy;
    uint64_t seed;
    double   gap;           // mean number of accesses between preemptions (RANDOM)
    int      depth;         // priority change points (PCT)
    uint64_t est;           // estimated steps per thread (PCT)
    uint64_t maxSteps;      // progress bound, 0 = none
    bool     detect;        // run the conflict detector (fills hot set)
    bool     replay;        // follow `schedule` instead of the strategy
    std::vector<Switch>    schedule;
    std::vector<uintptr_t> hot;   // program counters of conflicting accesses
    Config() : nthreads(1),strategy(SEQ),seed(1),gap(200),depth(3),est(100000),maxSteps(0),detect(false),replay(false) {}
};

struct Stats {
    uint64_t steps, switches, regions, preemptions, blocked, criticals, locks, barriers, atomics, races, hotHits, maxThreadSteps;
    uint64_t hash;           // hash of the switch sequence = identity of the interleaving
};

void configure(const Config & c);      // before the run
const Stats & stats();
const std::vector<Switch> & trace();   // switches taken in this run
std::vector<uintptr_t> conflicts();    // pcs of conflicting accesses found by the detector
bool inRegion();
void setExitHandler(void (*f)());      // called before the runtime ends a run
void beginRun();          // from here on the run allocates from a heap of its own
void beginOp(uint32_t i);              // regions are numbered within the operation they belong to

// allocator accounting
uint64_t liveBytes();
}
