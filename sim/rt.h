// rt.h - deterministic simulation runtime: scheduler, synchronisation, heap,
// race detector and fault injector. See DESIGN.md.
//
// Everything the simulated program does that could vary from run to run goes
// through here: which thread runs next (decided at every instrumented memory
// access and synchronisation operation), where the heap puts objects and what
// the memory contains, which allocation fails, and when blocked threads wake.
#pragma once

#include <stdint.h>
#include <stddef.h>

namespace sim {

enum { MaxThreads = 6, MaxSwitch = 1 << 15, MaxFaults = 64, MaxProbes = 256, MaxPcs = 24 };

// How the next thread is chosen.
enum Mode {
    Sequential = 0, // switch only when blocked or finished
    Uniform    = 1, // at any step with probability 1/p
    SyncOnly   = 2, // at synchronisation steps with probability 1/p
    Conflict   = 3, // at accesses to memory another thread has touched, probability 1/p
    Pct        = 4, // random priorities, a few priority change points
    Replay     = 9, // exactly the recorded switches
};

struct Switch { uint32_t tid, target; uint64_t lstep; };

struct Config {
    int mode;
    uint64_t seed;
    uint32_t p;            // 1/probability
    uint32_t depth;        // Pct: number of change points
    uint32_t span;         // Pct: log2 of the range of change points
    uint64_t budget;       // instrumented events before the run counts as hung
    uint32_t fill;         // heap and stack fill byte
    uint64_t layout;       // 0: compact heap; else seed of random placement
    uint32_t nfail;        // armed allocations that fail, ascending, 1-based
    uint32_t fail[MaxFaults];
    uint32_t failRun;      // how many consecutive ones fail at each
    uint32_t nswitch;      // Replay
    const Switch* sw;
    int raceIsViolation;
};

enum Status { Running = 0, Ok = 1, Violated = 2, Invalid = 3, Broken = 4 };

struct Result {
    volatile int status;
    char kind[48];
    char msg[6000];
    uint32_t npcs[2];
    uint32_t pcs[2][MaxPcs];
    uint64_t hash;        // every step of the run
    uint64_t interHash;   // positions of the context switches
    uint64_t stateHash;   // workload-defined outcome class
    uint64_t steps, events;
    uint64_t switches, preemptions, blocks;
    uint64_t armedAllocs, allocFaults, userPoints, userFaults;
    uint64_t simTime;
    uint32_t nontrivial;  // set by the workload
    const char* probeName[MaxProbes]; uint64_t probes[MaxProbes]; // reached-state counters
    uint32_t nswitch; uint32_t swOverflow;
    Switch sw[MaxSwitch];
    uint32_t ntext;
    char text[1 << 19];   // transcript / values handed to the parent
};

// ---- controller side (one per simulated process) ----
void init(Result* r, const Config& c);
typedef void (*Body)(void*);
void run(int n, Body* body, void** arg); // runs n simulated threads to completion

// ---- simulated thread side ----
int tid();                      // -1 outside
uint64_t stamp();               // global event sequence number
void point();                   // an explicit preemption point
void blockUntil(bool (*pred)(void*), void* arg, const char* what);
void notify();
void violation(const char* kind, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void invalid(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void text(const char* s, size_t n);  // append to transcript
void probe(const char* name);         // name: a string literal
void stateMix(uint64_t v);
void nontrivial();                     // this run exercised what the property is about

void arm(bool on);              // allocation faults count while armed
uint64_t armedAllocs();
uint64_t allocFaults();
uint64_t myFaults();            // allocation and user faults of this thread in this phase
bool userFault();               // counts a user fault point; true if it must fail
void setUserFaults(const uint32_t* at, uint32_t n);
void tag(uint32_t t);           // tag allocations of this thread
uint32_t liveBlocks(uint32_t t, char* out, size_t n); // live blocks with tag
bool isHeap(const void* p);
bool isLive(const void* p);     // in a live heap block
void scrubStack(uint32_t fill);

// Code that is not part of the simulated program: oracle and bookkeeping.
struct Host { Host(); ~Host(); };
void hostEnter(); void hostLeave();

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

} // namespace sim
