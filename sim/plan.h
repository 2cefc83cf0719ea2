// plan.h - what one simulated run consists of, and the workloads that generate
// and execute plans.
#pragma once

#include "rt.h"

#include <map>
#include <string>
#include <vector>

namespace h {

struct Op
{
    int thread;
    std::string name;
    std::vector<std::string> args;

    const std::string& str(size_t i) const;
    long num(size_t i) const;
};

// A plan decides everything about a run. Plans are written to and read from
// text files, which is what replay files are.
struct Plan
{
    std::string property, workload;
    uint64_t seed = 0;
    int threads = 1;
    std::map<std::string, std::string> cfg;
    std::vector<Op> ops;
    std::vector<uint32_t> allocFaults, userFaults;

    // scheduling: either a mode with its seed or the recorded switches
    sim::Config sched;
    bool replay = false;
    std::vector<sim::Switch> switches;

    Plan();
    long num(const char* key, long def = 0) const;
    std::string str(const char* key, const char* def = "") const;
    void set(const char* key, long v);
    void set(const char* key, const std::string& v);
    Op& add(int thread, const char* name);

    std::string print() const;
    static bool read(const std::string& text, Plan& plan, std::string& err);
};

Op& operator<<(Op& op, const std::string& s);
Op& operator<<(Op& op, long n);

std::string escape(const std::string& s);
std::string unescape(const std::string& s);

// A property's check is made of one or more workloads.
struct Workload
{
    const char* property;
    const char* name;
    int weight;                                   // share of the runs
    void (*gen)(sim::Rng& rng, Plan& plan);
    void (*exec)(const Plan& plan, const std::string* ref); // in the run's own process
    void (*ref)(const Plan& plan);                // reference run, may be null
    bool races;                                   // data races violate the property
};

void add(const Workload& w);
const std::vector<Workload>& workloads();

// ---- helpers for exec ----
typedef void (*ThreadFn)(const Plan& plan, int thread);
void runThreads(const Plan& plan, int n, ThreadFn fn);  // one phase of simulated threads
void runOne(void (*fn)(const Plan&), const Plan& plan); // a phase of a single simulated thread

std::string format(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void say(const std::string& s); // append a line to the transcript
std::vector<std::string> split(const std::string& s, char sep);

#define PROBE(name) sim::probe(name)

void setSchedule(sim::Rng& rng, Plan& plan); // a random scheduling mode

} // namespace h

namespace sim { void hostPhase(); }
