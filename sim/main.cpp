// main.cpp - runs plans, each in its own process forked from the same pristine
// parent; searches, replays and minimises. Not instrumented.
#include "plan.h"

#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>
#include <unordered_set>

using namespace h;
using sim::Result;

namespace {

Result* shared()
{
    void* p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Result*)p;
}

Result* res; // of the run
Result* refRes;

void clear(Result* r)
{
    uint32_t n = r->nswitch, t = r->ntext;
    (void)n; (void)t;
    memset((void*)r, 0, offsetof(Result, sw));
    r->ntext = 0;
}

double now()
{
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

const Workload* find(const std::string& property, const std::string& name)
{
    for (auto& w : workloads()) if (property == w.property && name == w.name) return &w;
    return nullptr;
}

void child(const Workload& w, const Plan& plan, Result* r, bool isRef, const std::string* ref)
{
    alarm(150);
    sim::Config c = plan.sched;
    c.raceIsViolation = w.races && !isRef;
    if (isRef) {
        c.mode = sim::Sequential;
        c.nfail = 0;
        c.fill = plan.num("refFill", c.fill);
        c.layout = plan.num("refLayout", c.layout);
    } else {
        c.nfail = std::min<size_t>(plan.allocFaults.size(), sim::MaxFaults);
        for (uint32_t i = 0; i < c.nfail; ++i) c.fail[i] = plan.allocFaults[i];
        if (plan.replay) { c.mode = sim::Replay; c.nswitch = plan.switches.size(); c.sw = plan.switches.data(); }
    }
    sim::init(r, c);
    if (!isRef) sim::setUserFaults(plan.userFaults.data(), plan.userFaults.size());
    if (isRef) w.ref(plan); else w.exec(plan, ref);
    r->status = sim::Ok;
    _exit(0);
}

void forkRun(const Workload& w, const Plan& plan, Result* r, bool isRef, const std::string* ref)
{
    clear(r);
    r->status = sim::Running;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) child(w, plan, r, isRef, ref);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (r->status == sim::Running) {
        r->status = sim::Broken;
        snprintf(r->msg, sizeof r->msg, "simulated process died: wait status %x", st);
    }
}

// Runs the plan; the outcome is in res.
void runPlan(const Plan& plan)
{
    const Workload* w = find(plan.property, plan.workload);
    if (!w) { fprintf(stderr, "no workload %s/%s\n", plan.property.c_str(), plan.workload.c_str()); exit(2); }
    std::string ref;
    if (w->ref) {
        forkRun(*w, plan, refRes, true, nullptr);
        if (refRes->status != sim::Ok) {
            memcpy((void*)res, (void*)refRes, sizeof *res);
            if (res->status == sim::Violated) {
                std::string m = std::string("(run alone) ") + res->msg;
                snprintf(res->msg, sizeof res->msg, "%s", m.c_str());
            }
            return;
        }
        ref.assign(refRes->text, refRes->ntext);
    }
    forkRun(*w, plan, res, false, w->ref ? &ref : nullptr);
}

uint64_t mixSeed(uint64_t a, uint64_t b)
{
    sim::Rng r(a * 0x9E3779B97F4A7C15ull ^ b);
    return r.next();
}

Plan makePlan(const std::string& property, const std::string& only, uint64_t seed)
{
    sim::Rng rng(mixSeed(seed, std::hash<std::string>()(property)));
    int total = 0;
    for (auto& w : workloads())
        if (property == w.property && (only.empty() ? w.weight > 0 : only == w.name)) total += only.empty() ? w.weight : 1;
    if (!total) { fprintf(stderr, "no workload for %s\n", property.c_str()); exit(2); }
    int k = rng.below(total);
    Plan plan;
    for (auto& w : workloads()) {
        if (property != w.property || !(only.empty() ? w.weight > 0 : only == w.name)) continue;
        k -= only.empty() ? w.weight : 1;
        if (k >= 0) continue;
        plan.property = property; plan.workload = w.name; plan.seed = seed;
        w.gen(rng, plan);
        break;
    }
    return plan;
}

Plan recorded(const Plan& plan)
{
    Plan p = plan;
    p.replay = true;
    p.switches.assign(res->sw, res->sw + res->nswitch);
    return p;
}

void pcs(std::ostream& o, const char* key, uint32_t* a, uint32_t n)
{
    o << key;
    for (uint32_t i = 0; i < n; ++i) { char b[16]; snprintf(b, sizeof b, " %x", a[i]); o << b; }
    o << "\n";
}

std::string resultText(const Plan& plan)
{
    std::ostringstream o;
    static const char* st[] = { "running", "ok", "violated", "invalid", "broken" };
    o << "status " << st[(int)res->status] << "\nproperty " << plan.property << "\nworkload " << plan.workload
      << "\nseed " << plan.seed << "\nkind " << res->kind << "\nmsg " << escape(res->msg) << "\n";
    pcs(o, "stack0", res->pcs[0], res->npcs[0]);
    pcs(o, "stack1", res->pcs[1], res->npcs[1]);
    char b[64];
    snprintf(b, sizeof b, "hash %016llx\n", (unsigned long long)res->hash); o << b;
    o << "steps " << res->steps << "\nevents " << res->events << "\nswitches " << res->switches
      << "\narmed " << res->armedAllocs << "\nallocFaults " << res->allocFaults << "\nuserFaults " << res->userFaults << "\n";
    return o.str();
}

bool sameViolation(const std::string& kind) { return res->status == sim::Violated && kind == res->kind; }

// ---------------------------------------------------------------- batch ----
int batch(int argc, char** argv)
{
    // batch PROPERTY SEED0 STRIDE COUNT SECONDS OUTDIR [WORKLOAD]
    std::string property = argv[2];
    uint64_t seed0 = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
    double limit = atof(argv[6]);
    std::string out = argv[7], only = argc > 8 ? argv[8] : "";
    double t0 = now();

    uint64_t maxEvents = 0, runs = 0, violated = 0, invalid = 0, broken = 0, rechecked = 0, steps = 0, events = 0, switches = 0,
        preempt = 0, blocks = 0, armed = 0, afaults = 0, upoints = 0, ufaults = 0, simTime = 0, faultRuns = 0, nontriv = 0, sched[10] = {0};
    std::map<std::string, uint64_t> byWl, probes, probeRuns;
    std::unordered_set<uint64_t> inter, states, inputs;
    std::string firstBroken, sample;
    for (uint64_t i = 0; i < count; ++i) {
        if (now() - t0 > limit || access((out + "/stop").c_str(), F_OK) == 0) break;
        uint64_t seed = seed0 + i * stride;
        Plan plan = makePlan(property, only, seed);
        runPlan(plan);
        ++runs;
        byWl[plan.workload]++;
        sched[plan.sched.mode]++;
        maxEvents = std::max<uint64_t>(maxEvents, res->events);
        steps += res->steps; events += res->events; switches += res->switches; preempt += res->preemptions;
        blocks += res->blocks; armed += res->armedAllocs; afaults += res->allocFaults;
        upoints += res->userPoints; ufaults += res->userFaults; simTime += res->simTime;
        bool faulty = res->allocFaults || res->userFaults;
        for (int k = 0; k < sim::MaxProbes; ++k)
            if (res->probeName[k] && !strncmp(res->probeName[k], "fault:", 6)) faulty = true;
        if (faulty) faultRuns++;
        for (int k = 0; k < sim::MaxProbes; ++k)
            if (res->probeName[k]) { probes[res->probeName[k]] += res->probes[k]; probeRuns[res->probeName[k]]++; }
        inter.insert(res->interHash ^ std::hash<std::string>()(plan.workload));
        if (res->preemptions || res->blocks || res->allocFaults || res->userFaults || res->nontrivial) {
            states.insert(res->hash);
            nontriv++;
        }
        if (res->stateHash) inputs.insert(res->stateHash);
        if (runs == 3) sample = plan.print();
        if (res->status == sim::Broken) {
            broken++;
            if (firstBroken.empty()) {
                firstBroken = res->msg;
                std::ofstream(out + "/broken-" + std::to_string(seed) + ".plan") << plan.print();
            }
            break;
        }
        if (res->status == sim::Invalid) {
            invalid++;
            if (invalid > 20) { firstBroken = std::string("invalid plans: ") + res->msg; broken++;
                std::ofstream(out + "/broken-" + std::to_string(seed) + ".plan") << plan.print(); break; }
            continue;
        }
        uint64_t hash = res->hash; int status = res->status;
        if (status == sim::Violated) {
            Plan rec = recorded(plan);
            std::string kind = res->kind, info = resultText(plan);
            runPlan(plan);
            if (res->hash != hash || !sameViolation(kind)) {
                broken++;
                firstBroken = format("seed %llu did not repeat: %s / %s (hash %llx / %llx)\n", (unsigned long long)seed, kind.c_str(), res->kind, (unsigned long long)hash, (unsigned long long)res->hash) + info + resultText(plan);
                std::ofstream(out + "/broken-" + std::to_string(seed) + ".plan") << plan.print();
                break;
            }
            violated++;
            std::ofstream(out + "/violation-" + std::to_string(seed) + ".plan") << rec.print();
            std::ofstream(out + "/violation-" + std::to_string(seed) + ".orig") << plan.print();
            std::ofstream(out + "/violation-" + std::to_string(seed) + ".txt") << info;
            std::ofstream(out + "/stop") << "violation\n";
            break;
        }
        if (runs % 16 == 5) {
            runPlan(plan);
            rechecked++;
            if (res->hash != hash || res->status != status) {
                broken++;
                firstBroken = format("seed %llu did not repeat", (unsigned long long)seed);
                std::ofstream(out + "/broken-" + std::to_string(seed) + ".plan") << plan.print();
                break;
            }
        }
    }
    std::string id = std::to_string(seed0);
    {
        std::ofstream f(out + "/hashes-" + id, std::ios::binary);
        uint64_t n[3] = { inter.size(), states.size(), inputs.size() };
        f.write((char*)n, sizeof n);
        for (auto* s : { &inter, &states, &inputs }) for (uint64_t v : *s) f.write((char*)&v, 8);
    }
    std::ofstream o(out + "/summary-" + id);
    o << "runs " << runs << "\nviolated " << violated << "\ninvalid " << invalid << "\nbroken " << broken
      << "\nmaxEvents " << maxEvents << "\nrechecked " << rechecked << "\nsteps " << steps << "\nevents " << events << "\nswitches " << switches
      << "\npreemptions " << preempt << "\nblocks " << blocks << "\narmedAllocs " << armed << "\nallocFaults " << afaults
      << "\nuserPoints " << upoints << "\nuserFaults " << ufaults << "\nsimTime " << simTime << "\nfaultRuns " << faultRuns
      << "\nnontrivial " << nontriv << "\nwall " << now() - t0 << "\n";
    for (int i = 0; i < 6; ++i) o << "sched" << i << " " << sched[i] << "\n";
    for (auto& w : byWl) o << "wl:" << w.first << " " << w.second << "\n";
    for (auto& p : probes) o << "probe:" << escape(p.first) << " " << p.second << "\n";
    for (auto& p : probeRuns) o << "probeRuns:" << escape(p.first) << " " << p.second << "\n";
    o << "sample " << escape(sample) << "\n";
    if (!firstBroken.empty()) o << "why " << escape(firstBroken) << "\n";
    o << "end 1\n";
    return 0;
}

bool load(const char* path, Plan& plan)
{
    std::ifstream f(path);
    std::stringstream s; s << f.rdbuf();
    std::string err;
    if (!f || !Plan::read(s.str(), plan, err)) { fprintf(stderr, "%s: %s\n", path, err.c_str()); return false; }
    return true;
}

int replay(int, char** argv)
{
    Plan plan;
    if (!load(argv[2], plan)) return 2;
    runPlan(plan);
    fputs(resultText(plan).c_str(), stdout);
    if (getenv("SIM_TEXT")) { fwrite(refRes->text, 1, refRes->ntext, stdout); puts("-----"); fwrite(res->text, 1, res->ntext, stdout); }
    return res->status == sim::Ok ? 0 : res->status == sim::Violated ? 1 : 2;
}

// -------------------------------------------------------------- minimise ---
struct Minimizer
{
    Plan best;             // always reproduces, in replay form
    std::string kind;
    double deadline;
    uint64_t tries = 0;

    bool time() { return now() < deadline; }

    // Does this plan, as scheduled, show the same violation? Keeps it if so.
    bool attempt(const Plan& p)
    {
        ++tries;
        runPlan(p);
        if (!sameViolation(kind)) return false;
        best = recorded(p);
        return true;
    }

    // The plan was changed in a way the recorded schedule may not survive.
    bool search(Plan p, const Plan& orig, int n)
    {
        if (attempt(p)) return true;
        p.replay = false; p.switches.clear();
        sim::Config keep = orig.sched;
        p.sched = keep;
        if (attempt(p)) return true;
        p.sched.mode = sim::Sequential;
        if (keep.mode != sim::Sequential && attempt(p)) return true;
        if (p.threads <= 1) return false;
        sim::Rng rng(orig.seed + tries);
        for (int i = 0; i < n && time(); ++i) {
            Plan q = p;
            if (i % 2) { setSchedule(rng, q); q.sched.fill = keep.fill; }
            else { q.sched = keep; q.sched.seed = rng.next() >> 16; }
            if (attempt(q)) return true;
        }
        return false;
    }

    template<typename V, typename F>
    void ddmin(V items, F tryWith)
    {
        size_t chunk = (items.size() + 1) / 2;
        while (!items.empty() && time()) {
            bool any = false;
            for (size_t at = 0; at < items.size() && time(); ) {
                V fewer(items.begin(), items.begin() + at);
                fewer.insert(fewer.end(), items.begin() + std::min(at + chunk, items.size()), items.end());
                if (tryWith(fewer)) { items = fewer; any = true; }
                else at += chunk;
            }
            if (chunk == 1 && !any) break;
            if (!any || chunk > items.size()) chunk = (chunk + 1) / 2;
            if (chunk == 0) break;
        }
    }
};

int minimize(int argc, char** argv)
{
    // minimize RECORDED ORIG OUT SECONDS
    Minimizer m;
    Plan rec, orig;
    if (!load(argv[2], rec) || !load(argv[3], orig)) return 2;
    m.deadline = now() + (argc > 5 ? atof(argv[5]) : 60);
    runPlan(rec);
    if (res->status != sim::Violated) {
        // e.g. more switches than can be recorded: replay from the seed instead
        runPlan(orig);
        if (res->status != sim::Violated) { fprintf(stderr, "does not reproduce\n"); return 2; }
        std::ofstream(argv[4]) << orig.print();
        return 0;
    }
    m.kind = res->kind;
    m.best = recorded(rec);

    for (int round = 0; round < 3 && m.time(); ++round) {
        size_t before = m.best.ops.size() + m.best.allocFaults.size() + m.best.userFaults.size();
        m.ddmin(m.best.ops, [&] (const std::vector<Op>& ops) { Plan p = m.best; p.ops = ops; return m.search(p, orig, 24); });
        m.ddmin(m.best.allocFaults, [&] (const std::vector<uint32_t>& f) { Plan p = m.best; p.allocFaults = f; return m.search(p, orig, 6); });
        m.ddmin(m.best.userFaults, [&] (const std::vector<uint32_t>& f) { Plan p = m.best; p.userFaults = f; return m.search(p, orig, 6); });
        size_t after = m.best.ops.size() + m.best.allocFaults.size() + m.best.userFaults.size();
        if (after == before) break;
    }
    // fewer context switches
    if (m.best.threads > 1 && m.time()) {
        Plan p = m.best;
        for (int i = 0; i < 40 && m.time(); ++i) { // a schedule with few switches to start from
            sim::Rng rng(orig.seed * 31 + i);
            Plan q = p; q.replay = false; q.switches.clear();
            q.sched.mode = sim::Pct; q.sched.depth = 1 + i % 3; q.sched.span = 8 + i % 11; q.sched.seed = rng.next() >> 16;
            runPlan(q);
            if (sameViolation(m.kind) && res->nswitch < m.best.switches.size()) m.best = recorded(q);
        }
    }
    m.ddmin(m.best.switches, [&] (const std::vector<sim::Switch>& s) {
        Plan p = m.best; p.switches = s;
        runPlan(p);
        m.tries++;
        if (!sameViolation(m.kind)) return false;
        m.best = p; // keep only the switches that matter
        return true;
    });
    runPlan(m.best);
    std::ofstream o(argv[4]);
    std::istringstream info(resultText(m.best));
    std::string l;
    while (std::getline(info, l)) o << "# " << l << "\n";
    o << m.best.print();
    fprintf(stdout, "tries %llu\n", (unsigned long long)m.tries);
    return 0;
}

} // namespace

int main(int argc, char** argv)
{
    sim::hostPhase();
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    if (const char* c = getenv("SIM_CPU")) {
        cpu_set_t have, set;
        if (!sched_getaffinity(0, sizeof have, &have)) {
            int k = atoi(c) % std::max(1, CPU_COUNT(&have));
            for (int i = 0; i < CPU_SETSIZE; ++i)
                if (CPU_ISSET(i, &have) && k-- == 0) { CPU_ZERO(&set); CPU_SET(i, &set); sched_setaffinity(0, sizeof set, &set); break; }
        }
    }
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    res = shared();
    refRes = shared();
    std::string cmd = argc > 1 ? argv[1] : "";
    { // what the standard library caches in the process on first use
        std::stringstream o;
        int i; double d;
        o << 1 << ' ' << 1.5 << ' ' << true << ' ' << (void*)&o << ' ' << std::hex << 16u << std::fixed << 2.5;
        o >> i >> d;
        std::stringstream empty;
        empty.get(); empty.peek();
    }
    if (cmd == "batch" && argc >= 8) return batch(argc, argv);
    if (cmd == "replay" && argc >= 3) return replay(argc, argv);
    if (cmd == "minimize" && argc >= 5) return minimize(argc, argv);
    if (cmd == "gen" && argc >= 4) {
        fputs(makePlan(argv[2], argc > 4 ? argv[4] : "", strtoull(argv[3], 0, 10)).print().c_str(), stdout);
        return 0;
    }
    if (cmd == "list") {
        for (auto& w : workloads()) printf("%s %s %d\n", w.property, w.name, w.weight);
        return 0;
    }
    fprintf(stderr, "usage: sim batch|replay|minimize|gen|list ...\n");
    return 2;
}
