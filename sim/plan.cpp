// plan.cpp - plan files, and helpers shared by the workloads. Not instrumented.
#include "plan.h"

#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sstream>

namespace h {

const std::string& Op::str(size_t i) const
{
    static const std::string empty;
    return i < args.size() ? args[i] : empty;
}
long Op::num(size_t i) const { return i < args.size() ? atol(args[i].c_str()) : 0; }

Plan::Plan()
{
    memset(&sched, 0, sizeof sched);
    sched.mode = sim::Sequential;
    sched.seed = 1;
    sched.p = 1;
    sched.budget = 300000000;
    sched.fill = 0xCD;
    sched.failRun = 1;
}

long Plan::num(const char* key, long def) const
{
    auto it = cfg.find(key);
    return it == cfg.end() ? def : atol(it->second.c_str());
}
std::string Plan::str(const char* key, const char* def) const
{
    auto it = cfg.find(key);
    return it == cfg.end() ? def : it->second;
}
void Plan::set(const char* key, long v) { cfg[key] = std::to_string(v); }
void Plan::set(const char* key, const std::string& v) { cfg[key] = v; }
Op& Plan::add(int thread, const char* name)
{
    ops.emplace_back();
    ops.back().thread = thread;
    ops.back().name = name;
    return ops.back();
}

Op& operator<<(Op& op, const std::string& s) { op.args.push_back(s); return op; }
Op& operator<<(Op& op, long n) { op.args.push_back(std::to_string(n)); return op; }

std::string escape(const std::string& s)
{
    if (s.empty()) return "\\e";
    std::string r;
    for (unsigned char c : s) {
        if (c == '\\') r += "\\\\";
        else if (c == ' ') r += "\\s";
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7F) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += c;
    }
    return r;
}

std::string unescape(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\\' || i + 1 >= s.size()) { r += s[i]; continue; }
        char c = s[++i];
        if (c == 's') r += ' ';
        else if (c == 'n') r += '\n';
        else if (c == 'e') continue;
        else if (c == 'x' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else r += c;
    }
    return r;
}

std::string Plan::print() const
{
    std::ostringstream o;
    o << "reflect-sim-plan 1\n";
    o << "property " << property << "\nworkload " << workload << "\nseed " << seed << "\nthreads " << threads << "\n";
    for (auto& c : cfg) o << "cfg " << c.first << " " << escape(c.second) << "\n";
    for (auto& op : ops) {
        o << "op " << op.thread << " " << op.name;
        for (auto& a : op.args) o << " " << escape(a);
        o << "\n";
    }
    if (!allocFaults.empty()) { o << "fail"; for (auto k : allocFaults) o << " " << k; o << "\n"; }
    if (!userFaults.empty()) { o << "userfail"; for (auto k : userFaults) o << " " << k; o << "\n"; }
    o << "sched " << sched.mode << " " << sched.seed << " " << sched.p << " " << sched.depth << " " << sched.span
      << " " << sched.budget << " " << sched.fill << " " << sched.layout << " " << sched.failRun << "\n";
    if (replay) {
        o << "replay " << switches.size() << "\n";
        for (auto& s : switches) o << "switch " << s.tid << " " << s.lstep << " " << s.target << "\n";
    }
    o << "end\n";
    return o.str();
}

bool Plan::read(const std::string& text, Plan& plan, std::string& err)
{
    plan = Plan();
    std::istringstream in(text);
    std::string line;
    bool ended = false;
    int n = 0;
    while (std::getline(in, line)) {
        ++n;
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string key, w;
        l >> key;
        if (key == "reflect-sim-plan") continue;
        else if (key == "property") l >> plan.property;
        else if (key == "workload") l >> plan.workload;
        else if (key == "seed") l >> plan.seed;
        else if (key == "threads") l >> plan.threads;
        else if (key == "cfg") { std::string v; l >> w >> v; plan.cfg[w] = unescape(v); }
        else if (key == "op") {
            Op op;
            l >> op.thread >> op.name;
            while (l >> w) op.args.push_back(unescape(w));
            plan.ops.push_back(op);
        }
        else if (key == "fail") { uint32_t k; while (l >> k) plan.allocFaults.push_back(k); }
        else if (key == "userfail") { uint32_t k; while (l >> k) plan.userFaults.push_back(k); }
        else if (key == "sched") {
            auto& s = plan.sched;
            l >> s.mode >> s.seed >> s.p >> s.depth >> s.span >> s.budget >> s.fill >> s.layout >> s.failRun;
            if (!l) { err = "bad sched line"; return false; }
        }
        else if (key == "replay") plan.replay = true;
        else if (key == "switch") { sim::Switch s; l >> s.tid >> s.lstep >> s.target; plan.switches.push_back(s); }
        else if (key == "end") { ended = true; break; }
        else { err = "line " + std::to_string(n) + ": unknown key " + key; return false; }
    }
    if (!ended) { err = "truncated plan"; return false; }
    return true;
}

static std::vector<Workload>& all() { static std::vector<Workload> w; return w; }
void add(const Workload& w) { all().push_back(w); }
const std::vector<Workload>& workloads() { return all(); }

struct Arg { const Plan* plan; int thread; ThreadFn fn; void (*one)(const Plan&); };
static void body(void* p)
{
    Arg* a = (Arg*)p;
    if (a->fn) a->fn(*a->plan, a->thread); else a->one(*a->plan);
}

void runThreads(const Plan& plan, int n, ThreadFn fn)
{
    Arg a[sim::MaxThreads]; void* p[sim::MaxThreads]; sim::Body b[sim::MaxThreads];
    if (n > sim::MaxThreads) n = sim::MaxThreads;
    for (int i = 0; i < n; ++i) { a[i] = Arg{ &plan, i, fn, nullptr }; p[i] = &a[i]; b[i] = body; }
    sim::run(n, b, p);
}

void runOne(void (*fn)(const Plan&), const Plan& plan)
{
    Arg a = { &plan, 0, nullptr, fn };
    void* p = &a;
    sim::Body b = body;
    sim::run(1, &b, &p);
}

std::string format(const char* fmt, ...)
{
    char b[4096];
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    return b;
}

void say(const std::string& s)
{
    sim::text(s.data(), s.size());
    sim::text("\n", 1);
}

std::vector<std::string> split(const std::string& s, char sep)
{
    std::vector<std::string> r;
    std::string cur;
    for (char c : s) { if (c == sep) { r.push_back(cur); cur.clear(); } else cur += c; }
    r.push_back(cur);
    return r;
}

void setSchedule(sim::Rng& rng, Plan& plan)
{
    auto& s = plan.sched;
    s.seed = rng.next() >> 16;
    static const uint32_t fills[] = { 0xCD, 0x00, 0xFF, 0x01, 0x7F };
    s.fill = fills[rng.below(5)];
    s.layout = rng.chance(1, 6) ? rng.next() >> 20 : 0;
    if (plan.threads <= 1) { s.mode = sim::Sequential; return; }
    auto logUniform = [&] (int lo, int hi) {
        int k = lo + (int)rng.below(hi - lo + 1);
        return (uint32_t)((1u << k) + rng.below(1u << k));
    };
    uint32_t k = rng.below(100);
    if (k < 35)      { s.mode = sim::Conflict; s.p = logUniform(0, 7); }
    else if (k < 60) { s.mode = sim::Uniform;  s.p = logUniform(3, 14); }
    else if (k < 80) { s.mode = sim::SyncOnly; s.p = 1 + rng.below(8); }
    else if (k < 97) { s.mode = sim::Pct; s.depth = 1 + rng.below(5); s.span = 9 + rng.below(10); }
    else             { s.mode = sim::Sequential; }
}

} // namespace h
