// wl_reg.cpp - registering and aliasing names from several threads (C05),
// registration steps that fail (C14) and the scope tree (C17).
#include "gen.h"
#include "ob.h"

#include <string.h>
#include <algorithm>
#include <set>
#include <unordered_set>

using namespace reflect;

namespace {

std::string host(const std::string& s) { return std::string(s.data(), s.size()); }
bool has(const std::string& text, const char* part) { return strstr(text.c_str(), part) != nullptr; }

// =========================================================================== C05
// Every operation is recorded with the time it began and ended, and afterwards
// an order is searched in which one thread would have got the same answers.

enum Outcome { OkVoid, OkVariant, Yes, No, Unknown, Taken, Memory, Other };
struct Event
{
    size_t op; int thread; uint64_t begin, end;
    int outcome; long variant; const Type* type; std::string error;
};
std::vector<Event>* events;

const char* outcomeName(int o)
{
    static const char* n[] = { "done", "type of registration", "yes", "no", "unknown name", "already aliased", "out of memory", "failed" };
    return n[o];
}

// The last two are long and only differ at the end.
std::string nameOf(long n) { return n >= 6 ? "c05::" + std::string(80, 'n') + char('0' + n) : std::string(n & 1 ? "c05::n" : "m") + char('0' + n); }
// Names of types can be aliases of others as well.
std::string aliasOf(long a) { return a >= 4 ? nameOf(a - 4) : "alias" + std::to_string(a); }

// What the registration code of an add operation does.
struct Code { long variant; long alias, needs; };
Code codeOf(const h::Plan& plan, size_t i)
{
    Code c = { (long) i, plan.ops[i].num(1), plan.ops[i].num(2) };
    return c;
}

void performC05(const h::Plan& plan, size_t i, int tid)
{
    const h::Op& op = plan.ops[i];
    if (op.name != "add" && op.name != "alias" && op.name != "get" && op.name != "has") return;
    std::string name, second;
    Event e = {};
    e.op = i; e.thread = tid;
    {
        sim::Host host;
        e.begin = sim::stamp();
    }
    name = nameOf(op.num(0) & 7);
    if (op.name == "alias") second = aliasOf(op.num(1) & 7);
    if (op.name == "get" && op.num(1) == 2) name = aliasOf(op.num(0) & 7);
    std::string error;
    bool memory = false;
    sim::arm(true);
    try {
        if (op.name == "add") {
            Code c = codeOf(plan, i);
            std::string id = name;
            auto loader = [c, id] (Type* type) {
                type->addTrait("variant", c.variant);
                if (c.needs >= 0) reflect::type(nameOf(c.needs & 7));
                if (c.alias >= 0) Registry::alias(id, aliasOf(c.alias & 7));
            };
            Registry::add(name, loader);
            e.outcome = OkVoid;
        }
        else if (op.name == "alias") { Registry::alias(name, second); e.outcome = OkVoid; }
        else if (op.name == "has") { e.outcome = scope()->hasType(name) ? Yes : No; }
        else {
            const Type* t = op.num(1) == 1 ? scope()->type(name) : type(name);
            sim::arm(false);
            e.type = t;
            e.variant = t->getValue<long>("variant");
            e.outcome = OkVariant;
        }
    }
    catch (const std::bad_alloc&) { memory = true; }
    catch (const std::exception& x) { sim::arm(false); error = x.what(); }
    sim::arm(false);
    sim::Host h;
    e.end = sim::stamp();
    e.error = host(error);
    if (memory) e.outcome = Memory;
    else if (!e.error.empty()) e.outcome = has(e.error, "no loader found") || has(e.error, "unknown type") ? Unknown : has(e.error, "already aliased") ? Taken : Other;
    if (e.outcome == Other)
        sim::violation("wrong-outcome", "%s of %s failed: %s", op.name.c_str(), name.c_str(), e.error.c_str());
    events->push_back(e);
}

void threadC05(const h::Plan& plan, int tid)
{
    for (size_t i = 0; i < plan.ops.size(); ++i)
        if (plan.ops[i].thread == tid) performC05(plan, i, tid);
}

struct RegModel
{
    int reg[8], loaded[8], alias[8]; // add operation, loaded?, name
    RegModel() { for (int i = 0; i < 8; ++i) { reg[i] = alias[i] = -1; loaded[i] = 0; } }
    uint64_t hash() const { uint64_t x = 7; for (int i = 0; i < 8; ++i) x = x * 1000003 + (reg[i] + 1) * 64 + (alias[i] + 1) * 2 + loaded[i]; return x; }
};

// What an alias says goes, whether or not there's a type of that name, loaded or not.
int resolve(const RegModel& m, int n) { return n < 4 && m.alias[n + 4] >= 0 ? m.alias[n + 4] : n; }

int load(const h::Plan& plan, RegModel& m, int n)
{
    if (m.reg[n] < 0) return Unknown;
    if (m.loaded[n]) return OkVariant;
    RegModel before = m;
    Code c = codeOf(plan, m.reg[n]);
    m.loaded[n] = 1;
    int r = OkVariant;
    if (c.needs >= 0) r = load(plan, m, resolve(m, c.needs & 7));
    if (r == OkVariant && c.alias >= 0) {
        if (m.alias[c.alias & 7] >= 0) r = Taken; else m.alias[c.alias & 7] = n;
    }
    if (r != OkVariant) m = before;
    return r;
}

// Performs the operation in the model; false if it would give another answer.
bool apply(const h::Plan& plan, RegModel& m, const Event& e)
{
    if (e.outcome == Memory) return true;
    const h::Op& op = plan.ops[e.op];
    int n = op.num(0) & 7;
    if (op.name == "add") { if (m.reg[n] < 0) m.reg[n] = e.op; return e.outcome == OkVoid; }
    if (op.name == "alias") {
        int a = op.num(1) & 7;
        if (m.alias[a] >= 0) return e.outcome == Taken;
        m.alias[a] = n;
        return e.outcome == OkVoid;
    }
    if (op.name == "has") return e.outcome == (m.reg[n] >= 0 ? Yes : No);
    if (op.num(1) == 1 && m.reg[n] < 0) return e.outcome == Unknown; // scopes know only registered names
    if (op.num(1) != 2) n = resolve(m, n);
    else if (m.alias[n] >= 0) n = m.alias[n];
    else if (n >= 4) n -= 4;
    else return e.outcome == Unknown;
    int r = load(plan, m, n);
    if (r != e.outcome) return false;
    return r != OkVariant || e.variant == m.reg[n];
}

struct Search
{
    const h::Plan& plan; std::vector<Event>& ev; std::unordered_set<uint64_t> seen; size_t states, deepest;
    std::vector<size_t> best;
    bool go(uint32_t done, const RegModel& m, std::vector<size_t>& order)
    {
        if (order.size() > best.size()) best = order;
        if (order.size() == ev.size()) return true;
        if (!seen.insert(m.hash() * 0x9E3779B97F4A7C15ull ^ done).second) return false;
        ++states;
        uint64_t limit = ~0ull; // an operation can't come after one that ended before it began
        for (size_t i = 0; i < ev.size(); ++i) if (!(done >> i & 1)) limit = std::min(limit, ev[i].end);
        for (size_t i = 0; i < ev.size(); ++i) {
            if (done >> i & 1 || ev[i].begin > limit) continue;
            RegModel next = m;
            if (!apply(plan, next, ev[i])) continue;
            order.push_back(i);
            if (go(done | 1u << i, next, order)) return true;
            order.pop_back();
        }
        return false;
    }
};

void finaleC05(const h::Plan& plan)
{
    // what everything is in the end is part of the history
    for (size_t i = 0; i < plan.ops.size(); ++i)
        if (plan.ops[i].thread < 0) performC05(plan, i, -1);
    sim::Host host;
    std::vector<Event>& ev = *events;
    if (ev.size() > 31) ev.resize(31);
    // the same name is always the same type
    for (auto& a : ev) for (auto& b : ev)
        if (a.outcome == OkVariant && b.outcome == OkVariant && (a.variant == b.variant) != (a.type == b.type))
            sim::violation("two-types", "two descriptors for one registration or one for two: registrations %ld and %ld", a.variant, b.variant);
    Search s = { plan, ev, {}, 0, 0, {} };
    std::vector<size_t> order;
    if (s.go(0, RegModel(), order)) {
        for (size_t i : order) sim::stateMix(plan.ops[ev[i].op].name.size() * 16 + ev[i].outcome);
        for (auto& a : ev) for (auto& b : ev) if (a.thread != b.thread && a.begin < b.begin && b.begin < a.end) sim::nontrivial();
        return;
    }
    std::string text;
    for (auto& e : ev) {
        const h::Op& op = plan.ops[e.op];
        text += h::format("\n  thread %d [%llu,%llu] %s %s %s: %s %s", e.thread, (unsigned long long) e.begin, (unsigned long long) e.end, op.name.c_str(),
            (op.name == "get" && op.num(1) == 2 ? aliasOf(op.num(0) & 7) : nameOf(op.num(0) & 7)).c_str(), op.name == "alias" ? aliasOf(op.num(1) & 7).c_str() : "",
            outcomeName(e.outcome), e.outcome == OkVariant ? std::to_string(e.variant).c_str() : "");
    }
    text += "\nat most these fit:";
    for (size_t i : s.best) text += " " + std::to_string(i);
    sim::violation("not-atomic", "no order of these operations explains their answers:%s", text.c_str());
}

void execC05(const h::Plan& plan, const std::string*)
{
    events = new std::vector<Event>();
    events->reserve(256);
    h::runThreads(plan, plan.threads, threadC05);
    h::runOne(finaleC05, plan);
}

void genC05(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 2 + rng.below(3);
    int names = 1 + rng.below(4), aliases = 1 + rng.below(3), total = 0;
    bool codes = rng.chance(1, 2);
    long first = rng.below(2);
    // names of types as aliases
    const bool shadow = rng.chance(1, 3);
    auto aliasName = [&] () -> long { return shadow && rng.chance(1, 2) ? 4 + rng.below(4) : rng.below(aliases); };
    auto op = [&] (int t) {
        if (total > 22) return;
        ++total;
        long n = first + rng.below(names);
        switch (rng.below(10)) {
        case 0: case 1: case 2:
            plan.add(t, "add") << n << (long)(codes && rng.chance(1, 3) ? aliasName() : -1) << (long)(codes && rng.chance(1, 3) ? first + (long) rng.below(names) : -1); break;
        case 3: case 4: plan.add(t, "alias") << n << aliasName(); break;
        case 5: case 6: plan.add(t, "get") << n << (long) rng.below(2); break;
        case 7: case 8: plan.add(t, "get") << aliasName() << 2; break;
        case 9: plan.add(t, "has") << n; break;
        }
    };
    for (int t = 0; t < plan.threads; ++t) for (int k = 2 + rng.below(5); k > 0; --k) op(t);
    for (int k = 0; k < names; ++k) plan.add(-1, "get") << (long)(first + k) << 0;
    for (int k = 0; k < aliases; ++k) plan.add(-1, "get") << (long) k << 2;
    if (rng.chance(1, 3)) {
        int span = 1 << (2 + rng.below(7));
        for (int k = 1 + rng.below(4); k > 0; --k) plan.allocFaults.push_back(1 + rng.below(span));
        std::sort(plan.allocFaults.begin(), plan.allocFaults.end());
    }
    h::setSchedule(rng, plan);
}

struct Init { Init() {
    h::add({ "C05", "history", 10, genC05, execC05, nullptr, true });
} } init;

} // namespace anonymous
