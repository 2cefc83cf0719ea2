// wl_types.cpp - concurrent lookups of mutually referring types (C01, C02, C03)
// and lookups that fail (C06).
#include "gen.h"

#include <algorithm>

using namespace reflect;
using namespace gen;

namespace {

struct Modes { bool complete, identity; };

std::string hostStr(const std::string& s) { return std::string(s.data(), s.size()); }

// A lookup by a thread that isn't registering anything: the type must be
// complete, and the one descriptor of its type.
void checkNow(const Type* t, const std::string& what)
{
    if (!t) sim::violation("null-type", "lookup of %s returned null", what.c_str());
    identify(t);
    std::string d = describe(t), id = t->id();
    sim::Host host;
    for (int i = 0; i < N; ++i)
        if (id == genId(i).c_str()) {
            std::string m = model(i);
            if (hostStr(d) != m)
                sim::violation("incomplete-type", "lookup of %s returned\n  %s\nbut its registration declares\n  %s", what.c_str(), d.c_str(), m.c_str());
        }
    auto it = st->expect.find(hostStr(id));
    if (it != st->expect.end() && it->second != hostStr(d))
        sim::violation("incomplete-type", "lookup of %s returned\n  %s\nbut alone it is\n  %s", what.c_str(), d.c_str(), it->second.c_str());
    it = st->seen.emplace(hostStr(id), hostStr(d)).first;
    if (it->second != hostStr(d))
        sim::violation("type-changed", "%s changed from\n  %s\nto\n  %s", id.c_str(), it->second.c_str(), d.c_str());
}

const Type* get(int route, int j)
{
    try { return lookup(route, j); }
    catch (const std::exception& e) {
        sim::violation("spurious-failure", "lookup of %s %s failed: %s", genId(j).c_str(), routeName(route).c_str(), e.what());
    }
    return nullptr;
}

const Type* builtin(int k)
{
    switch (k) {
    case 0: return type<int>();
    case 1: return type<std::string>();
    case 2: return type<std::vector<std::string>>();
    case 3: return type<bool>();
    case 4: return type<double>();
    case 5: return type<Value>();
    case 6: return type<const Type*>();
    case 7: return type<std::map<std::string, bool>>();
    case 8: return type<char*>();
    case 9: return type<std::shared_ptr<std::string>>();
    }
    return type<void>();
}

bool usesTypes(const h::Op& op) { return op.name == "get" || op.name == "builtin" || op.name == "deep"; }

// One lookup operation of a thread.
void lookupOp(const h::Op& op, bool deep)
{
    if (op.name == "get") {
        int route = op.num(0), j = op.num(1);
        if (route < 0 || route >= NRoutes || j < 0 || j >= N) return;
        const Type* t = get(route, j);
        PROBE("lookup returned");
        checkNow(t, routeId(route, j));
        {
            sim::Host host;
            if (t->id() != routeId(route, j).c_str())
                sim::violation("wrong-type", "lookup of %s by %s returned %s", routeId(route, j).c_str(), routeName(route).c_str(), t->id().c_str());
        }
        if (deep || op.num(2)) { // everything reachable must be complete too
            std::vector<const Type*> all(1, t);
            closure(all, false);
            for (size_t k = 1; k < all.size(); ++k) checkNow(all[k], all[k]->id());
            identifyAll(t);
        }
        // once looked up, the alias that the registration code adds works
        for (auto& s : st->steps[j])
            if (op.num(2) && s.what == "alias") {
                const Type* a = nullptr;
                try { a = type(std::string(s.name)); }
                catch (const std::exception& e) { sim::violation("spurious-failure", "alias %s of %s doesn't work: %s", s.name.c_str(), genId(j).c_str(), e.what()); }
                if (a->id() != genId(j)) sim::violation("wrong-type", "alias %s yields %s", s.name.c_str(), a->id().c_str());
                identify(a);
            }
    }
    else if (op.name == "builtin") {
        const Type* t = builtin(op.num(0));
        checkNow(t, t->id());
    }
}

void thread(const h::Plan& plan, int tid)
{
    for (auto& op : plan.ops)
        if (op.thread == tid) lookupOp(op, plan.num("deep"));
}

void setup(const h::Plan& plan)
{
    registerAll();
    for (int i = 0; i < N; ++i) Registry::alias(genId(i), std::string("alias") + char('0' + i));
}

// Who is whose relative, and what can be passed for what.
void related(const std::vector<const Type*>& all)
{
    for (const Type* t : all) {
        if (leaf(t->id())) continue;
        std::vector<std::string>* rel;
        { sim::Host host; rel = new std::vector<std::string>(); }
        for (const Type* o : all) {
            if (o == t || leaf(o->id())) continue;
            bool child = t->isChildOf(o), parent = t->isParentOf(o), conv = t->hasConverter(o);
            int match = (int) Argument(t, RefType::LValue, false).isConvertibleTo(Argument(o, RefType::LValue, true));
            const std::string& id = o->id();
            sim::Host host;
            if (child || parent || conv || match)
                rel->push_back(hostStr(id) + (child ? " child" : "") + (parent ? " parent" : "") + (conv ? " converter" : "") + " " + std::to_string(match));
        }
        const std::string& id = t->id();
        sim::Host host;
        std::sort(rel->begin(), rel->end());
        std::string line = hostStr(id) + "~: parent";
        for (auto& r : *rel) line += "; " + r;
        delete rel;
        if (st->recording) { h::say(line); continue; }
        auto it = st->expect.find(hostStr(id) + "~");
        if (it != st->expect.end() && it->second != line)
            sim::violation("order-dependent", "the relatives of %s are\n  %s\nbut alone they are\n  %s", hostStr(id).c_str(), line.c_str(), it->second.c_str());
    }
}

// What everything looks like in the end.
void finale(const h::Plan& plan)
{
    std::vector<const Type*> all;
    for (auto& op : plan.ops) {
        if (op.name == "get" && op.thread >= 0) all.push_back(get(op.num(0) & 15, op.num(1) & 7));
        if (op.name == "builtin" && op.thread >= 0) all.push_back(builtin(op.num(0)));
    }
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    closure(all, plan.num("primitives"));
    if (plan.property == "C03") related(all);
    for (const Type* t : all) {
        identifyAll(t);
        std::string d = describe(t);
        if (plan.property == "C03") {
            std::string missing = notPrinted(t);
            if (!missing.empty()) sim::violation("not-printed", "print() of %s doesn't show %s:\n%s", t->id().c_str(), missing.c_str(), t->print().c_str());
        }
        { sim::Host host; if (!st->recording) sim::stateMix(std::hash<std::string>()(hostStr(d))); }
        if (st->recording) { sim::Host host; h::say(hostStr(d)); }
        else checkNow(t, t->id());
    }
    sim::Host host;
    for (int i = 0; i < N; ++i)
        for (const Type* t : all)
            if (t->id() == genId(i).c_str() && st->runs[i] != 1)
                sim::violation("registered-twice", "the registration code of %s ran %d times", genId(i).c_str(), st->runs[i]);
}

void parseRef(const std::string* ref)
{
    if (!ref) return;
    for (auto& l : h::split(*ref, '\n')) {
        size_t k = l.find(": parent");
        if (k != std::string::npos) st->expect[l.substr(0, k)] = l;
    }
}

void execLookups(const h::Plan& plan, const std::string* ref)
{
    begin(plan);
    parseRef(ref);
    h::runOne(setup, plan);
    h::runThreads(plan, plan.threads, thread);
    h::runOne(finale, plan);
}

// The same lookups by one thread, in the order of the types.
void refBody(const h::Plan& plan)
{
    setup(plan);
    for (int j = 0; j < N; ++j)
        for (int r = 0; r < NRoutes; ++r)
            for (auto& op : plan.ops)
                if (op.name == "get" && op.thread >= 0 && op.num(0) == r && op.num(1) == j) lookup(r, j);
    for (int k = 0; k < 12; ++k)
        for (auto& op : plan.ops)
            if (op.name == "builtin" && op.num(0) == k) builtin(k);
}

void refLookups(const h::Plan& plan)
{
    begin(plan);
    st->recording = true;
    h::runOne(refBody, plan);
    h::runOne(finale, plan);
}

void genOps(sim::Rng& rng, h::Plan& plan, int n, int perThread)
{
    // few targets make for contention
    int focus = rng.below(n);
    for (int t = 0; t < plan.threads; ++t) {
        int k = 1 + rng.below(perThread);
        for (int i = 0; i < k; ++i) {
            if (rng.chance(1, 14)) { plan.add(t, "builtin") << (long)rng.below(10); continue; }
            int j = rng.chance(1, 2) ? focus : rng.below(n);
            int r = rng.chance(1, 3) ? rng.below(8) : rng.chance(1, 2) ? 8 + rng.below(8) : rng.below(NRoutes);
            plan.add(t, "get") << (long)r << (long)j << (long)rng.chance(1, 4);
        }
    }
}

void genC01(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 2 + rng.below(3);
    int n = 1 + rng.below(N);
    genSteps(rng, plan, n, true, 5);
    genOps(rng, plan, n, 4);
    h::setSchedule(rng, plan);
}

void genC02(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 2 + rng.below(3);
    int n = 2 + rng.below(N - 1);
    genSteps(rng, plan, n, true, 8);
    genOps(rng, plan, n, 3);
    plan.set("deep", rng.chance(2, 3));
    h::setSchedule(rng, plan);
}

void genC03(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 1 + rng.below(4);
    int n = 2 + rng.below(N - 1);
    genSteps(rng, plan, n, true, 9);
    genOps(rng, plan, n, 5);
    plan.set("primitives", rng.chance(1, 12));
    h::setSchedule(rng, plan);
}

// ---------------------------------------------------------------- failures --
// C06: the first phase injects failures, the second must find everything in
// order.

bool mayFail(const h::Plan& plan)
{
    if (!plan.allocFaults.empty()) return true;
    for (auto& op : plan.ops) if (op.name == "step" && op.str(1) == "fail") return true;
    return false;
}

void onSuccess(const Type* t, const std::string& what)
{
    // everything reachable is complete
    std::vector<const Type*> all(1, t);
    closure(all, false);
    for (const Type* x : all) checkNow(x, what);
    identifyAll(t);
    sim::Host host;
    for (const Type* x : all)
        for (int i = 0; i < N; ++i) if (x->id() == genId(i).c_str()) st->done[i] = 1;
}

void tryLookup(const h::Op& op, const h::Plan& plan, bool faults)
{
    int route = op.num(0), j = op.num(1);
    if (route < 0 || route >= NRoutes || j < 0 || j >= N) return;
    const Type* t = nullptr;
    std::string err;
    const bool done = st->done[j];
    sim::arm(faults);
    try { t = lookup(route, j); }
    catch (const std::bad_alloc&) { sim::Host h; err = "out of memory"; }
    catch (const std::exception& e) { sim::Host h; err = e.what(); }
    catch (int) { sim::Host h; err = "int"; }
    sim::arm(false);
    if (t) { onSuccess(t, routeId(route, j)); PROBE("lookup succeeded in fault phase"); return; }
    sim::Host host;
    int fails = 0;
    for (int i = 0; i < N; ++i) fails += st->fails[i];
    if (err.empty()) sim::violation("null-type", "lookup of %s returned null", routeId(route, j).c_str());
    if (!faults) sim::violation("not-retryable", "lookup of %s (%s) failed although nothing fails anymore: %s", routeId(route, j).c_str(), routeName(route).c_str(), err.c_str());
    if (!fails && !sim::allocFaults())
        sim::violation("spurious-failure", "lookup of %s (%s) failed without cause: %s", routeId(route, j).c_str(), routeName(route).c_str(), err.c_str());
    if (done)
        if (route == 0 || route == 5 || (route >= 8 && route <= 12))
            if (!sim::allocFaults())
                sim::violation("lost-type", "lookup of %s failed after an earlier one succeeded: %s", routeId(route, j).c_str(), err.c_str());
    PROBE("lookup failed");
}

void faultyThread(const h::Plan& plan, int tid)
{
    for (auto& op : plan.ops) if (op.thread == tid && op.name == "get") tryLookup(op, plan, true);
}
void retryBody(const h::Plan& plan)
{
    for (auto& op : plan.ops) if (op.thread >= 0 && op.name == "get") tryLookup(op, plan, false);
    // types on the way to which something failed
    for (auto& op : plan.ops)
        if (op.name == "step") {
            int i = op.num(0);
            h::Op g; g.thread = 0; g.name = "get"; { sim::Host host; g << 8 << (long)i; }
            tryLookup(g, plan, false);
        }
}
void provide(const h::Plan& plan)
{
    // the causes are gone: failures that were not used up are called off
    sim::Host host;
    for (int i = 0; i < N; ++i) st->fails[i] = 1 << 20;
}

void execFail(const h::Plan& plan, const std::string*)
{
    begin(plan);
    st->multi = true;
    h::runOne(setup, plan);
    h::runThreads(plan, plan.threads, faultyThread);
    h::runOne(provide, plan);
    h::runOne(retryBody, plan);
}

void genFail(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = rng.chance(1, 3) ? 2 + rng.below(2) : 1;
    int n = 2 + rng.below(N - 1);
    genSteps(rng, plan, n, true, 6);
    // failures at random places of the registration code
    int fails = rng.chance(2, 3) ? 1 + rng.below(2) : 0;
    for (int k = 0; k < fails; ++k) {
        h::Op op; op.thread = -1; op.name = "step";
        op << (long)rng.below(n) << "fail" << "" << (long)rng.below(7) << 0 << (long)(1 + rng.below(2));
        plan.ops.insert(plan.ops.begin() + rng.below(plan.ops.size() + 1), op);
    }
    if (!fails || rng.chance(1, 3)) {
        int k = 1 + rng.below(2);
        int span = 1 << (3 + rng.below(9));
        for (int i = 0; i < k; ++i) plan.allocFaults.push_back(1 + rng.below(span));
        std::sort(plan.allocFaults.begin(), plan.allocFaults.end());
    }
    genOps(rng, plan, n, 4);
    for (auto& op : plan.ops) if (op.name == "builtin") { op.name = "get"; op.args = { "0", std::to_string(rng.below(n)) }; }
    h::setSchedule(rng, plan);
    plan.sched.failRun = rng.chance(1, 5) ? 3 : 1;
}

// --------------------------------------------------------------- ambiguity ---
// Recorded defect (known_findings.txt): whether overloads taking a type and its
// parent are ambiguous depends on whether that type's parent is known yet.
void ambiguityBody(const h::Plan& plan)
{
    setup(plan);
    for (auto& op : plan.ops) {
        if (op.name != "get") continue;
        std::string err;
        try { lookup(op.num(0) & 7, op.num(1) & 7); }
        catch (const std::exception& e) { err = e.what(); }
        sim::Host host;
        h::say(genId(op.num(1) & 7) + (err.empty() ? " found" : " not found"));
    }
}

void execAmbiguity(const h::Plan& plan, const std::string* ref)
{
    begin(plan);
    st->multi = true;
    st->expect["ref"] = ref ? *ref : "";
    struct F { static void f(const h::Plan& plan) {
        setup(plan);
        for (size_t i = plan.ops.size(); i-- > 0;) {
            const h::Op& op = plan.ops[i];
            if (op.name != "get") continue;
            std::string err;
            try { lookup(op.num(0) & 7, op.num(1) & 7); }
            catch (const std::exception& e) { err = e.what(); }
            sim::Host host;
            std::string line = genId(op.num(1) & 7) + (err.empty() ? " found" : " not found") + "\n";
            if (st->expect["ref"].find(line) == std::string::npos)
                sim::violation("order-dependent", "looked up in another order, it's not: %s (%s)", line.substr(0, line.size() - 1).c_str(), err.c_str());
        }
    } };
    h::runOne(F::f, plan);
}

void refAmbiguity(const h::Plan& plan)
{
    begin(plan);
    st->multi = true;
    h::runOne(ambiguityBody, plan);
}

void genAmbiguity(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 1;
    plan.add(-1, "step") << 0 << "fn" << "f" << 2 << 1 << 0;
    plan.add(-1, "step") << 0 << "fn" << "f" << 2 << 2 << 0;
    plan.add(-1, "step") << 1 << "field" << "owner" << 0 << 0 << 0;
    plan.add(-1, "step") << 1 << "parent" << "" << 0 << 2 << 0;
    plan.add(0, "get") << 0 << 1;
    plan.add(0, "get") << 0 << 0;
    plan.sched.mode = sim::Sequential;
    plan.sched.seed = rng.next();
}

struct Init { Init() {
    h::add({ "C03", "ambiguity", 0, genAmbiguity, execAmbiguity, refAmbiguity, false });
    h::add({ "C01", "lookups", 10, genC01, execLookups, refLookups, true });
    h::add({ "C02", "lookups", 10, genC02, execLookups, refLookups, false });
    h::add({ "C03", "lookups", 10, genC03, execLookups, refLookups, false });
    h::add({ "C06", "failures", 10, genFail, execFail, nullptr, false });
} } init;

} // namespace anonymous
