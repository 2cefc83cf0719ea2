// wl_all.cpp - threads that do everything the library offers at once, with types
// none of which was used before. All of it must come to an end (C04).
#include "gen.h"
#include "js.h"
#include "vals.h"

#include <algorithm>
#include <sstream>

using namespace reflect;

namespace {

std::vector<js::Tree>* trees;
bool armed;

void jsonOp(const h::Op& op, size_t index)
{
    if (op.name == "parse") {
        std::string text;
        { sim::Host host; text = op.str(1); }
        std::istringstream stream(text.c_str());
        js::Obj obj(op.num(0));
        json::Reader reader(stream, (json::Reader::Options)(op.num(2) & 7));
        sim::arm(armed);
        obj.parse(reader);
    }
    else {
        js::Obj obj(op.num(0));
        obj.fill((*trees)[index]);
        std::ostringstream stream;
        json::Writer writer(stream, (json::Writer::Options)(op.num(2) & 15));
        sim::arm(armed);
        obj.print(writer);
    }
}

std::string fnName(long n) { return std::string(n & 1 ? "c04::f" : "f04") + char('a' + (n & 7)); }
std::string typeName(long n) { return std::string(n & 1 ? "c04::a::T" : "T04") + char('a' + (n & 7)); }

void scopeOp(long kind, long n)
{
    std::string name;
    switch (kind) {
    case 0: scope()->print(); break;
    case 1: scope()->types(true); break;
    case 2: scope()->functions(true); break;
    case 3: scope()->hasType(gen::genId(n & 7)); break;
    case 4: scope()->type(gen::genId(n & 7)); break;
    case 5: scope()->scope(n & 1 ? "c04::a" : "c04::b")->scopes(); break;
    case 6: name = typeName(n); Registry::add(name, [n] (Type* t) { t->addTrait("mark", n); }); break;
    case 7: type(typeName(n)); break;
    case 8: name = fnName(n); scope()->call<long>(name, 1l); break;
    case 9: name = fnName(n); scope()->function(name).call<long>(n); break;
    case 10: Registry::alias(typeName(n), "alias04" + std::to_string(n & 3)); break;
    case 11: type("alias04" + std::to_string(n & 3)); break;
    case 12: type(n & 1 ? "long int" : "std::vector<long int>"); break;

    // Nothing of what these touch was loaded before.
    case 13: { const Overloads& f = scope()->function("v04"); f.test(f[0]); break; }
    case 14: scope()->function("v04").test<void()>(); break;
    case 15: scope()->call<void>("v04"); break;
    case 16: { Function f("local", [] {}); f.test<void()>(); scope()->function("v04").test(f); break; }
    }
}
enum { NScopeOps = 17 };

void calls(long j)
{
    const Type* t = gen::lookup(j & 7, j >> 3 & 7);
    sim::arm(armed);
    t->print();
    if (t->hasFunction(t->id())) { Value v = t->construct(); v.type()->functions(); if (v.type()->isCopiable()) v.copy(); }
    for (auto& f : t->fields()) t->field(f).type()->isPointer();
}

// What registration code may do: use the library.
void inRegistration(long kind, long j)
{
    switch (kind) {
    case 0: { js::Ints v; json::parse("[1,2,3]", v); break; }
    case 1: { js::Strings v; v.push_back("x"); json::print(v); break; }
    case 2: { js::Obj v(js::KLeaf); v.parse(std::string("{\"i\":1,\"s\":\"x\"}")); break; }
    case 3: { js::Obj v(js::KMoney); v.print(); break; }
    default: try { scopeOp(kind - 4, j); } catch (const std::exception&) {}
    }
}

bool machineOp(const h::Op& op)
{
    return op.thread >= 0 && op.name != "get" && op.name != "parse" && op.name != "print" && op.name != "scope" && op.name != "step" && op.name != "use";
}

void thread(const h::Plan& plan, int tid)
{
    vals::Machine* m = nullptr;
    for (auto& op : plan.ops) if (op.thread == tid && machineOp(op) && !m) m = new vals::Machine(false);
    for (size_t i = 0; i < plan.ops.size(); ++i) {
        const h::Op& op = plan.ops[i];
        if (op.thread != tid) continue;
        try {
            if (op.name == "get") {
                if (op.num(0) < 0 || op.num(0) >= gen::NRoutes || op.num(1) < 0 || op.num(1) >= gen::N) continue;
                sim::arm(armed);
                gen::lookup(op.num(0), op.num(1));
            }
            else if (op.name == "parse" || op.name == "print") jsonOp(op, i);
            else if (op.name == "scope") { sim::arm(armed); scopeOp(op.num(0), op.num(1)); }
            else if (op.name == "use") { sim::arm(armed); calls(op.num(0)); }
            else m->run(op);
        }
        catch (...) {}
        sim::arm(false);
        sim::Host h;
        sim::stateMix(i * 4 + tid);
    }
    if (m) delete m;
}

// A deadlock may only show when someone needs what a thread that has gone holds.
void afterwards(const h::Plan& plan)
{
    sim::nontrivial();
    for (auto& op : plan.ops) {
        if (op.thread < 0 || op.name != "get" || op.num(0) < 0 || op.num(0) >= gen::NRoutes || op.num(1) < 0 || op.num(1) >= gen::N) continue;
        try { gen::lookup(op.num(0), op.num(1)); } catch (...) {}
    }
    js::Obj l(js::KLeaf);
    try { l.parse(std::string("{\"i\":1}")); l.print(); scope()->print(); } catch (...) {}
}

// As static initializers do.
void setup(const h::Plan& plan)
{
    gen::registerAll();
    scope()->addFunction("v04", [] {});
    if (!plan.num("plain"))
        for (long n = 0; n < 2; ++n) scope()->addFunction(fnName(n), [] (long i) -> long { return i + 1; });
    if (plan.num("warm")) { vals::warm(); type<long>(); type<void>(); }
}

void exec(const h::Plan& plan, const std::string*)
{
    ob::begin();
    vals::shared = nullptr;
    gen::begin(plan);
    gen::st->multi = true;
    gen::userStep = inRegistration;
    armed = !plan.allocFaults.empty();
    trees = new std::vector<js::Tree>(plan.ops.size());
    for (size_t i = 0; i < plan.ops.size(); ++i)
        if (plan.ops[i].name == "print") js::scan(plan.ops[i].str(1) + " ", false, &(*trees)[i]);
    h::runOne(setup, plan);
    h::runThreads(plan, plan.threads, thread);
    h::runOne(afterwards, plan);
}

void generate(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 2 + rng.below(3);
    bool plain = rng.chance(1, 3);
    if (plain) plan.set("plain", 1);
    else if (rng.chance(1, 5)) plan.set("warm", 1);
    int n = 1 + rng.below(gen::N);
    gen::genSteps(rng, plan, n, true, 5);
    if (rng.chance(1, 2)) // registration code that uses the library, or fails
        for (int k = 1 + rng.below(3); k > 0; --k) {
            h::Op op; op.thread = -1; op.name = "step";
            if (rng.chance(2, 3)) op << (long) rng.below(n) << "user" << "" << (long) rng.below(4 + NScopeOps) << (long) rng.below(gen::N) << 0;
            else op << (long) rng.below(n) << "fail" << "" << (long) rng.below(7) << 0 << (long)(1 + rng.below(3));
            plan.ops.insert(plan.ops.begin() + rng.below(plan.ops.size() + 1), op);
        }
    int focus = rng.below(n), kind = rng.below(js::NAll);
    int share[5]; // what this run is mostly about
    for (int& s : share) s = rng.chance(1, 2) ? 1 + rng.below(4) : 0;
    int all = share[0] + share[1] + share[2] + share[3] + share[4];
    if (!all) { share[0] = 1; all = 1; }
    for (int t = 0; t < plan.threads; ++t)
        for (int k = 1 + rng.below(4); k > 0; --k) {
            int pick = rng.below(all), what = 0;
            while (pick >= share[what]) pick -= share[what++];
            long j = rng.chance(1, 2) ? focus : rng.below(n);
            switch (what) {
            case 0: plan.add(t, "get") << (long) rng.below(gen::NRoutes) << j; break;
            case 1: {
                int kd = rng.chance(1, 2) ? kind : rng.below(js::NAll);
                bool print = kd < js::NKinds && kd != js::KAny && rng.chance(1, 2);
                std::string d = kd < js::NKinds ? js::genDoc(rng, kd, rng.below(5), print) : std::string("{}");
                if (!print && rng.chance(1, 5)) d = js::damage(rng, d);
                plan.add(t, print ? "print" : "parse") << (long) kd << d << (long) rng.below(16);
                break;
            }
            case 2: plan.add(t, "scope") << (long) (plain && rng.chance(1, 2) ? 13 + rng.below(4) : rng.below(NScopeOps)) << (long) rng.below(gen::N); break;
            case 3: vals::gen(rng, plan, t, 1 + rng.below(3), false); break;
            case 4: plan.add(t, "use") << (long) (rng.below(8) | j << 3); break;
            }
        }
    if (rng.chance(1, 3)) {
        int span = 1 << (3 + rng.below(9));
        for (int k = 1 + rng.below(4); k > 0; --k) plan.allocFaults.push_back(1 + rng.below(span));
        std::sort(plan.allocFaults.begin(), plan.allocFaults.end());
    }
    h::setSchedule(rng, plan);
}

struct Init { Init() {
    h::add({ "C04", "everything", 10, generate, exec, nullptr, false });
} } init;

} // namespace anonymous
