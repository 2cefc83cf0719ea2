// wl_values.cpp - histories of values: who owns what (C13), next to other threads
// (C16), and in whatever memory (C18).
#include "js.h"
#include "vals.h"

#include <algorithm>
#include <set>

namespace { uint32_t aliasedFill; struct Aliased { int64_t x; Aliased() : x(0) {} }; }
namespace reflect {
template<> struct Reflect<Aliased>
{
    typedef Aliased T_;
    static std::string id() { return "Aliased"; }
    static void loader() {}
    static void reflect(Type* type_)
    {
        reflectPlumbing();
        reflectField(x);
        sim::scrubStack(aliasedFill);
        named(type_);
    }
    static __attribute__((noinline)) void named(Type* type_)
    {
        reflectFieldValue(x, json, json::alias("ex"));
    }
};
} // namespace reflect

using namespace reflect;
using namespace ob;

namespace {

enum { Tag = 7 };
std::set<uintptr_t>* baseline; // objects that traits of types hold
std::vector<std::string>* expected;
bool recording, useShared, cold;

void start(const h::Plan& plan, const std::string* ref)
{
    ob::begin();
    baseline = new std::set<uintptr_t>();
    expected = new std::vector<std::string>(plan.ops.size());
    vals::shared = nullptr;
    useShared = plan.num("shared");
    cold = plan.num("cold");
    recording = !ref;
    if (ref)
        for (auto& l : h::split(*ref, '\n')) {
            size_t k = l.find(' ');
            if (k == std::string::npos) continue;
            size_t i = atoi(l.c_str());
            if (i < expected->size()) (*expected)[i] = l.substr(k + 1);
        }
}

void prepare(const h::Plan&)
{
    if (cold) return;
    vals::warm();
    {
        sim::Host host;
        for (auto& l : world->live) baseline->insert(l.first);
    }
    sim::tag(Tag);
    if (useShared) vals::setup();
    sim::tag(0);
}

std::string kindText(int k) { static const char* n[] = { "A", "B", "M", "P", "In" }; return k >= 0 && k < 5 ? n[k] : "?"; }

// The objects that exist are those that someone owns.
void account(const std::vector< std::pair<const void*, int> >& owned, const char* when, const h::Op* op)
{
    sim::Host host;
    std::map<uintptr_t, int> want;
    int functors = 0;
    for (auto& o : owned) {
        if (!o.first) { functors++; continue; }
        want[(uintptr_t) o.first] = o.second;
    }
    std::string text = op ? op->name : "";
    if (op) for (auto& a : op->args) text += " " + a;
    for (auto& w : want) {
        auto it = world->live.find(w.first);
        if (it == world->live.end() || it->second.kind != w.second)
            sim::violation("destroyed-early", "%s %s: the %s that a value holds doesn't exist", when, text.c_str(), kindText(w.second).c_str());
    }
    for (auto& l : world->live) {
        if (baseline->count(l.first) || want.count(l.first)) continue;
        if (l.second.kind == KA && functors > 0) { functors--; continue; }
        sim::violation("never-destroyed", "%s %s: nobody holds a %s anymore but it was not destroyed", when, text.c_str(), kindText(l.second.kind).c_str());
    }
    if (functors) sim::violation("destroyed-early", "%s %s: what a function holds doesn't exist", when, text.c_str());
}

void addShared(std::vector< std::pair<const void*, int> >& out)
{
    if (!vals::shared) return;
    vals::Shared& s = *vals::shared;
    out.emplace_back(s.a, (int) KA);
    out.emplace_back(s.p, (int) KP);
    out.emplace_back(&s.p->in, (int) KIn);
    for (auto& a : *s.va) out.emplace_back(&a, (int) KA);
    out.emplace_back(s.v[1]->value(), (int) KA);
    out.emplace_back(s.v[5]->get< std::shared_ptr<A> >().get(), (int) KA);
}

bool relevant(const h::Op& op) { return op.thread >= 0 && op.args.size() >= 2 && op.name != "parse" && op.name != "print"; }

// ---------------------------------------------------------------------- C13 --
void alone(const h::Plan& plan)
{
    sim::tag(Tag);
    {
        vals::Machine m(true, true);
        for (auto& op : plan.ops) {
            if (!relevant(op)) continue;
            m.run(op);
            std::vector< std::pair<const void*, int> > owned;
            m.owned(owned);
            addShared(owned);
            account(owned, "after", &op);
        }
    }
    sim::tag(0);
}

void threadC13(const h::Plan& plan, int tid)
{
    sim::tag(Tag);
    {
        vals::Machine m(true, true);
        for (auto& op : plan.ops)
            if (op.thread == tid && relevant(op)) m.run(op);
    }
    sim::tag(0);
}

void finish(const h::Plan& plan)
{
    if (vals::shared) vals::teardown();
    account({}, "in the end", nullptr);
    sim::Host host;
    char buf[500];
    if (!plan.sched.layout)
        if (uint32_t n = sim::liveBlocks(Tag, buf, sizeof buf))
            sim::violation("memory-leak", "in the end %u blocks of memory are still allocated:%s", n, buf);
}

void execC13(const h::Plan& plan, const std::string*)
{
    start(plan, nullptr);
    h::runOne(prepare, plan);
    if (plan.threads == 1) h::runOne(alone, plan); else h::runThreads(plan, plan.threads, threadC13);
    h::runOne(finish, plan);
    sim::nontrivial();
}

void genFaults(sim::Rng& rng, h::Plan& plan, int num, int den)
{
    if (rng.chance(num, den)) {
        int span = 1 << (2 + rng.below(9));
        for (int k = 1 + rng.below(4); k > 0; --k) plan.allocFaults.push_back(1 + rng.below(span));
        std::sort(plan.allocFaults.begin(), plan.allocFaults.end());
    }
    if (rng.chance(num, den)) {
        int span = 1 << (1 + rng.below(7));
        for (int k = 1 + rng.below(4); k > 0; --k) plan.userFaults.push_back(1 + rng.below(span));
        std::sort(plan.userFaults.begin(), plan.userFaults.end());
    }
}

void genC13(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = rng.chance(1, 2) ? 1 : 2 + rng.below(3);
    plan.set("shared", (long) rng.chance(2, 3));
    int n = plan.threads == 1 ? 4 + rng.below(40) : 2 + rng.below(16);
    for (int t = 0; t < plan.threads; ++t) vals::gen(rng, plan, t, n, plan.num("shared"));
    genFaults(rng, plan, 2, 3);
    h::setSchedule(rng, plan);
    plan.sched.failRun = rng.chance(1, 5) ? 2 : 1;
}

// ---------------------------------------------------------------------- C16 --
void check(const h::Plan& plan, size_t i, const std::string& got, const char* when)
{
    sim::Host host;
    if (recording) { h::say(std::to_string(i) + " " + h::escape(got)); return; }
    sim::stateMix(std::hash<std::string>()(got));
    std::string e = h::escape(got);
    if (e == (*expected)[i]) return;
    std::string text = plan.ops[i].name;
    for (auto& a : plan.ops[i].args) text += " " + a;
    sim::violation("different-result", "%s (by thread %d) %s gave\n  %s\nbut %s gives\n  %s", text.c_str(), plan.ops[i].thread, when, e.c_str(),
        plan.property == "C16" ? "alone it" : "elsewhere it", (*expected)[i].c_str());
}

void threadC16(const h::Plan& plan, int tid)
{
    vals::Machine m(false);
    for (size_t i = 0; i < plan.ops.size(); ++i)
        if (plan.ops[i].thread == tid && relevant(plan.ops[i])) {
            std::string r = m.run(plan.ops[i]);
            check(plan, i, r, "next to other threads");
        }
}

void oneByOne(const h::Plan& plan) { for (int t = 0; t < plan.threads; ++t) threadC16(plan, t); }

void finishC16(const h::Plan&) { if (vals::shared) vals::teardown(); }

void execC16(const h::Plan& plan, const std::string* ref)
{
    start(plan, ref);
    h::runOne(prepare, plan);
    h::runThreads(plan, plan.threads, threadC16);
    h::runOne(finishC16, plan);
}

void refC16(const h::Plan& plan)
{
    start(plan, nullptr);
    h::runOne(prepare, plan);
    h::runOne(oneByOne, plan);
}

void genC16(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 2 + rng.below(3);
    plan.set("cold", (long) rng.chance(1, 3));
    plan.set("shared", (long) (!plan.num("cold")));
    int n = 1 + rng.below(10);
    for (int t = 0; t < plan.threads; ++t) vals::gen(rng, plan, t, n, plan.num("shared"));
    // threads that do the same
    if (rng.chance(1, 3)) {
        std::vector<h::Op> ops = plan.ops;
        plan.ops.clear();
        for (auto& op : ops)
            if (op.thread == 0)
                for (int t = 0; t < plan.threads; ++t) { plan.ops.push_back(op); plan.ops.back().thread = t; }
    }
    h::setSchedule(rng, plan);
}

// ---------------------------------------------------------------------- C18 --
std::string* hostCopy(const std::string& s) { sim::Host host; return new std::string(s.data(), s.size()); }

std::string json(const h::Op& op, uint32_t fill)
{
    using namespace js;
    int kind = op.num(0);
    std::string r, doc = str(op.str(1));
    bool pointers = op.num(3);
    Obj obj(kind);
    sim::scrubStack(fill);
    Error err;
    try { err = obj.parse(doc); }
    catch (const std::exception& e) { r = e.what(); }
    if (err) r = std::string("error ") + err.what() + " ";
    else if (!pointers) r = obj.dump() + " ";
    if (op.num(2) >= 0) {
        std::ostringstream out;
        json::Writer writer(out, (json::Writer::Options)(op.num(2) & 15));
        sim::scrubStack(fill);
        Error e;
        try { e = obj.print(writer); }
        catch (const std::exception& e) { r += e.what(); }
        r += e ? std::string("error ") + e.what() : out.str();
    }
    sim::Host host;
    return std::string(r.data(), r.size());
}

const Type* typeOf(int k)
{
    switch (k) {
    case 0: return type<A>();
    case 1: return type<B>();
    case 2: return type<P>();
    case 3: return js::someType(3);
    case 4: return js::someType(4);
    case 5: return js::someType(5);
    case 6: return js::someType(6);
    case 7: return type<Value>();
    case 8: return type<std::shared_ptr<A> >();
    default: return type<long>();
    }
}

void inMemory(const h::Plan& plan)
{
    uint32_t fill = recording ? plan.num("refFill") : plan.sched.fill;
    vals::Machine m(false);
    for (size_t i = 0; i < plan.ops.size(); ++i) {
        const h::Op& op = plan.ops[i];
        std::string r;
        sim::scrubStack(fill);
        if (op.name == "parse") r = json(op, fill);
        else if (op.name == "describe") {
            const Type* t = typeOf(op.num(0));
            sim::scrubStack(fill);
            std::string d = t->print();
            for (auto& f : t->fields()) { d += f + t->field(f).print(); for (auto& n : t->field(f).traits()) d += " " + n; }
            for (auto& n : t->traits()) d += " " + n;
            sim::Host host;
            r = std::string(d.data(), d.size());
        }
        else if (op.name == "scope") {
            std::string d = scope()->print();
            sim::Host host;
            r = std::string(d.data(), d.size());
        }
        else if (op.name == "argument") {
            // an argument, field or value that holds nothing
            Argument a; Value v; Field* f = nullptr; (void) f;
            std::string d = std::string(a.isConst() ? "c" : "") + (a.refType() == RefType::Copy ? "copy" : a.refType() == RefType::LValue ? "l" : "r") + (a.type() ? "t" : "-");
            d += std::string(v.isConst() ? "c" : "") + (v.refType() == RefType::Copy ? "copy" : v.refType() == RefType::LValue ? "l" : "r") + (v.isVoid() ? "-" : "t") + (v.isStored() ? "s" : "-");
            sim::Host host;
            r = std::string(d.data(), d.size());
        }
        else if (relevant(op)) r = m.run(op);
        else continue;
        check(plan, i, r, "in this memory");
    }
}

void execC18(const h::Plan& plan, const std::string* ref)
{
    start(plan, ref);
    h::runOne(prepare, plan);
    h::runOne(inMemory, plan);
    h::runOne(finishC16, plan);
    sim::nontrivial();
}

void refC18(const h::Plan& plan)
{
    start(plan, nullptr);
    h::runOne(prepare, plan);
    h::runOne(inMemory, plan);
}

void genMemory(sim::Rng& rng, h::Plan& plan)
{
    h::setSchedule(rng, plan);
    static const int fills[] = { 0, 1, 2, 4, 0x41, 0x7f, 0xcd, 0xff };
    plan.sched.fill = fills[rng.below(8)];
    plan.set("refFill", (long) fills[rng.below(8)]);
    plan.sched.layout = rng.chance(1, 3) ? 0 : rng.next() >> 20;
    plan.set("refLayout", rng.chance(1, 3) ? 0l : (long)(rng.next() >> 20));
    plan.threads = 1;
}

void genC18(sim::Rng& rng, h::Plan& plan)
{
    plan.set("shared", (long) rng.chance(1, 2));
    if (rng.chance(3, 4)) vals::gen(rng, plan, 0, 1 + rng.below(20), plan.num("shared"));
    std::vector<h::Op> ops;
    std::swap(ops, plan.ops);
    int more = 1 + rng.below(5);
    std::vector<h::Op> extra;
    while (more-- > 0) {
        switch (rng.below(6)) {
        case 0: plan.add(0, "describe") << (long) rng.below(10); break;
        case 1: plan.add(0, rng.chance(1, 2) ? "scope" : "argument") << 0; break;
        default: {
            int kind = rng.chance(1, 12) ? js::NKinds + rng.below(js::NAll - js::NKinds) : rng.below(js::NKinds);
            std::string d = js::genDoc(rng, kind, rng.below(6), false, false);
            if (rng.chance(1, 4)) d = js::damage(rng, d);
            if (!js::structural(kind)) d += " ";
            plan.add(0, "parse") << (long) kind << d << (long)(kind == js::KAny ? -1 : rng.below(16)) << (long)(kind == js::KRaw || kind >= js::NKinds);
            break; }
        }
    }
    std::swap(extra, plan.ops);
    size_t a = 0, b = 0;
    while (a < ops.size() || b < extra.size()) {
        if (b < extra.size() && (a >= ops.size() || rng.chance(1, 4))) plan.ops.push_back(extra[b++]);
        else plan.ops.push_back(ops[a++]);
    }
    genMemory(rng, plan);
}

// Recorded defect (known_findings.txt): json::Traits() doesn't initialize skipEmpty.
void aliased(const h::Plan& plan)
{
    uint32_t fill = recording ? plan.num("refFill") : plan.sched.fill;
    std::string text;
    Registry::add<Aliased>();
    aliasedFill = fill;
    type<Aliased>();
    Aliased a;
    text = json::print(a).first;
    sim::Host host;
    std::string got(text.data(), text.size());
    if (recording) { h::say("0 " + h::escape(got)); return; }
    if (h::escape(got) != (*expected)[0])
        sim::violation("different-result", "printing an object whose fields have only an alias gave %s but in other memory it gives %s", h::escape(got).c_str(), (*expected)[0].c_str());
}

void refAliased(const h::Plan& plan) { start(plan, nullptr); h::runOne(aliased, plan); }
void execAliased(const h::Plan& plan, const std::string* ref) { start(plan, ref); expected->resize(1); if (ref) { size_t k = ref->find(' '), e = ref->find('\n'); (*expected)[0] = k == std::string::npos ? "" : ref->substr(k + 1, e - k - 1); } h::runOne(aliased, plan); }
void genAliased(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 1;
    plan.add(0, "aliased");
    plan.sched.mode = sim::Sequential;
    plan.sched.seed = rng.next();
    plan.sched.fill = 0;
    plan.set("refFill", 1);
}

struct Init { Init() {
    h::add({ "C18", "skip_empty", 0, genAliased, execAliased, refAliased, false });
    h::add({ "C13", "ownership", 10, genC13, execC13, nullptr, true });
    h::add({ "C16", "together", 10, genC16, execC16, refC16, true });
    h::add({ "C18", "memory", 10, genC18, execC18, refC18, false });
} } init;

} // namespace anonymous
