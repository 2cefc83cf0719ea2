// wl_json_conc.cpp - several threads parse and print (C11), and JSON use after
// one that failed (C12).
#include "js.h"

#include <algorithm>

using namespace reflect;
using namespace js;

namespace {

std::vector<std::string>* expected; // results of the operations in a run of its own
std::vector<Tree>* trees;

// The result of one operation as text.
std::string perform(const h::Op& op, size_t index, bool faults)
{
    std::string result, thrown;
    if (op.name == "parse") {
        int kind = op.num(0);
        std::string text;
        std::vector<int> sizes; long failAt, failKind;
        { sim::Host host; text = op.str(1); sizes = chunkList(op.str(3)); failAt = faults ? op.num(4) : -1; failKind = op.num(5); }
        Chunked buf(text, sizes, failAt < 0 ? ~size_t(0) : failAt, failKind);
        std::istream stream(&buf);
        json::Reader reader(stream, (json::Reader::Options)(op.num(2) & 7));
        Obj obj(kind);
        sim::arm(faults);
        try { obj.parse(reader); }
        catch (const std::exception& e) { sim::arm(false); sim::Host h; thrown = std::string("threw ") + e.what() + " "; }
        catch (...) { sim::arm(false); sim::Host h; thrown = "threw "; }
        sim::arm(false);
        std::string d = thrown.empty() ? obj.dump() : std::string();
        sim::Host host;
        result = thrown + (reader.error() ? std::string("error ") + reader.error().what() + " " : "") + str(d);
        return h::escape(result);
    }
    if (op.name == "print" || op.name == "void") {
        long failAt = faults ? op.num(4) : -1;
        Sink sink(failAt < 0 ? ~size_t(0) : failAt, op.num(5));
        std::ostream stream(&sink);
        json::Writer writer(stream, (json::Writer::Options)(op.num(2) & 15));
        Error err;
        if (op.name == "void") {
            Value v;
            try { json::print(writer, v); }
            catch (const std::exception& e) { sim::Host h; thrown = std::string("threw ") + e.what() + " "; }
        }
        else {
            Obj obj(op.num(0));
            obj.fill((*trees)[index]);
            sim::arm(faults);
            try { err = obj.print(writer); }
            catch (const std::exception& e) { sim::arm(false); sim::Host h; thrown = std::string("threw ") + e.what() + " "; }
            catch (...) { sim::arm(false); sim::Host h; thrown = "threw "; }
            sim::arm(false);
        }
        sim::Host host;
        result = thrown + (err ? std::string("error ") + err.what() + " " : "") + sink.accepted();
        return h::escape(result);
    }
    return "";
}

bool relevant(const h::Op& op) { return op.name == "parse" || op.name == "print" || op.name == "void"; }

// What's kept of a result: enough to compare it.
std::string kept(const std::string& r)
{
    if (r.size() < 3000) return r;
    return r.substr(0, 1500) + h::format("... %zu characters, hash %zx", r.size(), std::hash<std::string>()(r));
}

void begin(const h::Plan& plan, const std::string* ref)
{
    trees = new std::vector<Tree>(plan.ops.size());
    for (size_t i = 0; i < plan.ops.size(); ++i)
        if (plan.ops[i].name == "print") scan(plan.ops[i].str(1) + " ", false, &(*trees)[i]);
    expected = new std::vector<std::string>(plan.ops.size());
    if (ref)
        for (auto& l : h::split(*ref, '\n')) {
            size_t k = l.find(' ');
            if (k == std::string::npos) continue;
            size_t i = atoi(l.c_str());
            if (i < expected->size()) (*expected)[i] = l.substr(k + 1);
        }
}

void check(const h::Plan& plan, size_t i, const std::string& got, const char* when)
{
    sim::Host host;
    sim::stateMix(std::hash<std::string>()(got));
    const h::Op& op = plan.ops[i];
    // a description that's invalid is never used
    if (op.name != "void" && op.num(0) >= NKinds && got.compare(0, 5, "error") && got.compare(0, 5, "threw"))
        sim::violation("invalid-description-used", "%s of a %s (<%s>) %s gave\n  %s\nbut its JSON description is invalid", op.name.c_str(), kindName(op.num(0)),
            h::escape(op.str(1)).c_str(), when, got.c_str());
    if (kept(got) == (*expected)[i]) return;
    std::string d = op.name == "void" ? "" : h::escape(op.str(1));
    if (d.size() > 1000) d = d.substr(0, 1000) + "...";
    sim::violation("different-result", "%s of a %s (<%s>) %s gave\n  %s\nbut alone it gives\n  %s", op.name.c_str(), op.name == "void" ? "void value" : kindName(op.num(0)),
        d.c_str(), when, kept(got).c_str(), (*expected)[i].c_str());
}

void aloneBody(const h::Plan& plan)
{
    for (size_t i = 0; i < plan.ops.size(); ++i) {
        if (!relevant(plan.ops[i])) continue;
        std::string r = perform(plan.ops[i], i, false);
        sim::Host host;
        h::say(std::to_string(i) + " " + kept(str(r)));
    }
}

void ref(const h::Plan& plan)
{
    begin(plan, nullptr);
    h::runOne(aloneBody, plan);
}

// ---------------------------------------------------------------------- C11 --
void threadC11(const h::Plan& plan, int tid)
{
    for (size_t i = 0; i < plan.ops.size(); ++i)
        if (plan.ops[i].thread == tid && relevant(plan.ops[i]))
            check(plan, i, perform(plan.ops[i], i, false), "next to other threads");
}

void execC11(const h::Plan& plan, const std::string* r)
{
    begin(plan, r);
    h::runThreads(plan, plan.threads, threadC11);
}

void genOp(sim::Rng& rng, h::Plan& plan, int t, int kind, bool faulty)
{
    bool print = kind != KAny && rng.chance(1, 2);
    bool comments = rng.chance(1, 6);
    std::string d = genDoc(rng, kind, rng.below(8), print, comments && !print);
    long failAt = -1, failKind = 0;
    if (!print && rng.chance(1, 6)) d = damage(rng, d);
    if (!print && d.size() > 600) d.resize(600);
    if (rng.chance(1, 100)) d = stretch(rng, d, 14);
    if (faulty && rng.chance(1, 3)) { failAt = rng.below(d.size() + 1); failKind = rng.below(4); }
    if (!print && !structural(kind)) d += " ";
    long opts = print ? (long) rng.below(16) : (rng.chance(1, 2) ? 6 : rng.below(8)) | comments;
    plan.add(t, print ? "print" : "parse") << (long) kind << d << opts << chunkText(genChunks(rng, d.size())) << failAt << failKind;
}

void genC11(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 2 + rng.below(3);
    int focus = rng.below(NKinds), other = rng.below(NKinds);
    for (int t = 0; t < plan.threads; ++t) {
        int n = 1 + rng.below(3);
        for (int i = 0; i < n; ++i) {
            int kind = rng.chance(1, 2) ? focus : rng.chance(1, 2) ? other : rng.below(NKinds);
            if (rng.chance(1, 16)) kind = NKinds + rng.below(NAll - NKinds);
            genOp(rng, plan, t, kind, false);
        }
    }
    h::setSchedule(rng, plan);
}

// ---------------------------------------------------------------------- C12 --
void threadC12(const h::Plan& plan, int tid)
{
    for (size_t i = 0; i < plan.ops.size(); ++i)
        if (plan.ops[i].thread == tid && relevant(plan.ops[i])) {
            perform(plan.ops[i], i, true);
            // at once, by the thread for which it failed
            if (plan.num("again")) check(plan, i, perform(plan.ops[i], i, false), "right after it failed");
        }
}

void afterwards(const h::Plan& plan)
{
    for (int round = 0; round < 2; ++round)
        for (size_t i = 0; i < plan.ops.size(); ++i)
            if (relevant(plan.ops[i]))
                check(plan, i, perform(plan.ops[i], i, false), "after earlier ones failed");
}

void execC12(const h::Plan& plan, const std::string* r)
{
    begin(plan, r);
    h::runThreads(plan, plan.threads, threadC12);
    h::runOne(afterwards, plan);
    sim::nontrivial();
}

void genC12(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = rng.chance(1, 4) ? 2 : 1;
    plan.set("again", (long) rng.chance(1, 2));
    int n = 1 + rng.below(5);
    int focus = rng.chance(1, 2) ? rng.below(NKinds) : KNode + rng.below(9);
    for (int i = 0; i < n; ++i) {
        int kind = rng.chance(1, 4) ? focus : rng.chance(1, 3) ? NKinds + rng.below(NAll - NKinds) : rng.below(NKinds);
        if (rng.chance(1, 20)) plan.add(rng.below(plan.threads), "void") << 0 << "" << (long) rng.below(16);
        else genOp(rng, plan, rng.below(plan.threads), kind, true);
    }
    // operations that only come afterwards
    if (rng.chance(1, 2)) genOp(rng, plan, -1, rng.chance(1, 2) ? focus : rng.below(NAll), false);
    if (rng.chance(2, 3)) {
        int span = 1 << (3 + rng.below(10));
        for (int k = 1 + rng.below(3); k > 0; --k) plan.allocFaults.push_back(1 + rng.below(span));
        std::sort(plan.allocFaults.begin(), plan.allocFaults.end());
    }
    h::setSchedule(rng, plan);
    plan.sched.failRun = rng.chance(1, 5) ? 3 : 1;
}

struct Init { Init() {
    h::add({ "C11", "together", 10, genC11, execC11, ref, true });
    h::add({ "C12", "aftermath", 10, genC12, execC12, ref, false });
} } init;

} // namespace anonymous
