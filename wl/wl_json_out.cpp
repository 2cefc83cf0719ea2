// wl_json_out.cpp - printing JSON to streams that fail (C10).
#include "js.h"

#include <algorithm>

using namespace reflect;
using namespace js;

namespace {

json::Writer::Options writerOptions(long o) { return (json::Writer::Options)(o & 15); }

struct Doc { int kind; Tree tree; long opts; long how; };

// Prints the documents one after the other; what was reported for each.
struct Outcome { std::vector<std::string> reports; bool oom; };

Error printOne(const Obj& obj, std::ostream& stream, const Doc& d, json::Writer* shared)
{
    if (d.how == 1) return obj.print(stream); // default options
    if (shared) return obj.print(*shared);
    json::Writer writer(stream, writerOptions(d.opts));
    return obj.print(writer);
}

void bodyC10(const h::Plan& plan)
{
    std::vector<Doc> docs;
    std::vector<std::unique_ptr<Obj>> objs;
    long failAt, failKind, failLen, buffer, mask, shared, again, goldenFirst;
    {
        sim::Host host;
        failAt = plan.num("failAt", -1); failKind = plan.num("failKind"); failLen = plan.num("failLen", -1);
        buffer = plan.num("buffer"); mask = plan.num("mask"); shared = plan.num("shared"); again = plan.num("again");
        goldenFirst = plan.num("goldenFirst", 1);
        for (auto& op : plan.ops) {
            if (op.name != "doc") continue;
            docs.emplace_back();
            docs.back().kind = op.num(0); docs.back().opts = op.num(2); docs.back().how = op.num(3);
            scan(op.str(1) + " ", false, &docs.back().tree);
            if (shared) { docs.back().opts = docs[0].opts; docs.back().how = 0; }
        }
    }
    if (docs.empty()) return;
    for (auto& d : docs) {
        Obj* o = new Obj(d.kind);
        o->fill(d.tree);
        sim::Host host;
        objs.emplace_back(o);
    }

    std::vector<std::string> golden, goldenErr;
    auto good = [&] {
        for (size_t i = 0; i < docs.size(); ++i) {
            Sink sink;
            std::ostream stream(&sink);
            std::string err;
            try { Error e = printOne(*objs[i], stream, docs[i], nullptr); if (e) { sim::Host h; err = e.what(); } }
            catch (const std::exception& e) { sim::Host h; err = e.what(); }
            sim::Host host;
            golden.push_back(sink.accepted()); goldenErr.push_back(err);
            bool self = false;
            if (err.empty() && scan(golden[i] + (structural(docs[i].kind) ? "" : " "), false, nullptr, &self) != golden[i].size())
                sim::violation("malformed-output", "printing a %s with options %ld reported success but wrote <%s>", kindName(docs[i].kind), docs[i].opts, h::escape(golden[i]).c_str());
        }
    };
    if (goldenFirst) good();

    Sink sink(failAt < 0 ? ~size_t(0) : failAt, failKind, failLen < 0 ? ~size_t(0) : failLen, buffer);
    std::ostream stream(&sink);
    if (mask) stream.exceptions(mask == 1 ? std::ios::badbit : std::ios::badbit | std::ios::failbit);
    json::Writer writer(stream, writerOptions(docs[0].opts));
    std::vector<std::string> outcomes, after;
    std::vector<int> success;
    bool abandoned = false;
    for (size_t i = 0; i < docs.size(); ++i) {
        for (int k = 0; k <= (again ? 1 : 0); ++k) {
            std::string report;
            bool ok = false, wasFailed = sink.failed, returned = false;
            uint64_t faults = sim::allocFaults();
            sim::arm(true);
            try {
                Error e = printOne(*objs[i], stream, docs[i], shared ? &writer : nullptr);
                sim::arm(false);
                sim::Host h;
                ok = !e; returned = true;
                if (e) report = e.what();
            }
            catch (const std::bad_alloc&) { sim::arm(false); sim::Host h; report = "out of memory"; }
            catch (const std::ios_base::failure& e) { sim::arm(false); sim::Host h; report = "stream exception"; if (!mask) sim::violation("exception", "printing threw the stream exception %s, which wasn't asked for", e.what()); }
            catch (const std::exception& e) { sim::arm(false); sim::Host h; report = e.what(); }
            catch (int) { sim::arm(false); sim::Host h; report = "int"; }
            sim::arm(false);
            sim::Host host;
            sim::nontrivial();
            if (report == "out of memory" && faults == sim::allocFaults() && !(sink.failed && failKind == Sink::NoMemory))
                sim::violation("exception", "printing a %s threw bad_alloc although there's memory", kindName(docs[i].kind));
            outcomes.push_back(ok ? "success" : report);
            success.push_back(ok ? (int) i : -1);
            if (ok && (sink.lost || wasFailed))
                sim::violation("unreported-loss", "printing a %s with options %ld reported success but the stream lost %zu bytes; it has <%s>",
                    kindName(docs[i].kind), docs[i].opts, sink.lost, h::escape(sink.accepted()).c_str());
            if (ok) PROBE("printed successfully");
            else PROBE("failure reported");
            after.push_back(sink.accepted());
            // a writer that something was thrown through, or that met a value it
            // can't print, isn't used again
            if (shared && (!returned || (!ok && stream))) { abandoned = true; break; }
        }
        if (abandoned) break;
    }
    if (!goldenFirst) good();
    sim::Host host;
    // What's there is made of whole documents where success was reported, and of
    // a prefix where it wasn't.
    std::string expect;
    for (size_t k = 0; k < outcomes.size(); ++k) {
        size_t i = again ? k / 2 : k;
        std::string have = after[k].substr(std::min(expect.size(), after[k].size()));
        if (success[k] >= 0) {
            if (!goldenErr[i].empty())
                sim::violation("unreported-loss", "printing a %s reported success although it can't be printed: %s", kindName(docs[i].kind), goldenErr[i].c_str());
            if (have != golden[i])
                sim::violation("unreported-loss", "printing a %s with options %ld reported success after writing\n  <%s> rather than\n  <%s>", kindName(docs[i].kind), docs[i].opts, h::escape(have).c_str(), h::escape(golden[i]).c_str());
        }
        // a document with an error of its own has no meaningful golden text after it
        else if (golden[i].compare(0, have.size(), have) && goldenErr[i].empty())
            sim::violation("not-a-prefix", "printing a %s with options %ld failed (%s) after writing\n  <%s> which isn't the beginning of\n  <%s>", kindName(docs[i].kind), docs[i].opts, outcomes[k].c_str(), h::escape(have).c_str(), h::escape(golden[i]).c_str());
        expect = after[k];
    }
    objs.clear();
}

void execC10(const h::Plan& plan, const std::string*) { h::runOne(bodyC10, plan); }

void genC10(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 1;
    int n = 1 + (rng.chance(1, 3) ? rng.below(3) : 0);
    size_t total = 0;
    for (int i = 0; i < n; ++i) {
        int kind = rng.below(KAny);
        long opts = rng.below(16);
        std::string d = genDoc(rng, kind, rng.below(14), true);
        if (rng.chance(1, 12)) { // what can't be printed
            size_t p = d.find('"', rng.below(d.size() + 1));
            static const char* bad[] = { "\x80", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xc0\x80", "\xf8\x88\x80\x80\x80", "\xed\xa0\x80", "\xc1\xbf", "\xe0\x9f\xbf", "\xf0\x8f\xbf\xbf" };
            if (p != std::string::npos) d.insert(p + 1, bad[rng.below(sizeof bad / sizeof *bad)]);
            if (kind == KDouble) d = "1e999";
            if (kind == KMatrix) d = "[[1],[2,-1e999]]";
        }
        if (rng.chance(1, 60)) d = stretch(rng, d, 15);
        total += d.size();
        plan.add(0, "doc") << (long) kind << d << opts << (long) rng.chance(1, 8);
    }
    if (rng.chance(1, 30)) { // deep enough to need more indentation than usual
        int depth = 20 + rng.below(40);
        std::string d;
        for (int i = 0; i < depth; ++i) d += "{\"name\":\"n\",\"next\":";
        d += "null";
        for (int i = 0; i < depth; ++i) d += "}";
        plan.add(0, "doc") << (long) KNode << d << (long)(rng.below(16) | 1) << 0;
        total += d.size() * 3;
    }
    if (rng.chance(6, 7)) {
        plan.set("failAt", (long) rng.below(total + 8));
        plan.set("failKind", (long) rng.below(5));
        if (rng.chance(1, 3)) plan.set("failLen", (long) (1 + rng.below(3)));
        if (rng.chance(1, 3)) plan.set("buffer", (long) (1 + rng.below(rng.chance(1, 2) ? 8 : 64)));
        plan.set("mask", (long) (rng.chance(1, 3) ? 1 + rng.below(2) : 0));
    }
    plan.set("shared", (long) rng.chance(1, 4));
    plan.set("again", (long) rng.chance(1, 4));
    plan.set("goldenFirst", (long) rng.chance(1, 2));
    if (rng.chance(1, 4)) {
        for (int k = 1 + rng.below(2); k > 0; --k) plan.allocFaults.push_back(1 + rng.below(1 << (3 + rng.below(8))));
        std::sort(plan.allocFaults.begin(), plan.allocFaults.end());
    }
    h::setSchedule(rng, plan);
    plan.sched.failRun = rng.chance(1, 5) ? 3 : 1;
}

struct Init { Init() {
    h::add({ "C10", "sinks", 10, genC10, execC10, nullptr, false });
} } init;

} // namespace anonymous
