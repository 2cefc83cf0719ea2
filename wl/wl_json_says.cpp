// wl_json_says.cpp - what documents say is what's read from them (C23) and what's
// printed says what the object is (C24), while other operations run or have
// failed.
#include "js.h"

#include <string.h>
#include <algorithm>

using namespace reflect;
using namespace js;

namespace {

std::vector<Tree>* trees; // the documents that objects are filled with

void begin(const h::Plan& plan)
{
    trees = new std::vector<Tree>(plan.ops.size());
    for (size_t i = 0; i < plan.ops.size(); ++i)
        if (plan.ops[i].name == "print") scan(plan.ops[i].str(1) + " ", false, &(*trees)[i]);
        else if (plan.ops[i].name == "parse") scan(plan.ops[i].str(6) + " ", false, &(*trees)[i]);
}

std::string copy(const std::string& s) { return std::string(s.data(), s.size()); }

// How an operation ended.
struct End
{
    bool oom, threw; std::string what;
    End() : oom(false), threw(false) {}
    template<class Fn> void run(bool faults, const Fn& fn)
    {
        uint64_t n = sim::myFaults();
        sim::arm(faults);
        try { fn(); sim::arm(false); }
        catch (const std::bad_alloc&) { sim::arm(false); oom = true; }
        catch (const std::exception& e) { sim::arm(false); sim::Host h; threw = true; what = e.what(); }
        catch (...) { sim::arm(false); sim::Host h; threw = true; what = "something"; }
        faulted = sim::myFaults() - n;
    }
    uint64_t faulted;
};

// ---------------------------------------------------------------------- C23 --
// parse KIND TEXT OPTIONS CHUNKS FAILAT FAILKIND PREFILL ROUTE TIMES
void doParse(const h::Plan& plan, size_t index, std::istream* shared, Chunked* sharedBuf, json::Reader* sharedReader, size_t at, bool& usable)
{
    const h::Op& op = plan.ops[index];
    int kind = op.num(0);
    long opts, failAt, route, times; int failKind;
    std::string text; std::vector<int> sizes;
    {
        sim::Host host;
        opts = shared ? plan.num("options", 6) : op.num(2); failAt = op.num(4); failKind = op.num(5);
        route = shared ? 0 : op.num(7); times = shared ? 1 : std::max(1l, op.num(8));
        if (route) { opts = json::Reader::Default; if (route == 2) failAt = -1; }
        text = shared ? sharedBuf->data.substr(at) : op.str(1);
        sizes = chunkList(op.str(3));
    }
    Obj obj(kind), want(kind);
    if (kind != KAny && !op.str(6).empty()) { obj.fill((*trees)[index]); want.fill((*trees)[index]); }

    for (long round = 0; round < times; ++round) {
        std::string error;
        bool failed = false;
        End end;
        size_t consumed = 0;
        if (shared) {
            size_t from = sharedBuf->consumed();
            end.run(true, [&] { obj.parse(*sharedReader); });
            failed = !!sharedReader->error();
            if (failed) { sim::Host h; error = sharedReader->error().what(); }
            if (failed || end.oom || end.threw || !*shared) usable = false;
            consumed = sharedBuf->consumed() - from;
        }
        else if (route == 2) {
            std::string doc = str(text);
            Error err;
            end.run(true, [&] { err = obj.parse(doc); });
            if (err) { sim::Host h; failed = true; error = err.what(); }
        }
        else {
            Chunked buf(text, sizes, failAt < 0 ? ~size_t(0) : failAt, failKind);
            std::istream stream(&buf);
            if (route == 1) {
                Error err;
                end.run(true, [&] { err = obj.parse(stream); });
                if (err) { sim::Host h; failed = true; error = err.what(); }
            }
            else {
                json::Reader reader(stream, (json::Reader::Options)(opts & 7));
                end.run(true, [&] { obj.parse(reader); });
                failed = !!reader.error();
                if (failed) { sim::Host h; error = reader.error().what(); }
            }
            consumed = buf.consumed();
        }

        // What should have happened.
        Tree tree;
        bool self = false, cut = failAt >= 0 && (size_t) failAt < text.size();
        size_t length;
        {
            sim::Host host;
            length = scan(cut ? text.substr(0, failAt) : text, opts & json::Reader::AllowComments, &tree, &self,
                opts & json::Reader::ValidateUnicode, true, !(opts & json::Reader::UnescapeUnicode));
        }
        bool wellFormed = length != std::string::npos;
        bool duplicates; { sim::Host host; duplicates = wellFormed && duplicateKeys(tree); }
        bool fits = wellFormed && apply(tree, want);
        std::string got = !failed && !end.oom && !end.threw ? obj.dump() : std::string(), wanted;
        if (fits && kind != KAny) wanted = want.dump();

        sim::Host host;
        if (fits && kind == KAny) wanted = valueText(tree);
        sim::nontrivial();
        std::string show = h::format("%s from <%s>%s (options %ld, way %ld)", kindName(kind), h::escape(text).c_str(),
            cut ? h::format(" failing at %ld", failAt).c_str() : "", opts, route);
        if (!op.str(6).empty()) show += " into <" + h::escape(op.str(6)) + ">";
        if (round) show += " again";
        if (end.threw) sim::violation("exception", "parsing a %s threw %s", show.c_str(), end.what.c_str());
        if (end.oom) {
            if (!end.faulted) sim::violation("exception", "parsing a %s threw bad_alloc although there's memory", show.c_str());
            PROBE("ran out of memory");
            return;
        }
        if (failed) {
            if (fits && !end.faulted && (self || !cut))
                sim::violation("refused", "parsing a %s, which is well-formed and fits the type, gave the error %s", show.c_str(), error.c_str());
            PROBE("document refused");
            return;
        }
        if (!wellFormed) sim::violation("accepted", "parsing a %s, which isn't well-formed, reported success", show.c_str());
        if (!fits) sim::violation("accepted", "parsing a %s, which doesn't fit the type, reported success", show.c_str());
        if (route != 2 && self && consumed != length)
            sim::violation("accepted", "parsing a %s took %zu bytes rather than %zu", show.c_str(), consumed, length);
        if (duplicates) { PROBE("document with keys that repeat"); return; }
        std::string g = copy(got), w = copy(wanted);
        if (g != w) sim::violation("misread", "parsing a %s gave\n  %s\nrather than\n  %s", show.c_str(), g.c_str(), w.c_str());
        sim::stateMix(std::hash<std::string>()(g));
        PROBE("document read");
    }
}

void threadC23(const h::Plan& plan, int tid)
{
    // Either each document has a stream of its own, or all have one.
    bool share = plan.num("shared", 0);
    std::string all; std::vector<int> sizes;
    {
        sim::Host host;
        for (auto& op : plan.ops) if (op.name == "parse" && op.thread == tid) all += op.str(1) + " ";
        sizes = chunkList(plan.str("chunks", "1"));
    }
    Chunked buf(all, sizes);
    std::istream stream(&buf);
    json::Reader reader(stream, (json::Reader::Options)(plan.num("options", 6) & 7));
    bool usable = true;
    for (size_t i = 0; i < plan.ops.size() && usable; ++i) {
        if (plan.ops[i].thread != tid || plan.ops[i].name != "parse") continue;
        size_t at = buf.consumed();
        doParse(plan, i, share ? &stream : nullptr, &buf, &reader, at, usable);
    }
}

void execC23(const h::Plan& plan, const std::string*)
{
    begin(plan);
    h::runThreads(plan, plan.threads, threadC23);
}

std::string distinctDoc(sim::Rng& rng, int kind, int size, bool plain, bool comments)
{
    std::string d;
    for (int k = 0; k < 6; ++k) {
        d = genDoc(rng, kind, size, plain, comments);
        Tree t;
        if (rng.chance(1, 10) || scan(d + " ", comments, &t) == std::string::npos || !duplicateKeys(t)) break;
    }
    return d;
}

// A document that's well-formed but perhaps not of the type.
std::string misfit(sim::Rng& rng, std::string d)
{
    static const char* const values[] = { "null", "true", "false", "0", "-1", "1.5", "1e3", "-.5", "01", "010", "-0777", "08", "1.", "9223372036854775807", "9223372036854775808",
        "-9223372036854775808", "-9223372036854775809", "256", "-129", "65536", "4294967296", "-2147483649", "3.5e38", "1e308", "1e309", "-1e400", "1e-400",
        "\"\"", "\"1\"", "\"a b\"", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "\"\\ude00\"", "\"\\ud83dx\"", "\"\\ud83d\\u0041\"", "[]", "[null]", "[1,2,3]", "{}", "{\"at\":[1,2,3]}", "{\"i\":1}",
        "18446744073709551615", "3.4e38", "\"\\u0000\"", "\"/\\/\"", "[[]]", "99999999999999999999999", "-0", "0.1e1", "\"\\u00e9\\u20ac\"" };
    // the places where a value begins
    std::vector<size_t> at(1, 0);
    bool in = false;
    for (size_t i = 0; i < d.size(); ++i) {
        if (d[i] == '"') in = !in;
        else if (in && d[i] == '\\') ++i;
        else if (!in && d[i] && strchr("[:,", d[i])) at.push_back(i + 1);
    }
    for (int k = 1 + rng.below(2); k > 0; --k) {
        size_t p = at[rng.below(at.size())];
        if (p > d.size()) continue;
        size_t n = 0;
        // the value that's there, or nothing
        for (size_t e = p + 1; e <= d.size(); ++e) {
            Tree t; bool self = false;
            size_t s = scan(d.substr(p, e - p) + " ", true, &t, &self);
            if (s == std::string::npos || s > e - p) continue;
            n = s;
            if (self || e == d.size() || strchr(",]} \n\r\t\v\f", d[e])) break;
        }
        if (!n) continue;
        d.replace(p, n, values[rng.below(sizeof values / sizeof *values)]);
        break;
    }
    return d;
}

void genC23(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = rng.chance(1, 3) ? 2 + rng.below(2) : 1;
    long common = rng.chance(1, 2) ? 6 : rng.below(8);
    bool share = rng.chance(1, 4);
    plan.set("options", common);
    plan.set("shared", (long) share);
    plan.set("chunks", chunkText(genChunks(rng, 100)));
    int focus = rng.below(NKinds);
    bool faulty = rng.chance(1, 2);
    for (int t = 0; t < plan.threads; ++t) {
        int n = 1 + rng.below(plan.threads > 1 ? 3 : 5);
        for (int i = 0; i < n; ++i) {
            int kind = rng.chance(1, 2) ? focus : rng.below(NKinds);
            long opts = share ? common : rng.chance(1, 2) ? 6 : rng.below(8);
            bool comments = opts & json::Reader::AllowComments;
            std::string d = distinctDoc(rng, kind, rng.below(10), rng.chance(1, 4), comments);
            if (rng.chance(1, 4)) d = misfit(rng, d);
            else if (rng.chance(1, 12)) d = damage(rng, d);
            if (d.size() > 1500) d.resize(1500);
            if (rng.chance(1, 40)) d = stretch(rng, d);
            std::string prefill;
            if (kind != KAny && rng.chance(1, 2)) prefill = genDoc(rng, kind, rng.below(8), true);
            long failAt = -1, failKind = 0;
            if (faulty && !share && rng.chance(1, 4)) { failAt = rng.below(d.size() + 2); failKind = rng.below(4); }
            else if (!share && !structural(kind) && rng.chance(1, 2)) d += rng.chance(1, 2) ? " " : "\n";
            long route = rng.chance(1, 5) ? 1 + rng.below(2) : 0;
            plan.add(t, "parse") << (long) kind << d << opts << chunkText(genChunks(rng, d.size())) << failAt << failKind
                << prefill << route << (long) (kind != KAny && rng.chance(1, 6) ? 2 : 1);
        }
    }
    if (faulty && rng.chance(1, 2)) {
        int span = 1 << (3 + rng.below(9));
        for (int k = 1 + rng.below(2); k > 0; --k) plan.allocFaults.push_back(1 + rng.below(span));
        std::sort(plan.allocFaults.begin(), plan.allocFaults.end());
    }
    h::setSchedule(rng, plan);
    plan.sched.failRun = rng.chance(1, 5) ? 3 : 1;
}

// ---------------------------------------------------------------------- C24 --
bool hasSpace(const std::string& text)
{
    bool in = false;
    for (size_t i = 0; i < text.size(); ++i) {
        if (text[i] == '"') in = !in;
        else if (in && text[i] == '\\') ++i;
        else if (!in && isspace((unsigned char) text[i])) return true;
    }
    return false;
}

// print KIND DOC OPTIONS FAILAT FAILKIND ROUTE
void doPrint(const h::Plan& plan, size_t index, std::ostream* shared, Sink* sharedSink, json::Writer* sharedWriter, bool& usable)
{
    const h::Op& op = plan.ops[index];
    int kind = op.num(0);
    long opts = shared ? plan.num("options", 12) : op.num(2), failAt = op.num(3), failKind = op.num(4), route = shared ? 0 : op.num(5);
    if (route) opts = json::Writer::Default;
    Obj obj(kind);
    obj.fill((*trees)[index]);
    End end;
    std::string error, text;
    bool failed = false, lost = false;
    if (shared) {
        size_t from = sharedSink->got.size();
        Error err;
        end.run(true, [&] { err = obj.print(*sharedWriter); });
        sim::Host h;
        if (err) { failed = true; error = err.what(); }
        if (failed || end.oom || end.threw || !*shared) usable = false;
        text = sharedSink->got.substr(from);
    }
    else if (route == 2) { // the stream of this one swallows what allocations throw
        std::pair<std::string, Error> r;
        end.run(false, [&] { r = obj.print(); });
        sim::Host h;
        text = copy(r.first);
        if (r.second) { failed = true; error = r.second.what(); }
    }
    else {
        Sink sink(failAt < 0 ? ~size_t(0) : failAt, failKind);
        std::ostream stream(&sink);
        Error err;
        end.run(true, [&] {
            if (route == 1) err = obj.print(stream);
            else { json::Writer writer(stream, (json::Writer::Options)(opts & 15)); err = obj.print(writer); }
        });
        sim::Host h;
        text = sink.accepted(); lost = sink.lost || sink.failed;
        if (err) { failed = true; error = err.what(); }
    }

    sim::Host host;
    sim::nontrivial();
    int can = printable(obj, opts);
    std::string show = h::format("%s <%s> (options %ld, way %ld)", kindName(kind), h::escape(op.str(1)).c_str(), opts, route);
    if (end.threw) sim::violation("exception", "printing a %s threw %s", show.c_str(), end.what.c_str());
    if (end.oom) {
        if (!end.faulted) sim::violation("exception", "printing a %s threw bad_alloc although there's memory", show.c_str());
        PROBE("ran out of memory");
        return;
    }
    if (failed) {
        if (can == 1 && !end.faulted && !lost)
            sim::violation("refused", "printing a %s, which can be printed, gave the error %s", show.c_str(), error.c_str());
        PROBE("object refused");
        return;
    }
    if (lost) sim::violation("misprinted", "printing a %s reported success but the stream lost some", show.c_str());
    if (!can) sim::violation("accepted", "printing a %s, which can't be printed, reported success and gave\n  %s", show.c_str(), h::escape(text).c_str());
    Tree tree;
    if (scan(text + " ", false, &tree, nullptr, opts & json::Writer::ValidateUnicode, true) != text.size())
        sim::violation("misprinted", "printing a %s gave\n  %s\nwhich isn't one value", show.c_str(), h::escape(text).c_str());
    std::string bad = disagrees(tree, obj, opts);
    if (bad.empty() && !(opts & json::Writer::Pretty) && hasSpace(text)) bad = "white space";
    if (bad.empty() && opts & json::Writer::EscapeUnicode)
        for (char c : text) if (c & 0x80) bad = "characters that aren't escaped";
    if (!bad.empty())
        sim::violation("misprinted", "printing a %s gave\n  %s\nbut the object is\n  %s\nThere's %s", show.c_str(), h::escape(text).c_str(), copy(obj.dump()).c_str(), bad.c_str());
    sim::stateMix(std::hash<std::string>()(text));
    PROBE("object printed");
}

void threadC24(const h::Plan& plan, int tid)
{
    bool share = plan.num("shared", 0);
    Sink sink;
    std::ostream stream(&sink);
    json::Writer writer(stream, (json::Writer::Options)(plan.num("options", 12) & 15));
    bool usable = true;
    for (size_t i = 0; i < plan.ops.size() && usable; ++i)
        if (plan.ops[i].thread == tid && plan.ops[i].name == "print")
            doPrint(plan, i, share ? &stream : nullptr, &sink, &writer, usable);
}

void execC24(const h::Plan& plan, const std::string*)
{
    begin(plan);
    h::runThreads(plan, plan.threads, threadC24);
}

void genC24(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = rng.chance(1, 3) ? 2 + rng.below(2) : 1;
    bool share = rng.chance(1, 4);
    plan.set("options", (long) rng.below(16));
    plan.set("shared", (long) share);
    int focus = rng.below(KAny);
    bool faulty = rng.chance(1, 2);
    for (int t = 0; t < plan.threads; ++t) {
        int n = 1 + rng.below(plan.threads > 1 ? 3 : 5);
        for (int i = 0; i < n; ++i) {
            int kind = rng.chance(1, 2) ? focus : rng.below(KAny);
            std::string d = genDoc(rng, kind, rng.below(12), true);
            if (rng.chance(1, 6)) {
                size_t p = d.find('"', rng.below(d.size() + 1));
                static const char* bad[] = { "\x80", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xc0\x80", "\xf8\x88\x80\x80\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe0\x9f\xbf", "\xf0\x8f\xbf\xbf", "\xc1\xbf" };
                if (p != std::string::npos) d.insert(p + 1, bad[rng.below(sizeof bad / sizeof *bad)]);
                if (kind == KDouble) d = rng.chance(1, 2) ? "1e999" : "-1e999";
                if (kind == KMatrix) d = "[[1],[2,-1e999]]";
                if (kind == KNums) d = rng.chance(1, 3) ? "{\"ull\":-1,\"i\":5}" : rng.chance(1, 2) ? "{\"ul\":-9223372036854775808}" : "{\"f\":1e39}";
            }
            if (rng.chance(1, 40)) d = stretch(rng, d);
            long failAt = -1, failKind = 0;
            if (faulty && !share && rng.chance(1, 4)) { failAt = rng.below(d.size() * 2 + 2); failKind = rng.below(2); }
            long route = rng.chance(1, 5) ? 1 + rng.below(2) : 0;
            plan.add(t, "print") << (long) kind << d << (long) rng.below(16) << failAt << failKind << route;
        }
    }
    if (faulty && rng.chance(1, 2)) {
        int span = 1 << (3 + rng.below(9));
        for (int k = 1 + rng.below(2); k > 0; --k) plan.allocFaults.push_back(1 + rng.below(span));
        std::sort(plan.allocFaults.begin(), plan.allocFaults.end());
    }
    h::setSchedule(rng, plan);
    plan.sched.failRun = rng.chance(1, 5) ? 3 : 1;
}

struct Init { Init() {
    h::add({ "C23", "reads", 10, genC23, execC23, nullptr, false });
    h::add({ "C24", "says", 10, genC24, execC24, nullptr, false });
} } init;

} // namespace anonymous
