// wl_json_in.cpp - decoding JSON from streams that deliver it in pieces (C07)
// and that are damaged or fail (C08).
#include "js.h"

#include <algorithm>

using namespace reflect;
using namespace js;

namespace {

json::Reader::Options readerOptions(long o) { return (json::Reader::Options)(o & 7); }

// ---------------------------------------------------------------------- C07 --

struct Run // one way of delivering the bytes (host memory)
{
    std::vector<std::string> lines;
    void add(const std::string& s) { sim::Host host; lines.push_back(str(s)); }
};

template<class Consumed>
void decode(const h::Plan& plan, std::istream& stream, Run& run, const Consumed& consumed, const Chunked* chunked, const std::string& all)
{
    std::unique_ptr<json::Reader> reader;
    json::Reader::Options opts = readerOptions(plan.num("options", 6));
    for (auto& op : plan.ops) {
        if (op.name != "doc") continue;
        int kind = op.num(0);
        size_t start = consumed();
        Obj obj(kind);
        bool failed = false;
        if (!reader || !plan.num("shared")) reader.reset(new json::Reader(stream, opts));
        try { obj.parse(*reader); }
        catch (const std::exception& e) { failed = true; run.add(std::string("threw ") + e.what()); }
        std::string err = reader->error() ? reader->error().what() : "";
        std::string d = obj.dump();
        sim::Host host;
        size_t end = consumed();
        run.lines.push_back(h::format("%s at %zu-%zu, line %zu pos %zu: ", kindName(kind), start, end, reader->line(), reader->pos())
            + (err.empty() ? "" : "error " + str(err) + " ") + str(d));
        if (failed || !err.empty() || !stream) break;
        bool self = false;
        if (chunked && scan(all.substr(start), opts & json::Reader::AllowComments, nullptr, &self) != std::string::npos && self) {
            PROBE("self-delimited document decoded");
            if (chunked->waits > end)
                sim::violation("reads-ahead", "decoding %s from byte %zu ended at byte %zu but waited for byte %zu of <%s>",
                    kindName(kind), start, end, chunked->waits, h::escape(all).c_str());
        }
    }
    sim::nontrivial();
}

void compare(const char* how, const Run& a, const Run& b, const std::string& all)
{
    sim::Host host;
    for (size_t i = 0; i < std::max(a.lines.size(), b.lines.size()); ++i) {
        std::string x = i < a.lines.size() ? a.lines[i] : "nothing", y = i < b.lines.size() ? b.lines[i] : "nothing";
        if (x == y) continue;
        sim::violation("delivery-dependent", "document %zu of <%s>\n  at once:    %s\n  %s: %s", i, h::escape(all).c_str(), x.c_str(), how, y.c_str());
    }
}

void bodyC07(const h::Plan& plan)
{
    std::string all;
    std::vector<int> sizes;
    {
        sim::Host host;
        for (auto& op : plan.ops) if (op.name == "doc") all += op.str(1);
        all += plan.str("tail");
        sizes = chunkList(plan.str("chunks", "1"));
    }
    Run once, chunks, bytes;
    {
        std::istringstream stream(str(all));
        auto consumed = [&] () -> size_t { std::streampos p = stream.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in); return p; };
        decode(plan, stream, once, consumed, nullptr, all);
    }
    {
        Chunked buf(all, sizes);
        std::istream stream(&buf);
        decode(plan, stream, chunks, [&] { return buf.consumed(); }, nullptr, all);
    }
    {
        Chunked buf(all, std::vector<int>(1, 1));
        std::istream stream(&buf);
        decode(plan, stream, bytes, [&] { return buf.consumed(); }, &buf, all);
    }
    compare("in pieces", once, chunks, all);
    compare("by the byte", once, bytes, all);
    sim::Host host;
    for (auto& l : once.lines) sim::stateMix(std::hash<std::string>()(l));
}

void execC07(const h::Plan& plan, const std::string*) { h::runOne(bodyC07, plan); }

void genC07(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 1;
    int opts = rng.chance(1, 2) ? 6 : rng.below(8);
    plan.set("options", opts);
    int n = 1 + (rng.chance(1, 2) ? rng.below(4) : 0);
    plan.set("shared", (long) rng.chance(1, 2));
    bool same = rng.chance(1, 2);
    size_t total = 0;
    int kind = rng.below(NKinds);
    for (int i = 0; i < n; ++i) {
        if (!same) kind = rng.below(NKinds);
        std::string d = genDoc(rng, kind, rng.below(10), false, opts & json::Reader::AllowComments);
        if (rng.chance(1, 60)) d = stretch(rng, d, 15);
        if (rng.chance(1, 4)) d = damage(rng, d);
        if (!structural(kind)) d += " ";
        total += d.size();
        plan.add(0, "doc") << (long) kind << d;
    }
    static const char* tails[] = { "", "", " ", "\n", "x", "{", "//", "// c\n", "1", "\"", ",", "\xff" };
    plan.set("tail", std::string(tails[rng.below(12)]));
    plan.set("chunks", chunkText(genChunks(rng, total)));
    h::setSchedule(rng, plan);
}

// ---------------------------------------------------------------------- C08 --

void bodyC08(const h::Plan& plan)
{
    sim::tag(1);
    for (auto& op : plan.ops) {
        if (op.name != "doc") continue;
        int kind = op.num(0), opts = op.num(2), failKind = op.num(4);
        std::string text; std::vector<int> sizes; size_t failAt;
        { sim::Host host; text = op.str(1); failAt = op.num(3) < 0 ? ~size_t(0) : (size_t) op.num(3); sizes = chunkList(op.str(5)); }
        Chunked buf(text, sizes, failAt, failKind);
        std::istream stream(&buf);
        json::Reader reader(stream, readerOptions(opts));
        Obj obj(kind);
        std::string thrown;
        bool oom = false;
        uint64_t faults = sim::allocFaults();
        sim::arm(true);
        try { obj.parse(reader); }
        catch (const std::bad_alloc&) { oom = true; }
        catch (const std::exception& e) { sim::Host h; thrown = e.what() + std::string(" "); }
        catch (...) { sim::Host h; thrown = "something"; }
        sim::arm(false);
        sim::Host host;
        faults = sim::allocFaults() - faults;
        sim::nontrivial();
        std::string got = text.substr(0, std::min(failAt, text.size()));
        std::string show = h::escape(text) + (failAt < text.size() ? h::format(" failing at %zu", failAt) : "");
        if (!thrown.empty()) sim::violation("exception", "parsing a %s from <%s> threw %s", kindName(kind), show.c_str(), thrown.c_str());
        if (oom && !faults) sim::violation("exception", "parsing a %s from <%s> threw bad_alloc although there's memory", kindName(kind), show.c_str());
        if (oom) { PROBE("ran out of memory"); continue; }
        if (reader.error()) {
            PROBE("damage reported");
            if (*reader.error().what() == 0) sim::violation("empty-error", "parsing a %s from <%s> gave an error without text", kindName(kind), show.c_str());
            continue;
        }
        bool self = false;
        size_t end = scan(got, opts & json::Reader::AllowComments, nullptr, &self, opts & json::Reader::ValidateUnicode);
        if (end == std::string::npos)
            sim::violation("undetected-damage", "parsing a %s from <%s> reported success", kindName(kind), show.c_str());
        if (self && end != buf.consumed())
            sim::violation("undetected-damage", "parsing a %s from <%s> reported success but took %zu bytes rather than %zu", kindName(kind), show.c_str(), buf.consumed(), end);
        PROBE("parsed successfully");
    }
}

void execC08(const h::Plan& plan, const std::string*) { h::runOne(bodyC08, plan); }

void genC08(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 1;
    int n = 1 + rng.below(4);
    bool everyCut = rng.chance(1, 10);
    if (everyCut) n = 1;
    size_t total = 0;
    for (int i = 0; i < n; ++i) {
        int kind = rng.below(NKinds);
        int opts = rng.chance(1, 2) ? 6 : rng.below(8);
        std::string d = genDoc(rng, kind, rng.below(12), rng.chance(1, 4), opts & json::Reader::AllowComments);
        if (everyCut && d.size() < 120) {
            for (size_t k = 0; k <= d.size(); ++k)
                plan.add(0, "doc") << (long) kind << d << (long) opts << (long) k << (long) rng.below(4) << "7";
            break;
        }
        if (rng.chance(1, 60)) d = stretch(rng, d, 15);
        long failAt = -1, failKind = 0;
        if (rng.chance(2, 3)) d = damage(rng, d);
        if (rng.chance(1, 3)) { failAt = rng.below(d.size() + 1); failKind = rng.below(4); }
        total += d.size();
        plan.add(0, "doc") << (long) kind << d << (long) opts << failAt << failKind << chunkText(genChunks(rng, d.size()));
    }
    if (rng.chance(1, 4)) {
        for (int k = 1 + rng.below(2); k > 0; --k) plan.allocFaults.push_back(1 + rng.below(1 << (3 + rng.below(8))));
        std::sort(plan.allocFaults.begin(), plan.allocFaults.end());
    }
    h::setSchedule(rng, plan);
    plan.sched.failRun = rng.chance(1, 5) ? 3 : 1;
}

struct Init { Init() {
    h::add({ "C07", "chunks", 10, genC07, execC07, nullptr, false });
    h::add({ "C08", "damage", 10, genC08, execC08, nullptr, false });
} } init;

} // namespace anonymous
