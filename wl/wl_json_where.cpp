// wl_json_where.cpp - where JSON errors say that they are (C25).
#include "js.h"

#include <algorithm>
#include <cstring>

using namespace reflect;
using namespace js;

namespace {

struct Place
{
    size_t line, pos;
    explicit Place(size_t line = 1, size_t pos = 1) : line(line), pos(pos) {}
    bool operator==(const Place& o) const { return line == o.line && pos == o.pos; }
    std::string print() const { return h::format("%zu:%zu", line, pos); }
};

// The place of the first byte that isn't read yet.
Place placeAfter(const std::string& all, size_t n)
{
    Place p;
    for (size_t i = 0; i < n && i < all.size(); ++i) {
        if (all[i] == '\n') p = Place(p.line + 1, 1);
        else ++p.pos;
    }
    return p;
}

void body(const h::Plan& plan)
{
    std::string all;
    std::vector<int> sizes;
    size_t failAt, lead;
    json::Reader::Options opts;
    {
        sim::Host host;
        all.append(plan.num("lines", 0), '\n');
        all.append(plan.num("spaces", 0), ' ');
        lead = all.size();
        for (auto& op : plan.ops) if (op.name == "doc") all += op.str(1);
        all += plan.str("tail");
        sizes = chunkList(plan.str("chunks", "1"));
        failAt = plan.num("failAt", -1) < 0 ? ~size_t(0) : (size_t) plan.num("failAt");
        opts = (json::Reader::Options)(plan.num("options", 6) & 7);
    }
    bool bytewise = sizes.empty() ? false : *std::max_element(sizes.begin(), sizes.end()) <= 1;
    bool comments = opts & json::Reader::AllowComments, utf8 = opts & json::Reader::ValidateUnicode;
    Chunked buf(all, sizes, failAt, plan.num("failKind"));
    std::istream stream(&buf);
    json::Reader reader(stream, opts);
    for (auto& op : plan.ops) {
        if (op.name != "doc") continue;
        int kind = op.num(0);
        size_t start = buf.consumed();
        Obj obj(kind);
        obj.parse(reader);
        std::string err = reader.error() ? reader.error().what() : "";
        sim::Host host;
        sim::nontrivial();
        size_t end = buf.consumed();
        size_t total = std::min(all.size(), failAt);
        std::string what = h::format("%s, read from byte %zu to %zu of <%s>", kindName(kind), start, end, h::escape(all.substr(lead)).c_str());
        if (lead) what += h::format(" that follows %ld newlines and %ld spaces", plan.num("lines", 0), plan.num("spaces", 0));
        Place at = placeAfter(all, end), now(reader.line(), reader.pos());
        bool ended = buf.waits > total; // an attempt to read what isn't there counts as a byte
        auto matches = [&] (const Place& p) {
            Place q = at;
            if (p == q) return true;
            if (err.empty()) return false;
            for (int k = 0; ended && k < 2; ++k) { ++q.pos; if (p == q) return true; }
            // A newline that's part of a token doesn't end the line.
            if (end && all[end - 1] == '\n') {
                q = placeAfter(all, end - 1);
                ++q.pos;
                if (p == q) { PROBE("newline in a token"); return true; }
            }
            return false;
        };
        if (!matches(now))
            sim::violation("wrong-place", "the reader is at %s rather than %s after %s", now.print().c_str(), at.print().c_str(), what.c_str());
        if (err.empty()) {
            if (at.line > 1) PROBE("read several lines");
            if (!stream) break;
            continue;
        }
        size_t line = 0, pos = 0; int n = -1;
        if (sscanf(err.c_str(), "%zu:%zu: %n", &line, &pos, &n) != 2 || n < 0 || (size_t) n >= err.size())
            sim::violation("no-place", "error <%s> after %s", h::escape(err).c_str(), what.c_str());
        if (!matches(Place(line, pos)))
            sim::violation("wrong-place", "error <%s> is not at %s: after %s", h::escape(err).c_str(), at.print().c_str(), what.c_str());
        if (!ended && !err.compare(n, 14, "unexpected end"))
            sim::violation("not-the-end", "error <%s> although there's more to read: %s", h::escape(err).c_str(), what.c_str());
        if (line > 1) PROBE("error after the first line");
        if (!ended) PROBE("error before the end");
        else PROBE("error at the end");
        // Nothing more is read than it takes to see that there's an error.
        size_t stop = 0;
        size_t len = scan(all.substr(start, total - start), comments, nullptr, nullptr, utf8, false, false, &stop);
        if (len != std::string::npos) stop = len;
        if (end > start + stop + 1)
            sim::violation("late-error", "error <%s> could be seen at byte %zu: %s", h::escape(err).c_str(), start + stop, what.c_str());
        if (bytewise && buf.waits > end + 1)
            sim::violation("late-error", "error <%s> is reported after waiting for byte %zu: %s", h::escape(err).c_str(), buf.waits, what.c_str());
        break;
    }
}

void exec(const h::Plan& plan, const std::string*) { h::runOne(body, plan); }

// White space and comments where they may be.
std::string spread(sim::Rng& rng, const std::string& d, bool comments)
{
    static const char* spaces[] = { "\n", "\n", "\n\n", " \n ", "\r\n", "\t", " ", "\n\t\n", "\v\f", "\n" };
    static const char* notes[] = { "// c\n", "//\n", "// \"x\" {\n", "///// \t\n", "// c\n// d\n", "//\r\n" };
    std::string out;
    bool quoted = false, escaped = false;
    for (char c : d) {
        if (!quoted && strchr("{}[],:", c) && c) {
            if (rng.chance(1, 4)) out += spaces[rng.below(10)];
            if (comments && rng.chance(1, 8)) out += notes[rng.below(6)];
            out += c;
            if (rng.chance(1, 4)) out += spaces[rng.below(10)];
            if (comments && rng.chance(1, 8)) out += notes[rng.below(6)];
            continue;
        }
        out += c;
        if (quoted) { if (escaped) escaped = false; else if (c == '\\') escaped = true; else if (c == '"') quoted = false; }
        else if (c == '"') quoted = true;
    }
    return out;
}

void gen(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 1;
    int opts = rng.chance(1, 3) ? 6 : rng.below(8);
    bool comments = opts & json::Reader::AllowComments;
    plan.set("options", opts);
    int n = 1 + rng.below(4);
    size_t total = 0;
    for (int i = 0; i < n; ++i) {
        int kind = rng.below(NKinds), as = rng.chance(1, 8) ? rng.below(NKinds) : kind;
        std::string d = genDoc(rng, kind, rng.below(12), false, comments);
        if (rng.chance(2, 3)) d = spread(rng, d, comments);
        if (rng.chance(1, 40)) d = stretch(rng, d);
        if (rng.chance(1, 3)) d = damage(rng, d);
        d += structural(kind) ? (rng.chance(1, 2) ? "\n" : "") : rng.chance(1, 2) ? " " : "\n";
        total += d.size();
        plan.add(0, "doc") << (long) as << d;
    }
    static const char* tails[] = { "", "", " ", "\n", "x", "{", "//", "// c\n", "1", "\"", ",", "\xff" };
    plan.set("tail", std::string(tails[rng.below(12)]));
    if (rng.chance(1, 30)) {
        long many = 1L << (6 + rng.below(12));
        plan.set(rng.chance(2, 3) ? "lines" : "spaces", rng.below(many) + many / 2);
    }
    plan.set("chunks", rng.chance(1, 3) ? std::string("1") : chunkText(genChunks(rng, total)));
    if (rng.chance(1, 5)) {
        plan.set("failAt", plan.num("lines", 0) + plan.num("spaces", 0) + (long) rng.below(total + 1));
        plan.set("failKind", (long) rng.below(4));
    }
    h::setSchedule(rng, plan);
}

struct Init { Init() { h::add({ "C25", "where", 10, gen, exec, nullptr, false }); } } init;

} // namespace anonymous
