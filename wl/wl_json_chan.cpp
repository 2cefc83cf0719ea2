// wl_json_chan.cpp - documents sent from a printer to a parser through byte
// channels (C09).
#include "js.h"

#include <string.h>
#include <algorithm>

using namespace reflect;
using namespace js;

namespace {

// A byte channel of limited capacity that can be cut. Host memory.
struct Pipe
{
    std::string bytes, all; size_t cap, cutAt, total, read; bool closed;
    Pipe() : cap(16), cutAt(~size_t(0)), total(0), read(0), closed(false) {}
    bool cut() const { return total >= cutAt; }
};

struct PipeOut : std::streambuf
{
    Pipe& p;
    explicit PipeOut(Pipe& p) : p(p) {}
    static bool room(void* x) { Pipe* p = (Pipe*)x; return p->cut() || p->closed || p->bytes.size() < p->cap; }
    size_t put(const char* s, size_t n)
    {
        size_t done = 0;
        while (done < n) {
            sim::blockUntil(room, &p, "a full channel");
            bool cut = false;
            {
                sim::Host host;
                if (p.cut()) cut = true;
                while (done < n && p.bytes.size() < p.cap && !p.cut()) { p.bytes += s[done]; p.all += s[done++]; p.total++; }
                if (p.cut()) p.closed = true;
            }
            sim::notify();
            if (cut) { PROBE("fault: channel cut"); break; }
        }
        return done;
    }
    int_type overflow(int_type c)
    {
        if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        char x = traits_type::to_char_type(c);
        return put(&x, 1) == 1 ? c : traits_type::eof();
    }
    std::streamsize xsputn(const char* s, std::streamsize n) { return put(s, n); }
};

struct PipeIn : std::streambuf
{
    Pipe& p; size_t chunk; char window[64];
    PipeIn(Pipe& p, size_t chunk) : p(p), chunk(std::min<size_t>(std::max<size_t>(chunk, 1), sizeof window)) { setg(window, window, window); }
    static bool ready(void* x) { Pipe* p = (Pipe*)x; return p->closed || !p->bytes.empty(); }
    int_type underflow()
    {
        sim::blockUntil(ready, &p, "an empty channel");
        size_t n;
        {
            sim::Host host;
            n = std::min(chunk, p.bytes.size());
            memcpy(window, p.bytes.data(), n);
            p.bytes.erase(0, n);
            p.read += n;
        }
        if (!n) return traits_type::eof();
        sim::notify();
        setg(window, window, window + n);
        return traits_type::to_int_type(window[0]);
    }
};

void closePipe(Pipe& p) { { sim::Host host; p.closed = true; } sim::notify(); }

// One sender and one receiver.
struct Link
{
    Pipe there, back;
    std::vector<int> kinds; std::vector<Tree> trees;
    std::vector<std::string> sent, got, sendErr;
    std::vector<size_t> starts, ends;
    std::string recvErr; bool recvDone, answered;
    Link() : recvDone(false), answered(false) {}
};
std::vector<Link>* links;

json::Writer::Options wopts(const h::Plan& plan) { return (json::Writer::Options)(plan.num("wopts", 12) & 15); }
json::Reader::Options ropts(const h::Plan& plan) { return (json::Reader::Options)(plan.num("ropts", 6) & 7); }

std::string print(const h::Plan& plan, const Obj& obj, std::ostream& stream, json::Writer& shared)
{
    Error e;
    if (plan.num("sharedWriter")) e = obj.print(shared);
    else { json::Writer w(stream, wopts(plan)); e = obj.print(w); }
    sim::Host host;
    return e ? (*e.what() ? std::string(e.what()) : "?") : "";
}
std::string parse(const h::Plan& plan, Obj& obj, std::istream& stream, json::Reader& shared)
{
    if (plan.num("sharedReader")) { obj.parse(shared); sim::Host host; return shared.error() ? std::string("!") + shared.error().what() : ""; }
    json::Reader r(stream, ropts(plan));
    obj.parse(r);
    sim::Host host;
    return r.error() ? std::string("!") + r.error().what() : "";
}

void sender(const h::Plan& plan, Link& l)
{
    PipeOut buf(l.there);
    std::ostream out(&buf);
    json::Writer writer(out, wopts(plan));
    PipeIn bufBack(l.back, plan.num("chunk", 1));
    std::istream in(&bufBack);
    json::Reader reader(in, ropts(plan));
    bool exchange = plan.num("exchange");
    std::string sep = str(plan.str("sep"));
    for (size_t i = 0; i < l.kinds.size(); ++i) {
        Obj obj(l.kinds[i]);
        obj.fill(l.trees[i]);
        std::string d = obj.dump();
        { sim::Host host; l.sent.push_back(str(d)); l.starts.push_back(l.there.total); }
        std::string err = print(plan, obj, out, writer);
        { sim::Host host; l.sendErr.push_back(err); l.ends.push_back(err.empty() ? l.there.total : ~size_t(0)); }
        if (!err.empty()) break;
        out.write(sep.data(), sep.size());
        if (exchange) {
            Obj answer(l.kinds[i]);
            std::string e = parse(plan, answer, in, reader);
            std::string a = answer.dump();
            sim::Host host;
            if (!e.empty()) {
                if (!l.there.cut() && !l.back.cut())
                    sim::violation("lost-document", "answer %zu wasn't received: %s", i, e.c_str());
                break;
            }
            if (str(a) != d) sim::violation("changed-document", "sent\n  %s\nand the answer is\n  %s", d.c_str(), a.c_str());
            PROBE("answer received");
        }
    }
    closePipe(l.there);
    if (exchange) closePipe(l.back); // nobody listens anymore
}

void receiver(const h::Plan& plan, Link& l)
{
    PipeIn buf(l.there, plan.num("chunk", 1));
    std::istream in(&buf);
    json::Reader reader(in, ropts(plan));
    PipeOut bufBack(l.back);
    std::ostream out(&bufBack);
    json::Writer writer(out, wopts(plan));
    bool exchange = plan.num("exchange");
    for (size_t i = 0; ; ++i) {
        // someone who doesn't know the types gets generic values
        bool generic = plan.num("generic") && !exchange;
        Obj obj(generic ? (int) KAny : i < l.kinds.size() ? l.kinds[i] : l.kinds.back());
        std::string err = parse(plan, obj, in, reader);
        std::string d = obj.dump();
        if (!err.empty()) { sim::Host host; l.recvErr = err; break; }
        {
            sim::Host host;
            l.got.push_back(str(d));
            PROBE("document received");
            if (i >= l.kinds.size()) sim::violation("extra-document", "a document was received that wasn't sent: %s", d.c_str());
            if (!generic && (i >= l.sent.size() || l.sent[i] != str(d)))
                sim::violation("changed-document", "document %zu was sent as\n  %s\nand received as\n  %s", i, i < l.sent.size() ? l.sent[i].c_str() : "nothing", d.c_str());
        }
        if (exchange) {
            std::string e = print(plan, obj, out, writer);
            sim::Host host;
            if (!e.empty()) {
                if (!l.back.cut() && !l.back.closed) sim::violation("lost-document", "answer %zu wasn't sent: %s", i, e.c_str());
                break;
            }
        }
    }
    { sim::Host host; l.recvDone = true; l.back.closed = true; }
    sim::notify();
}

void thread(const h::Plan& plan, int tid)
{
    Link& l = (*links)[tid / 2];
    if (l.kinds.empty()) return;
    if (tid % 2) receiver(plan, l); else sender(plan, l);
}

void execC09(const h::Plan& plan, const std::string*)
{
    size_t n = plan.threads / 2;
    links = new std::vector<Link>(n);
    for (auto& op : plan.ops) {
        if (op.name != "doc" || op.thread / 2 >= (int) n) continue;
        Link& l = (*links)[op.thread / 2];
        l.kinds.push_back(op.num(0));
        l.trees.emplace_back();
        if (scan(op.str(1) + " ", false, &l.trees.back()) == std::string::npos) sim::invalid("document <%s>", op.str(1).c_str());
    }
    for (auto& l : *links) {
        l.there.cap = l.back.cap = std::max(1l, plan.num("cap", 16));
        if (plan.num("cutAt", -1) >= 0) l.there.cutAt = plan.num("cutAt");
        if (plan.num("cutBack", -1) >= 0) l.back.cutAt = plan.num("cutBack");
        if (l.there.cutAt == 0) l.there.closed = true;
        if (l.back.cutAt == 0) l.back.closed = true;
    }
    h::runThreads(plan, plan.threads, thread);
    sim::nontrivial();
    for (auto& l : *links) {
        if (l.kinds.empty()) continue;
        bool cut = l.there.cutAt != ~size_t(0), exchange = plan.num("exchange");
        size_t complete = 0;
        for (size_t i = 0; i < l.ends.size(); ++i)
            if (l.ends[i] <= l.there.cutAt) complete++;
        for (size_t i = 0; i < l.sendErr.size(); ++i)
            if (!l.sendErr[i].empty() && !l.there.cut())
                sim::violation("lost-document", "document %zu wasn't sent: %s", i, l.sendErr[i].c_str());
        bool backCut = exchange && l.back.cutAt != ~size_t(0);
        if (!cut && !backCut && (complete != l.kinds.size() || l.got.size() != l.kinds.size()))
            sim::violation("lost-document", "%zu documents were to be sent, %zu were, %zu were received; error: %s", l.kinds.size(), complete, l.got.size(), l.recvErr.c_str());
        if (l.got.size() != complete)
            sim::violation("lost-document", "%zu documents were delivered completely but %zu were received; error: %s", complete, l.got.size(), l.recvErr.c_str());
        if (l.recvErr.empty() && !exchange) sim::violation("no-error", "the receiver didn't get an error in the end");
        for (size_t i = 0; plan.num("generic") && !exchange && i < l.got.size(); ++i) {
            Tree tree;
            std::string text = l.there.all.substr(l.starts[i]);
            if (scan(text, false, &tree) == std::string::npos) sim::violation("malformed", "document %zu was sent as <%s>", i, h::escape(text).c_str());
            std::string want = valueText(tree);
            if (l.got[i] != want) sim::violation("changed-document", "document %zu was sent as\n  %s\nand received as the values\n  %s\ninstead of\n  %s", i, h::escape(text).c_str(), l.got[i].c_str(), want.c_str());
            PROBE("generic value received");
        }
        for (auto& g : l.got) sim::stateMix(std::hash<std::string>()(g));
    }
}

void genC09(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = rng.chance(1, 4) ? 4 : 2;
    long w = rng.below(16), r = rng.below(8);
    if (w & json::Writer::EscapeUnicode) r |= json::Reader::UnescapeUnicode;
    plan.set("wopts", w);
    plan.set("ropts", r);
    plan.set("sharedWriter", (long) rng.chance(1, 2));
    plan.set("sharedReader", (long) rng.chance(1, 2));
    plan.set("exchange", (long) rng.chance(2, 5));
    plan.set("cap", (long) (rng.chance(1, 4) ? 1 : rng.chance(1, 2) ? 1 + rng.below(12) : 1 + rng.below(300)));
    plan.set("chunk", (long) (rng.chance(1, 3) ? 1 : 1 + rng.below(64)));
    static const char* seps[] = { "", "", "\n", " ", "\r\n", "\n\n\t " };
    plan.set("sep", std::string(plan.num("exchange") ? "" : seps[rng.below(6)]));
    plan.set("generic", (long) rng.chance(1, 3));
    size_t total = 0;
    for (int t = 0; t < plan.threads; t += 2) {
        int n = 1 + rng.below(4);
        for (int i = 0; i < n; ++i) {
            int kind;
            do kind = rng.below(KAny); while (!structural(kind));
            std::string d = genDoc(rng, kind, rng.below(10), true);
            if (rng.chance(1, 60)) d = stretch(rng, d, 13);
            total += d.size();
            plan.add(t, "doc") << (long) kind << d;
        }
    }
    if (rng.chance(1, 3)) plan.set("cutAt", (long) rng.below(total * (1 + rng.below(2)) + 2));
    if (rng.chance(1, 8)) plan.set("cutBack", (long) rng.below(total + 2));
    h::setSchedule(rng, plan);
}

struct Init { Init() {
    h::add({ "C09", "channel", 10, genC09, execC09, nullptr, false });
} } init;

} // namespace anonymous
