// wl_scope.cpp - the scope tree while types and functions are registered (C17).
//
// Every registration and every query is recorded with the time it began and
// ended and what it saw; afterwards an order of all of them is searched in which
// one thread, working on a plain set of names, would have got the same answers.
#include "gen.h"

#include <string.h>
#include <algorithm>
#include <set>
#include <unordered_set>

namespace {
template<int I> struct Elem { int64_t v; Elem() : v(I) {} };
} // namespace anonymous
namespace gen { template<typename T> struct Nest {}; }
reflectTemplate(gen::Nest, ValueT)
{
    reflectPlumbing(); // doesn't need the inner type to be registered
}
namespace reflect {
template<int I> struct Reflect< Elem<I> >
{
    typedef Elem<I> T_;
    static std::string id() { return std::string("elem::e") + char('0' + I); }
    static void loader() {}
    static void reflect(Type* type_) { reflectPlumbing(); reflectField(v); }
};
} // namespace reflect

using namespace reflect;

namespace {

std::string host(const std::string& s) { return std::string(s.data(), s.size()); }

enum { NPaths = 7, NNames = 3 };
const char* const paths[NPaths] = { "", "c17", "c17::a", "c17::b", "c17::a::c", "c17::a::c::d", "c17::b::a" };
// The last name is long.
std::string last(long n) { std::string s(n == NNames - 1 ? 70 : 0, 'w'); return s + char('x' + n); }
std::string typeName(long p, long n) { return Scope::join(paths[p], "T17" + last(n)); }
std::string fnName(long p, long n) { return Scope::join(paths[p], "f17" + last(n)); }
long pathArg(const h::Op& op, size_t i) { long p = op.num(i); return p < 0 || p >= NPaths ? 0 : p; }
long nameArg(const h::Op& op, size_t i) { long n = op.num(i); return n < 0 || n >= NNames ? 0 : n; }

// ------------------------------------------------------------ what is recorded
// Names are prefixed with S, T or F: scope, type, function.
struct Event
{
    size_t op; int thread; uint64_t begin, end;
    bool query, maybe;
    uint64_t domain, seen; // queries: what they could have seen and did
    uint64_t adds;         // registrations
    std::string what;
};
struct Shared
{
    std::vector<std::string> universe;
    std::map<std::string, int> index;
    std::vector<Event> events;
    std::map<std::string, const Scope*> scopes;
    std::map<std::string, const Type*> types;
};
Shared* sh;

int bitOf(const std::string& key)
{
    auto it = sh->index.find(key);
    return it == sh->index.end() ? -1 : it->second;
}

void addUniverse(const std::string& key)
{
    if (sh->index.count(key) || sh->universe.size() >= 60) return;
    sh->index[key] = sh->universe.size();
    sh->universe.push_back(key);
}

// All scopes that name is in. Names of templates are only split before '<'.
void prefixes(const std::string& name, std::vector<std::string>& out)
{
    size_t end = std::min(name.find('<'), name.size());
    for (size_t i = 0; i + 1 < end; ++i) if (name[i] == ':' && name[i + 1] == ':') { out.push_back(name.substr(0, i)); ++i; }
}

uint64_t bitsFor(const std::string& key)
{
    uint64_t bits = 0;
    std::vector<std::string> p;
    std::string name = key.substr(1);
    prefixes(name, p);
    for (auto& s : p) if (bitOf("S" + s) >= 0) bits |= 1ull << bitOf("S" + s);
    if (bitOf(key) >= 0) bits |= 1ull << bitOf(key);
    return bits;
}

std::string keyText(const std::string& k) { return (k[0] == 'S' ? "scope " : k[0] == 'T' ? "type " : "function ") + k.substr(1); }

// Names that nothing in this run registers and that were there before it began.
std::set<std::string>* initial;

// ------------------------------------------------------------------- operations
template<int I> void useBox(long k)
{
    using gen::Box;
    switch (k & 3) {
    case 0: type< Box< Elem<I> > >(); break;
    case 1: type< Box< std::vector< Elem<I> > > >(); break;
    case 2: type< gen::Nest< gen::Nest< std::vector< Elem<I> > > > >(); break;
    case 3: type< gen::Nest< gen::Nest< gen::Nest< std::vector< gen::Nest< Elem<I> > > > > > >(); break;
    }
}
void useTemplate(long i, long k)
{
    switch (i & 3) { case 0: useBox<0>(k); break; case 1: useBox<1>(k); break; case 2: useBox<2>(k); break; case 3: useBox<3>(k); break; }
}

struct Result
{
    bool memory; std::string error; // failed with
    bool absent;                    // the scope asked doesn't exist
    std::vector<std::string> names; // sim memory until copied
    bool yes;
};

std::string typeKey(const h::Op& op) { return "T" + typeName(pathArg(op, 0), nameArg(op, 1)); }
std::string directKey(const h::Op& op) { return "T" + Scope::join(paths[pathArg(op, 0)], "D17"); } // put into the scope only: there's no such type
std::string fnKey(const h::Op& op) { return "F" + fnName(pathArg(op, 0), nameArg(op, 1)); }
std::string boxKey(const h::Op& op, size_t i)
{
    std::string g = std::string("elem::e") + char('0' + (op.num(i) & 3));
    auto nest = [] (const std::string& s) { return "gen::Nest<" + s + ">"; };
    switch (op.num(i + 1) & 3) {
    case 0: return "Tgen::Box<" + g + ">";
    case 1: return "Tgen::Box<std::vector<" + g + ">>";
    case 2: return "T" + nest(nest("std::vector<" + g + ">"));
    default: return "T" + nest(nest(nest("std::vector<" + nest(g) + ">")));
    }
}

// What an operation on names refers to; for queries of one name.
std::string queryKey(const h::Op& op)
{
    long k = op.num(2);
    if (k == 0) return typeKey(op);
    if (k == 1) return fnKey(op);
    if (k == 2) return std::string("S") + paths[std::max(1l, pathArg(op, 0))];
    if (k == 4) return directKey(op);
    return boxKey(op, 0);
}

// The entries of a printed scope.
void parsePrinted(const std::string& text, const std::string& base, std::vector<std::string>& out)
{
    std::vector<std::string> at;
    std::string name;
    bool first = true;
    size_t pos = 0;
    while (pos < text.size()) {
        size_t nl = text.find('\n', pos);
        if (nl == std::string::npos) nl = text.size();
        std::string line = text.substr(pos, nl - pos);
        pos = nl + 1;
        size_t in = line.find_first_not_of(' ');
        if (in == std::string::npos) continue;
        std::string s = line.substr(in);
        std::string here = at.empty() ? "" : at.back();
        if (s.compare(0, 6, "scope ") == 0 || s == "scope") {
            if (first) { name = base; first = false; }
            else {
                name = Scope::join(here, s.substr(6));
                out.push_back("S" + name);
            }
        }
        else if (s == "{") at.push_back(name);
        else if (s == "}") {
            if (at.empty()) sim::violation("wrong-print", "printed scope closes a scope that isn't open");
            at.pop_back();
        }
        else if (s.compare(0, 5, "type ") == 0 && s[s.size() - 1] == ';') out.push_back("T" + Scope::join(here, s.substr(5, s.size() - 6)));
        else if (s[s.size() - 1] == ':' && in == 4 * at.size()) out.push_back("F" + Scope::join(here, s.substr(0, s.size() - 1)));
    }
    if (!at.empty()) sim::violation("wrong-print", "printed scope is cut off");
}

// A scope's identity never changes.
void checkScope(const std::string& name, const Scope* s)
{
    std::string id = s->id(), last = s->name();
    const Scope* parent = s->parent();
    bool global = s->isGlobal();
    sim::Host h;
    std::string full = host(id);
    if (full != name) sim::violation("wrong-scope", "scope(\"%s\") is called %s", name.c_str(), full.c_str());
    size_t cut = full.rfind(':');
    std::string tail = cut == std::string::npos ? full : full.substr(cut + 1);
    if (host(last) != tail) sim::violation("wrong-scope", "scope(\"%s\") is named %s", name.c_str(), host(last).c_str());
    if (global != name.empty()) sim::violation("wrong-scope", "scope(\"%s\") %s global", name.c_str(), global ? "is" : "isn't");
    auto at = sh->scopes.emplace(full, s);
    if (at.first->second != s) sim::violation("two-scopes", "two scopes are called %s", full.c_str());
    if (parent) {
        std::string up = cut == std::string::npos ? "" : full.substr(0, cut - 1);
        auto pt = sh->scopes.emplace(up, parent);
        if (pt.first->second != parent) sim::violation("two-scopes", "the parent of %s isn't scope %s", full.c_str(), up.c_str());
    }
}

void record(Event& e) { sh->events.push_back(e); }

// One registration: what it adds becomes visible at once.
template<typename Fn>
bool registering(size_t i, int tid, const std::string& key, const Fn& fn)
{
    Event e = {};
    e.op = i; e.thread = tid;
    {
        sim::Host h;
        e.begin = sim::stamp();
    }
    bool memory = false;
    std::string error;
    sim::arm(true);
    try { fn(); }
    catch (const std::bad_alloc&) { memory = true; }
    catch (const std::exception& x) { sim::arm(false); error = x.what(); }
    sim::arm(false);
    sim::Host h;
    e.end = sim::stamp();
    std::string text = host(error);
    if (!text.empty()) sim::violation("wrong-outcome", "registering %s failed: %s", keyText(key).c_str(), text.c_str());
    e.what = "register " + keyText(key) + (memory ? ": out of memory" : "");
    e.maybe = memory && key.find('<') != std::string::npos; // the template may have been registered before loading it failed
    if (!memory || e.maybe) { e.adds = bitsFor(key); record(e); }
    else PROBE("registration out of memory");
    return !memory;
}

void query(size_t i, int tid, const h::Op& op)
{
    Event e = {};
    e.op = i; e.thread = tid; e.query = true;
    std::string base, key;
    long p = pathArg(op, 0), kind = op.num(1);
    const Scope* known = nullptr;
    {
        sim::Host h;
        base = paths[p];
        if (p && op.num(3)) { // through a pointer that was obtained earlier
            auto it = sh->scopes.find(base);
            if (it != sh->scopes.end()) known = it->second;
        }
        e.begin = sim::stamp();
    }
    bool memory = false, absent = false;
    std::string error, text;
    std::vector<std::string> names;
    const Scope* got = nullptr;
    sim::arm(true);
    try {
        const Scope* s = known;
        if (!s) {
            if (op.num(4) || !p) s = p ? scope(base) : scope();
            else { const Scope* g = scope(); s = g->scope(base); }
        }
        got = s;
        switch (kind) {
        case 0: names = s->scopes(); break;
        case 1: names = s->types(op.num(2)); break;
        case 2: names = s->functions(op.num(2)); break;
        // a stringstream that runs out of memory only drops what's written to it
        default: sim::arm(false); text = s->print(); break;
        }
    }
    catch (const std::bad_alloc&) { memory = true; }
    catch (const std::exception& x) { sim::arm(false); error = x.what(); }
    sim::arm(false);
    if (got && !memory) checkScope(base, got);
    sim::Host h;
    e.end = sim::stamp();
    if (memory) return;
    std::string err = host(error);
    std::string prefix = base.empty() ? "" : base + "::";
    std::vector<std::string> seen;
    std::string baseText = host(base);
    if (!err.empty()) {
        if (!strstr(err.c_str(), "doesn't have scope")) sim::violation("wrong-outcome", "querying scope %s failed: %s", baseText.c_str(), err.c_str());
        absent = true;
    }
    else if (kind < 3) for (auto& n : names) seen.push_back(std::string(1, "STF"[kind]) + host(prefix) + host(n));
    else parsePrinted(host(text), baseText, seen);
    e.what = h::format("%s of %s", kind == 0 ? "scopes" : kind == 1 ? (op.num(2) ? "all types" : "types") : kind == 2 ? (op.num(2) ? "all functions" : "functions") : "print", base.empty() ? "the global scope" : baseText.c_str());
    // what could have been seen
    for (size_t b = 0; b < sh->universe.size(); ++b) {
        const std::string& u = sh->universe[b];
        if (kind < 3 && u[0] != "STF"[kind]) continue;
        std::string name = u.substr(1);
        if (name.compare(0, prefix.size(), prefix.data(), prefix.size()) != 0) continue;
        std::string rest = name.substr(prefix.size());
        size_t cut = std::min(rest.find('<'), rest.size());
        bool nested = rest.substr(0, cut).find("::") != std::string::npos;
        if (nested && (kind == 0 || (kind < 3 && !op.num(2)))) continue;
        e.domain |= 1ull << b;
    }
    std::set<std::string> once;
    for (auto& s : seen) {
        if (!once.insert(s).second) sim::violation("twice", "%s shows %s twice", e.what.c_str(), keyText(s).c_str());
        int b = bitOf(s);
        if (b >= 0) {
            if (!(e.domain >> b & 1)) sim::violation("misplaced", "%s shows %s, which isn't in it", e.what.c_str(), keyText(s).c_str());
            e.seen |= 1ull << b;
        }
        else if (s.find("17") != std::string::npos && !initial->count(s)) sim::violation("unknown", "%s shows %s, which nothing registers", e.what.c_str(), keyText(s).c_str());
    }
    if (!absent) for (auto& s : *initial) {
        if (kind < 3 && s[0] != "STF"[kind]) continue;
        std::string name = s.substr(1);
        if (name.compare(0, prefix.size(), prefix.data(), prefix.size()) != 0) continue;
        std::string rest = name.substr(prefix.size());
        bool nested = rest.substr(0, std::min(rest.find('<'), rest.size())).find("::") != std::string::npos;
        if (nested && (kind == 0 || (kind < 3 && !op.num(2)))) continue;
        if (!once.count(s)) sim::violation("lost", "%s doesn't show %s, which was registered before the threads started", e.what.c_str(), keyText(s).c_str());
    }
    if (p) { // the scope itself
        int b = bitOf("S" + baseText);
        if (b >= 0) { e.domain |= 1ull << b; if (!absent) e.seen |= 1ull << b; }
    }
    if (absent) { e.seen = 0; e.what += " (no such scope)"; }
    record(e);
}

// Is there such a type, function, or scope?
void asking(size_t i, int tid, const h::Op& op)
{
    Event e = {};
    e.op = i; e.thread = tid; e.query = true;
    std::string key, name;
    bool use = op.num(3);
    {
        sim::Host h;
        e.begin = sim::stamp();
    }
    key = queryKey(op);
    name = key.substr(1);
    bool memory = false, yes = false;
    std::string error;
    const Scope* sc = nullptr;
    const Type* t = nullptr;
    long value = -1;
    sim::arm(true);
    try {
        if (key[0] == 'T') {
            if (use) { t = op.num(4) && op.num(2) != 4 ? type(name) : scope()->type(name); yes = true; }
            else yes = scope()->hasType(name);
        }
        else if (key[0] == 'F') {
            if (use) {
                if (op.num(4)) value = scope()->call<long>(name);
                else {
                    const Scope* g = scope();
                    value = g->function(name).call<long>();
                }
                yes = true;
            }
            else yes = scope()->hasFunction(name);
        }
        else {
            const Scope* g = scope();
            if (use) { sc = op.num(4) ? scope(name) : g->scope(name); yes = true; }
            else yes = g->hasScope(name);
        }
    }
    catch (const std::bad_alloc&) { memory = true; }
    catch (const std::exception& x) { sim::arm(false); error = x.what(); }
    sim::arm(false);
    if (memory) return;
    if (sc) checkScope(name, sc);
    std::string id;
    if (t) id = t->id();
    sim::Host h;
    e.end = sim::stamp();
    std::string err = host(error), full = host(name);
    if (t) {
        if (host(id) != full) sim::violation("wrong-type", "asked for type %s, got %s", full.c_str(), host(id).c_str());
        auto at = sh->types.emplace(full, t);
        if (at.first->second != t) sim::violation("two-types", "two descriptors for %s", full.c_str());
    }
    if (key[0] == 'F' && use && yes && value != pathArg(op, 0) * 100 + nameArg(op, 1))
        sim::violation("wrong-function", "calling %s returned %ld", full.c_str(), value);
    static const char* const expected[] = { "doesn't have scope", "unknown type", "has no function", "no loader found" };
    if (!err.empty()) {
        bool fine = false;
        for (auto x : expected) if (strstr(err.c_str(), x)) fine = true;
        if (op.num(2) == 4 && strstr(err.c_str(), "no loader found")) yes = true; // known to the scope
        if (!fine) sim::violation("wrong-outcome", "%s %s failed: %s", use ? "looking up" : "asking for", keyText(key).c_str(), err.c_str());
    }
    int b = bitOf(host(key));
    if (b < 0) { // nothing registers it
        if (yes) sim::violation("unknown", "there is a %s that nothing registers", keyText(key).c_str());
        return;
    }
    e.domain = 1ull << b;
    if (yes) e.seen = e.domain;
    e.what = std::string(use ? "use " : "has ") + keyText(host(key)) + (yes ? ": yes" : ": no");
    record(e);
}

// Scopes, types and functions aren't taken for one another.
void crossed(const h::Op& op)
{
    static const char* const what[] = { "type", "scope", "function" };
    std::string s, t, f;
    s = paths[std::max(1l, pathArg(op, 0))];
    t = typeName(pathArg(op, 0), nameArg(op, 1));
    f = fnName(pathArg(op, 0), nameArg(op, 1));
    const std::string* names[] = { &t, &s, &f };
    const Scope* g = scope();
    for (int k = 0; k < 3; ++k) {
        const std::string& n = *names[k];
        bool other[3] = {};
        if (k != 0) other[0] = scope()->hasType(n);
        if (k != 1) other[1] = g->hasScope(n);
        if (k != 2) try { other[2] = g->hasFunction(n); } catch (const std::exception&) {}
        sim::Host h;
        for (int j = 0; j < 3; ++j) if (other[j]) sim::violation("misplaced", "%s %s is there as a %s", what[k], host(n).c_str(), what[j]);
    }
}

void perform(const h::Plan& plan, size_t i, int tid)
{
    const h::Op& op = plan.ops[i];
    if (op.name == "type") {
        std::string key = typeKey(op), id = key.substr(1);
        long mark = pathArg(op, 0) * 100 + nameArg(op, 1);
        registering(i, tid, key, [&] { Registry::add(id, [mark] (Type* t) { t->addTrait("mark", mark); }); });
    }
    else if (op.name == "function") {
        std::string key = fnKey(op), id = key.substr(1);
        long value = pathArg(op, 0) * 100 + nameArg(op, 1);
        if (op.num(2) && pathArg(op, 0)) { // the scope first
            std::string sk, last;
            sk = std::string("S") + paths[pathArg(op, 0)];
            last = id.substr(sk.size() + 1);
            Scope* at = nullptr;
            std::string sn = sk.substr(1);
            if (!registering(i, tid, sk, [&] { at = scope()->scope(sn); })) return;
            checkScope(sn, at);
            registering(i, tid, key, [&] { at->addFunction(last, [value] () -> long { return value; }); });
        }
        else registering(i, tid, key, [&] { scope()->addFunction(id, [value] () -> long { return value; }); });
    }
    else if (op.name == "direct") {
        std::string key = directKey(op), id = key.substr(1);
        if (op.num(1) && pathArg(op, 0)) { // via the scope
            std::string sn = paths[pathArg(op, 0)];
            Scope* at = nullptr;
            if (!registering(i, tid, "S" + sn, [&] { at = scope()->scope(sn); })) return;
            registering(i, tid, key, [&] { at->addType("D17"); });
        }
        else registering(i, tid, key, [&] { scope()->addType(id); });
    }
    else if (op.name == "again") { // a name that the scope has, or had to be given first
        std::string key = typeKey(op), id = key.substr(1);
        long mark = pathArg(op, 0) * 100 + nameArg(op, 1);
        if (registering(i, tid, key, [&] { Registry::add(id, [mark] (Type* t) { t->addTrait("mark", mark); }); }))
            registering(i, tid, key, [&] { scope()->addType(id); });
    }
    else if (op.name == "scope") {
        std::string key, name;
        key = std::string("S") + paths[std::max(1l, pathArg(op, 0))];
        name = key.substr(1);
        Scope* s = nullptr;
        if (registering(i, tid, key, [&] { s = scope()->scope(name); })) checkScope(name, s);
    }
    else if (op.name == "template") {
        std::string key = boxKey(op, 0);
        registering(i, tid, key, [&] { useTemplate(op.num(0), op.num(1)); });
    }
    else if (op.name == "list") query(i, tid, op);
    else if (op.name == "ask") asking(i, tid, op);
    else if (op.name == "cross") crossed(op);
}

void threadC17(const h::Plan& plan, int tid)
{
    for (size_t i = 0; i < plan.ops.size(); ++i)
        if (plan.ops[i].thread == tid) perform(plan, i, tid);
}

void setupC17(const h::Plan& plan)
{
    Registry::add< Elem<0> >(); Registry::add< Elem<1> >(); Registry::add< Elem<2> >(); Registry::add< Elem<3> >();
    if (plan.num("warm")) type<long>(), type<void>(), scope()->addFunction("f17warm", [] () -> long { return 1; });
    for (auto& op : plan.ops) if (op.thread == -2) perform(plan, &op - &plan.ops[0], -2);
    // What is there before the threads start.
    std::vector<std::string> t = scope()->types(true), f = scope()->functions(true);
    std::string text = scope()->print();
    sim::Host h;
    initial = new std::set<std::string>();
    std::vector<std::string> all;
    parsePrinted(host(text), "", all);
    for (auto& s : all) if (bitOf(s) < 0) initial->insert(s);
    std::set<std::string> seen(all.begin(), all.end());
    for (auto& s : t) if (!seen.count("T" + host(s))) sim::violation("wrong-print", "print() doesn't show type %s", s.c_str());
    for (auto& s : f) if (!seen.count("F" + host(s))) sim::violation("wrong-print", "print() doesn't show function %s", s.c_str());
    size_t n = t.size() + f.size(), m = 0;
    for (auto& s : all) if (s[0] != 'S') ++m;
    if (n != m) sim::violation("wrong-print", "print() shows %zu types and functions, the lists %zu", m, n);
}

// --------------------------------------------------------------------- oracle
struct Search
{
    std::vector<Event>& ev; std::unordered_set<uint64_t> seen; size_t deepest; uint64_t bestDone;
    static uint64_t key(uint64_t done, uint64_t state) { return done * 0x9E3779B97F4A7C15ull ^ (state + 0x1234567) * 0xC2B2AE3D27D4EB4Full; }
    bool go(uint64_t done, uint64_t state)
    {
        // questions that fit now can be answered now; registrations that change nothing can happen now
        for (bool more = true; more;) {
            more = false;
            uint64_t limit = ~0ull;
            for (size_t i = 0; i < ev.size(); ++i) if (!(done >> i & 1)) limit = std::min(limit, ev[i].end);
            for (size_t i = 0; i < ev.size(); ++i) {
                if (done >> i & 1 || ev[i].begin > limit) continue;
                if (ev[i].query ? (state & ev[i].domain) == ev[i].seen : !(ev[i].adds & ~state)) { done |= 1ull << i; more = true; }
            }
        }
        size_t n = __builtin_popcountll(done);
        if (n >= deepest) { deepest = n; bestDone = done; }
        if (n == ev.size()) return true;
        if (!seen.insert(key(done, state)).second) return false;
        uint64_t limit = ~0ull;
        for (size_t i = 0; i < ev.size(); ++i) if (!(done >> i & 1)) limit = std::min(limit, ev[i].end);
        for (size_t i = 0; i < ev.size(); ++i) {
            if (done >> i & 1 || ev[i].begin > limit || ev[i].query) continue;
            if (go(done | 1ull << i, state | ev[i].adds)) return true;
            if (ev[i].maybe && go(done | 1ull << i, state)) return true;
        }
        return false;
    }
};

void finaleC17(const h::Plan& plan)
{
    for (size_t i = 0; i < plan.ops.size(); ++i) if (plan.ops[i].thread == -1) perform(plan, i, -1);
    sim::Host h;
    std::vector<Event>& ev = sh->events;
    if (ev.size() > 63) sim::invalid("too many operations");
    Search s = { ev, {}, 0, 0 };
    if (s.go(0, 0)) {
        for (auto& e : ev) sim::stateMix(e.seen * 31 + e.adds);
        for (auto& a : ev) for (auto& b : ev) if (!a.query && b.query && a.thread != b.thread && a.begin < b.end && b.begin < a.end) sim::nontrivial();
        return;
    }
    std::string text;
    for (size_t i = 0; i < ev.size(); ++i) {
        Event& e = ev[i];
        text += h::format("\n  %sthread %d [%llu,%llu] %s", s.bestDone >> i & 1 ? "" : "! ", e.thread, (unsigned long long) e.begin, (unsigned long long) e.end, e.what.c_str());
        if (!e.query) continue;
        text += ": shows";
        int n = 0;
        for (size_t b = 0; b < sh->universe.size(); ++b) if (e.seen >> b & 1) text += (n++ ? ", " : " ") + sh->universe[b];
        if (!n) text += " none of these names";
    }
    sim::violation("inconsistent", "no order of these operations explains what was seen (those marked ! don't fit):%s", text.c_str());
}

void execC17(const h::Plan& plan, const std::string*)
{
    sh = new Shared();
    sh->events.reserve(256);
    for (auto& op : plan.ops) {
        std::string key;
        if (op.name == "type" || op.name == "again") key = typeKey(op);
        else if (op.name == "direct") key = directKey(op);
        else if (op.name == "function") key = fnKey(op);
        else if (op.name == "scope") key = std::string("S") + paths[std::max(1l, pathArg(op, 0))];
        else if (op.name == "template") key = boxKey(op, 0);
        else continue;
        std::vector<std::string> p;
        prefixes(key.substr(1), p);
        for (auto& s : p) if (s != "gen") addUniverse("S" + s);
        addUniverse(key);
    }
    h::runOne(setupC17, plan);
    h::runThreads(plan, plan.threads, threadC17);
    h::runOne(finaleC17, plan);
}

void genC17(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 2 + rng.below(3);
    if (rng.chance(1, 3)) plan.set("warm", 1);
    long base = rng.below(4); // a part of the tree
    long nscopes = 1 + rng.below(3);
    bool functionTaken[NPaths][NNames] = {};
    auto path = [&] () -> long { return rng.chance(1, 8) ? 0 : 1 + (base + (long) rng.below(nscopes)) % (NPaths - 1); };
    bool mixed = rng.chance(1, 2);
    int total = 0;
    auto write = [&] (int t) {
        long p = path(), n = rng.below(NNames);
        ++total;
        switch (rng.below(10)) {
        case 8: ++total; plan.add(t, "direct") << p << (long) rng.below(2); break;
        case 9: ++total; plan.add(t, "again") << p << n; break;
        case 0: case 1: case 2: plan.add(t, "type") << p << n; break;
        case 3: case 4:
            if (functionTaken[p][n]) return;
            functionTaken[p][n] = true;
            ++total;
            plan.add(t, "function") << p << n << (long) rng.below(2); break;
        case 5: plan.add(t, "scope") << p; break;
        default: plan.add(t, "template") << (long) rng.below(3) << (long) rng.below(rng.chance(1, 3) ? 4 : 2); break;
        }
    };
    auto read = [&] (int t) {
        ++total;
        if (rng.chance(1, 12)) plan.add(t, "cross") << path() << (long) rng.below(NNames);
        else if (rng.chance(1, 2)) plan.add(t, "list") << path() << (long) rng.below(4) << (long) rng.below(2) << (long) rng.below(2) << (long) rng.below(2);
        else {
            long k = rng.below(5);
            if (k == 3) plan.add(t, "ask") << (long) rng.below(3) << (long) rng.below(rng.chance(1, 3) ? 4 : 2) << k << (long) rng.below(2) << (long) rng.below(2);
            else plan.add(t, "ask") << path() << (long) rng.below(NNames) << k << (long) rng.below(2) << (long) rng.below(2);
        }
    };
    for (int k = rng.below(4); k > 0; --k) write(-2);
    for (int t = 0; t < plan.threads; ++t)
        for (int k = 1 + rng.below(6); k > 0 && total < 45; --k) {
            bool w = mixed ? rng.chance(1, 2) : (t & 1);
            if (w) write(t); else read(t);
        }
    plan.add(-1, "list") << 0 << 3 << 0 << 0 << 0;
    if (rng.chance(1, 2)) read(-1);
    if (rng.chance(1, 3)) {
        int span = 1 << (2 + rng.below(8));
        for (int k = 1 + rng.below(4); k > 0; --k) plan.allocFaults.push_back(1 + rng.below(span));
        std::sort(plan.allocFaults.begin(), plan.allocFaults.end());
    }
    h::setSchedule(rng, plan);
}

struct Init { Init() {
    h::add({ "C17", "scopes", 10, genC17, execC17, nullptr, true });
} } init;

} // namespace anonymous
