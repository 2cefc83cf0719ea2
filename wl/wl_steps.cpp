// wl_steps.cpp - registration steps, some of which fail: each either adds exactly
// what it says or changes nothing (C14).
#include "ob.h"

#include <algorithm>
#include <set>

using namespace reflect;
using namespace ob;

namespace {

enum { NTypes = 3, NVariants = 5 };

// ------------------------------------------------------------------ the model --
struct MFns { std::vector< std::pair<int, long> > variants; std::set<std::string> traits; };
struct MField { long kind, offset; std::set<std::string> traits; };
struct MType
{
    int parent; bool pointer; std::string ptrName; int pointee;
    std::map<std::string, MField> fields; std::map<std::string, MFns> fns; std::map<std::string, long> traits;
    MType() : parent(-1), pointer(false), pointee(-1) {}
};
struct MScope { std::set<std::string> types; std::map<std::string, MFns> fns; std::map<std::string, MScope> scopes; std::set<std::string> traits; };
struct Model
{
    MType types[NTypes]; MFns set; MScope root;
    std::map<std::string, long> registered; std::map<std::string, std::string> aliases;
};

Model* model;
struct Subjects { Type* types[NTypes]; Overloads* set; Scope* root; };
Subjects* subj;

std::string variantText(int v)
{
    static const char* n[NVariants] = { "long int()", "long int(long int)", "long int(long int,long int)", "long int(ob::A const&)", "long int(ob::A&)" };
    return n[v];
}
std::string fieldText(long k) { static const char* n[] = { "long int", "bool", "ob::A", "long int const" }; return n[k & 3]; }

std::string join(const std::set<std::string>& s) { std::string r; for (auto& x : s) r += (r.empty() ? "" : ",") + x; return r; }

std::string text(const MFns& f)
{
    std::string s = "[" + join(f.traits) + "]{";
    for (auto& v : f.variants) s += " " + variantText(v.first) + "#" + std::to_string(v.second);
    return s + " }";
}

void text(const MScope& s, const std::string& name, std::string& out)
{
    out += "scope <" + name + "> [" + join(s.traits) + "] types " + join(s.types) + " functions";
    for (auto& f : s.fns) out += " " + f.first + text(f.second);
    out += "\n";
    for (auto& c : s.scopes) text(c.second, name.empty() ? c.first : name + "::" + c.first, out);
}

std::string text(const Model& m)
{
    std::string out;
    for (int i = 0; i < NTypes; ++i) {
        auto& t = m.types[i];
        out += "type " + std::to_string(i) + " parent " + std::to_string(t.parent) + (t.pointer ? " pointer " + t.ptrName + " " + std::to_string(t.pointee) : "") + " traits";
        for (auto& x : t.traits) out += " " + x.first + (x.second ? "=" + std::to_string(x.second) : "");
        out += " fields";
        std::map<std::string, MField> fields = t.fields;
        std::map<std::string, MFns> fns = t.fns;
        for (int p = t.parent; p >= 0; p = m.types[p].parent) { fields.insert(m.types[p].fields.begin(), m.types[p].fields.end()); fns.insert(m.types[p].fns.begin(), m.types[p].fns.end()); }
        for (auto& f : fields) out += " " + f.first + ":" + fieldText(f.second.kind) + "@" + std::to_string(f.second.offset) + "[" + join(f.second.traits) + "]";
        out += " functions";
        for (auto& f : fns) out += " " + f.first + text(f.second);
        out += "\n";
    }
    out += "set " + text(m.set) + "\n";
    text(m.root, "", out);
    return out;
}

// --------------------------------------------------------------- the real thing --
std::string traitText(const Traits& t)
{
    std::vector<std::string> names = t.traits();
    std::sort(names.begin(), names.end());
    std::string r;
    for (auto& n : names) { r += (r.empty() ? "" : ",") + n; if (!t.is(n)) r += "(absent)"; }
    return r;
}

std::string text(const Overloads& o)
{
    std::string s = "[" + traitText(o) + "]{";
    for (size_t i = 0; i < o.size(); ++i) {
        s += " " + o[i].returnType().print() + "(";
        for (size_t a = 0; a < o[i].arguments(); ++a) s += (a ? "," : "") + o[i].argument(a).print();
        s += ")#";
        // it still works
        long r = -1;
        if (o[i].arguments() == 0) r = o[i].call<long>();
        else if (o[i].arguments() == 2) r = o[i].call<long>(1l, 2l) - 3;
        else if (o[i].argument(0).type() == type<long>()) r = o[i].call<long>(5l) - 5;
        else { A a(7); r = o[i].call<long>(a) - 7; }
        s += std::to_string(r);
    }
    return s + " }";
}

void text(const Scope& s, std::string& out)
{
    out += "scope <" + s.id() + "> [" + traitText(s) + "] types ";
    std::vector<std::string> n = s.types();
    std::sort(n.begin(), n.end());
    for (size_t i = 0; i < n.size(); ++i) out += (i ? "," : "") + n[i];
    out += " functions";
    n = s.functions();
    std::sort(n.begin(), n.end());
    for (auto& f : n) {
        if (!s.hasFunction(f)) out += "(absent)";
        out += " " + f + text(s.function(f));
    }
    out += "\n";
    n = s.scopes();
    std::sort(n.begin(), n.end());
    for (auto& c : n) {
        Scope* child = s.scope(c);
        if (!s.hasScope(c) || child->parent() != &s || child->name() != c) out += "(wrong)";
        text(*child, out);
    }
}

int indexOf(const Type* t) { for (int i = 0; i < NTypes; ++i) if (t == subj->types[i]) return i; return -1; }

std::string snapshot()
{
    std::string out;
    for (int i = 0; i < NTypes; ++i) {
        const Type* t = subj->types[i];
        out += "type " + std::to_string(i) + " parent " + std::to_string(indexOf(t->parent()));
        if (t->isPointer()) out += " pointer " + t->pointer() + " " + std::to_string(indexOf(t->pointee()));
        out += " traits";
        std::vector<std::string> n = t->traits();
        std::sort(n.begin(), n.end());
        for (auto& x : n) { out += " " + x; if (x[0] == 'v') out += "=" + std::to_string(t->getValue<long>(x)); }
        out += " fields";
        n = t->fields();
        for (auto& f : n) {
            const Field& x = t->field(f);
            if (!t->hasField(f) || x.name() != f) out += "(wrong)";
            out += " " + f + ":" + x.argument().print() + "@" + std::to_string(x.offset()) + "[" + traitText(x) + "]";
        }
        out += " functions";
        n = t->functions();
        for (auto& f : n) { if (!t->hasFunction(f)) out += "(absent)"; out += " " + f + text(t->function(f)); }
        out += "\n";
    }
    out += "set " + text(*subj->set) + "\n";
    text(*subj->root, out);
    return out;
}

// ----------------------------------------------------------------- the steps --
// Functions hold an object, so that each of them can be told from the others.
template<int V> struct Fn;
template<> struct Fn<0> { A a; long operator() () const { return a.v; } };
template<> struct Fn<1> { A a; long operator() (long x) const { return a.v + x; } };
template<> struct Fn<2> { A a; long operator() (long x, long y) const { return a.v + x + y; } };
template<> struct Fn<3> { A a; long operator() (const A& x) const { return a.v + x.v; } };
template<> struct Fn<4> { A a; long operator() (A& x) const { return a.v + x.v; } };

template<typename Target> void addTo(Target& t, const std::string& name, int variant, long payload)
{
    switch (variant) {
    case 0: t.addFunction(name, Fn<0>{ A(payload) }); break;
    case 1: t.addFunction(name, Fn<1>{ A(payload) }); break;
    case 2: t.addFunction(name, Fn<2>{ A(payload) }); break;
    case 3: t.addFunction(name, Fn<3>{ A(payload) }); break;
    default: t.addFunction(name, Fn<4>{ A(payload) }); break;
    }
}

Function makeFn(const std::string& name, int variant, long payload)
{
    switch (variant) {
    case 0: return Function(name, Fn<0>{ A(payload) });
    case 1: return Function(name, Fn<1>{ A(payload) });
    case 2: return Function(name, Fn<2>{ A(payload) });
    case 3: return Function(name, Fn<3>{ A(payload) });
    default: return Function(name, Fn<4>{ A(payload) });
    }
}

// Adds to the model; false if the step clashes with what's there.
bool addFn(std::map<std::string, MFns>& fns, const std::string& name, int variant, long payload)
{
    auto it = fns.find(name);
    if (it != fns.end())
        for (auto& v : it->second.variants) if (v.first == variant) return false;
    fns[name].variants.emplace_back(variant, payload);
    return true;
}

// The parts of a name; false if it's malformed.
bool split(const std::string& name, std::vector<std::string>& parts)
{
    std::string cur;
    int depth = 0;
    for (size_t i = 0; i < name.size(); ++i) {
        if (name[i] == '<') depth++;
        if (name[i] == '>') depth--;
        if (name[i] == ':' && !depth) {
            if (i + 1 >= name.size() || name[i + 1] != ':') return false;
            parts.push_back(cur); cur.clear(); ++i;
            continue;
        }
        cur += name[i];
    }
    parts.push_back(cur);
    return depth == 0;
}

bool scopeStep(const std::string& what, const std::string& name, int variant, long payload)
{
    std::vector<std::string> p;
    if (!split(name, p)) return false;
    for (auto& x : p) if (x.empty()) return false;
    Model before = *model;
    MScope* s = &model->root;
    size_t n = what == "sscope" ? p.size() : p.size() - 1;
    for (size_t i = 0; i < n; ++i) {
        if (what == "stype" && (s->types.count(p[i]) || s->fns.count(p[i]))) { *model = before; return false; }
        s = &s->scopes[p[i]];
    }
    if (what == "stype") s->types.insert(p.back());
    if (what == "sfn" && !addFn(s->fns, p.back(), variant, payload)) { *model = before; return false; }
    return true;
}

std::string* lastError;

// Performs the step. 0: done, 1: failed, 2: failed because of a fault
int step(const h::Op& op)
{
    std::string name, other, error;
    int i = (unsigned long) op.num(0) % NTypes;
    long a = op.num(2), b = op.num(3);
    int variant = (unsigned long) a % NVariants;
    bool fault = false, failed = false;
    name = op.str(1);
    other = op.str(4);
    const std::string& what = op.name;
    Subjects& s = *subj;
    uint64_t before;
    { sim::Host host; before = sim::myFaults(); }
    sim::arm(true);
    try {
        if (what == "fn") addTo(*s.types[i], name, variant, b);
        else if (what == "made") { // the function exists before
            Function fn = makeFn(name, variant, b);
            s.types[i]->addFunction(name, std::move(fn));
        }
        else if (what == "field") {
            switch (a & 3) {
            case 0: s.types[i]->addField<long>(name, b); break;
            case 1: s.types[i]->addField<bool>(name, b); break;
            case 2: s.types[i]->addField<A>(name, b); break;
            case 3: s.types[i]->addField<const long>(name, b); break;
            }
        }
        else if (what == "trait") { if (a) s.types[i]->addTrait(name, (long) a); else s.types[i]->addTrait(name); }
        else if (what == "ftrait") s.types[i]->field(name).addTrait(other);
        else if (what == "fntrait") s.types[i]->function(name).addTrait(other);
        else if (what == "pointer") s.types[i]->setPointer(name, s.types[(unsigned long) a % NTypes]);
        else if (what == "parent") s.types[i]->parent(s.types[(unsigned long) a % NTypes]);
        else if (what == "ov") { Function fn = makeFn("ov", variant, b); s.set->add(std::move(fn)); }
        else if (what == "sfn") addTo(*s.root, name, variant, b);
        else if (what == "stype") s.root->addType(name);
        else if (what == "sscope") s.root->scope(name);
        else if (what == "strait") { const Scope* root = s.root; root->scope(name)->addTrait(other); }
        else if (what == "reg") Registry::add(name, [a] (Type* t) { t->addTrait("which", a + 1); });
        else if (what == "alias") Registry::alias(name, other);
        else if (what == "copy") { // values that traits hold can be used for other traits
            Value v = s.types[i]->getValue<Value>(name);
            s.types[i]->addTrait(other, v);
        }
    }
    catch (const std::bad_alloc&) { fault = true; }
    catch (const Failure&) { fault = true; }
    catch (const std::exception& e) { sim::arm(false); failed = true; error = e.what(); }
    sim::arm(false);
    sim::Host host;
    *lastError = std::string(error.data(), error.size());
    if (fault && sim::myFaults() == before) sim::violation("spurious-failure", "a step ran out of memory or failed though nothing did");
    return fault ? 2 : failed ? 1 : 0;
}

// The step in the model.
bool inModel(const h::Op& op)
{
    const std::string& what = op.name;
    std::string name = op.str(1), other = op.str(4);
    int i = (unsigned long) op.num(0) % NTypes;
    long a = op.num(2), b = op.num(3);
    int variant = (unsigned long) a % NVariants;
    MType& t = model->types[i];
    if (what == "fn" || what == "made") { if (t.fields.count(name)) return false; return addFn(t.fns, name, variant, b); }
    if (what == "field") {
        if (t.fns.count(name) || t.fields.count(name)) return false;
        MField f = { a & 3, b, {} };
        t.fields[name] = f;
        return true;
    }
    if (what == "trait") return t.traits.emplace(name, a).second;
    if (what == "ftrait") { auto it = t.fields.find(name); return it != t.fields.end() && it->second.traits.insert(other).second; }
    if (what == "fntrait") { auto it = t.fns.find(name); return it != t.fns.end() && it->second.traits.insert(other).second; }
    if (what == "pointer") {
        if (!t.traits.emplace("pointer", 0).second) return false;
        t.pointer = true; t.ptrName = name; t.pointee = (unsigned long) a % NTypes;
        return true;
    }
    if (what == "parent") { t.parent = (unsigned long) a % NTypes; return true; }
    if (what == "ov") {
        for (auto& v : model->set.variants) if (v.first == variant) return false;
        model->set.variants.emplace_back(variant, b);
        return true;
    }
    if (what == "sfn" || what == "stype" || what == "sscope") return scopeStep(what, name, variant, b);
    if (what == "strait") {
        std::vector<std::string> p;
        if (!split(name, p)) return false;
        MScope* s = &model->root;
        for (auto& x : p) { auto it = s->scopes.find(x); if (it == s->scopes.end()) return false; s = &it->second; }
        return s->traits.insert(other).second;
    }
    if (what == "reg") {
        std::vector<std::string> p;
        if (model->registered.count(name)) return true; // too bad
        if (name.empty() || !split(name, p)) return false;
        for (auto& x : model->registered) { // a type in a type
            if (name.compare(0, x.first.size() + 2, x.first + "::") == 0) return false;
        }
        model->registered[name] = a + 1;
        return true;
    }
    if (what == "alias") return !name.empty() && !other.empty() && model->aliases.emplace(other, name).second;
    if (what == "copy") { auto it = t.traits.find(name); if (it == t.traits.end()) return false; return t.traits.emplace(other, it->second).second; }
    return true;
}

bool isStep(const h::Op& op)
{
    static const char* const n[] = { "fn", "made", "field", "trait", "ftrait", "fntrait", "pointer", "parent", "ov", "sfn", "stype", "sscope", "strait", "reg", "alias", "copy" };
    for (auto x : n) if (op.name == x) return op.args.size() >= 5;
    return false;
}

size_t functions(const MScope& s)
{
    size_t n = 0;
    for (auto& f : s.fns) n += f.second.variants.size();
    for (auto& c : s.scopes) n += functions(c.second);
    return n;
}

std::string opText(const h::Op& op) { std::string t = op.name; for (auto& a : op.args) t += " <" + h::escape(a) + ">"; return t; }

void names(const h::Plan& plan, const h::Op* last, int upTo);

void body(const h::Plan& plan)
{
    // used before, so that what's first done isn't part of a step
    try { throw Failure(); } catch (const Failure&) {}
    Subjects* s = new Subjects();
    for (int i = 0; i < NTypes; ++i) s->types[i] = new Type("local" + std::to_string(i));
    s->set = new Overloads();
    s->root = new Scope();
    type<A>(); type<long>(); type<bool>(); type<void>();
    long base;
    { sim::Host host; subj = s; base = world->live.size(); }
    int done = 0;
    for (auto& op : plan.ops) {
        if (!isStep(op)) continue;
        // acyclic parents
        if (op.name == "parent" && (unsigned long) op.num(2) % NTypes >= (unsigned long) op.num(0) % NTypes) continue;
        if ((op.name == "ftrait" || op.name == "fntrait" || op.name == "strait") && op.str(4).empty()) continue;
        int r = step(op);
        ++done;
        bool registry = op.name == "reg" || op.name == "alias";
        std::string now = registry ? std::string() : snapshot();
        {
            sim::Host host;
            Model before = *model;
            bool fits = inModel(op);
            if (r || !fits) *model = before;
            if (r == 0 && !fits) sim::violation("clash-accepted", "%s was accepted though it clashes with what's there:\n%s", opText(op).c_str(), text(before).c_str());
            if (r == 1 && fits) sim::violation("spurious-failure", "%s failed: %s\n%s", opText(op).c_str(), lastError->c_str(), text(before).c_str());
            if (r == 0) { PROBE("step succeeded"); } else if (r == 1) { PROBE("step rejected"); } else { PROBE("step failed by a fault"); }
            if (!registry) {
                std::string want = text(*model), got(now.data(), now.size());
                sim::stateMix(std::hash<std::string>()(got));
                if (want != got)
                    sim::violation(r ? "changed-by-failure" : "wrong-change", "after %s (%s) what's registered is\n%sbut it should be\n%s", opText(op).c_str(),
                        r == 0 ? "which succeeded" : r == 1 ? "which was rejected" : "which failed", got.c_str(), want.c_str());
            }
            long live = world->live.size() - base, want = functions(model->root) + model->set.variants.size();
            for (auto& t : model->types) for (auto& f : t.fns) want += f.second.variants.size();
            if (live != want) sim::violation("leftover-objects", "after %s functions hold %ld objects instead of %ld", opText(op).c_str(), live, want);
        }
        if (registry) names(plan, &op, done);
    }
    names(plan, nullptr, done);
}

// What the registry knows is what was added to it. Only asks for what doesn't
// change it, unless it's the end.
void names(const h::Plan& plan, const h::Op* last, int)
{
    for (auto& op : plan.ops) {
        if (!isStep(op) || (op.name != "reg" && op.name != "alias")) continue;
        std::string name = op.name == "reg" ? op.str(1) : op.str(4);
        bool malformed;
        long which = 0; bool known = false;
        {
            sim::Host host;
            std::vector<std::string> p;
            malformed = name.empty() || !split(std::string(name.data(), name.size()), p);
            std::string target = op.name == "reg" ? op.str(1) : op.str(4);
            auto a = model->aliases.find(target);
            if (a != model->aliases.end()) target = a->second;
            auto it = model->registered.find(target);
            known = it != model->registered.end();
            if (known) which = it->second;
        }
        if (op.name == "reg" && !malformed) {
            bool has = false;
            std::string err;
            try { has = scope()->hasType(name); } catch (const std::exception& e) { err = e.what(); }
            sim::Host host;
            bool want = model->registered.count(op.str(1));
            if (has != want && err.empty())
                sim::violation(want ? "wrong-change" : "changed-by-failure", "%s: scope %s type <%s>", last ? ("after " + opText(*last)).c_str() : "in the end", has ? "has" : "doesn't have", op.str(1).c_str());
        }
        if (last) continue;
        long got = 0; std::string err;
        try { got = type(name)->getValue<long>("which"); } catch (const std::exception& e) { err = e.what(); }
        sim::Host host;
        std::string text = op.name == "reg" ? op.str(1) : op.str(4);
        if (known && got != which) sim::violation("wrong-change", "in the end <%s> is %ld instead of %ld: %s", text.c_str(), got, which, err.c_str());
        if (!known && err.empty()) sim::violation("changed-by-failure", "in the end <%s> is known: %ld", text.c_str(), got);
    }
}

void exec(const h::Plan& plan, const std::string*)
{
    ob::begin();
    model = new Model();
    lastError = new std::string();
    h::runOne(body, plan);
    sim::nontrivial();
}

void gen(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 1;
    int n = 2 + rng.below(26);
    long payload = 10;
    auto pick = [&] (std::initializer_list<const char*> l) -> std::string { return *(l.begin() + rng.below(l.size())); };
    bool longNames = rng.chance(1, 2);
    std::string tailing = longNames ? "_with_a_name_that_is_allocated" : "";
    while (n-- > 0) {
        long i = rng.below(NTypes);
        payload += 10;
        std::string member = pick({ "x", "y", "z", "operator()" }) + tailing;
        std::string tr = pick({ "ta", "tb", "tc" }) + tailing;
        switch (rng.below(20)) {
        case 0: case 1: case 2: plan.add(0, "fn") << i << member << (long) rng.below(NVariants) << payload << ""; break;
        case 3: plan.add(0, "made") << i << member << (long) rng.below(NVariants) << payload << ""; break;
        case 4: case 5: plan.add(0, "field") << i << member << (long) rng.below(4) << payload << ""; break;
        case 6: { bool val = rng.chance(1, 2); plan.add(0, "trait") << i << (val ? "v" + tr : tr) << (val ? payload : 0l) << 0 << ""; } break;
        case 7: plan.add(0, "ftrait") << i << member << 0 << 0 << tr; break;
        case 8: plan.add(0, "fntrait") << i << member << 0 << 0 << tr; break;
        case 9: if (rng.chance(1, 2)) plan.add(0, "pointer") << i << pick({ "*", "smart_pointer_with_a_long_name" }) << (long) rng.below(NTypes) << 0 << "";
                else plan.add(0, "parent") << i << "" << (long) rng.below(NTypes) << 0 << ""; break;
        case 10: case 11: plan.add(0, "ov") << 0 << "" << (long) rng.below(NVariants) << payload << ""; break;
        case 12: case 13: case 14: {
            std::string s;
            for (int d = rng.below(3); d > 0; --d) s += pick({ "a", "b", "x" }) + tailing + "::";
            plan.add(0, "sfn") << 0 << s + pick({ "x", "f", "a", "f<a::b>" }) << (long) rng.below(NVariants) << payload << ""; } break;
        case 15: case 16: {
            std::string s;
            for (int d = rng.below(4); d > 0; --d) s += pick({ "a", "b", "t", "x" }) + tailing + "::";
            s += pick({ "t", "u", "a", "t<a::b>" });
            if (rng.chance(1, 10)) s += pick({ ":", "<", ":x", "::q<" });
            plan.add(0, "stype") << 0 << s << 0 << 0 << ""; } break;
        case 17: {
            std::string s = pick({ "a", "b", "c" }) + tailing;
            for (int d = rng.below(3); d > 0; --d) s += "::" + pick({ "a", "b", "d<a::b>" });
            if (rng.chance(1, 10)) s += pick({ ":", "<", ":x", "::q<" });
            if (rng.chance(1, 4)) plan.add(0, "strait") << 0 << s << 0 << 0 << tr;
            else plan.add(0, "sscope") << 0 << s << 0 << 0 << ""; } break;
        case 18: {
            static const char* const regs[] = { "c14::r0", "c14::r1_with_a_name_that_is_allocated", "c14::in::r2", "r3", "r3::inner", "c14::r4:", "c14::r5<", "" };
            plan.add(0, "reg") << 0 << regs[rng.below(8)] << payload << 0 << ""; } break;
        case 19: {
            if (rng.chance(1, 3)) { bool v = rng.chance(1, 2); plan.add(0, "copy") << i << (v ? "v" + tr : tr) << 0 << 0 << (v ? "v" : "") + pick({ "ta", "td", "te" }) + tailing; break; }
            plan.add(0, "alias") << 0 << pick({ "c14::r0", "c14::r1_with_a_name_that_is_allocated", "c14::in::r2", "r3", "" }) << 0 << 0 << pick({ "al0", "al1_with_a_name_that_is_allocated", "" }); } break;
        }
    }
    if (rng.chance(2, 3)) {
        int span = 1 << (2 + rng.below(7));
        for (int k = 1 + rng.below(6); k > 0; --k) plan.allocFaults.push_back(1 + rng.below(span));
        std::sort(plan.allocFaults.begin(), plan.allocFaults.end());
    }
    if (rng.chance(1, 2)) {
        int span = 1 << (1 + rng.below(6));
        for (int k = 1 + rng.below(4); k > 0; --k) plan.userFaults.push_back(1 + rng.below(span));
        std::sort(plan.userFaults.begin(), plan.userFaults.end());
    }
    h::setSchedule(rng, plan);
    plan.sched.mode = sim::Sequential;
    plan.sched.failRun = rng.chance(1, 5) ? 2 : 1;
}

struct Init { Init() {
    h::add({ "C14", "steps", 10, gen, exec, nullptr, false });
} } init;

} // namespace anonymous
