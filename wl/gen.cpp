// gen.cpp - see gen.h
#include "gen.h"

#include <functional>
#include <sstream>
#include "dsl/all.h"

#include <algorithm>
#include <set>

using namespace reflect;

namespace gen {

State* st;

std::string genId(int i)
{
    std::string s = i < 5 ? "g::t" : "g::in::t";
    s += char('0' + i);
    return s;
}

// ---------------------------------------------------------------- tables ---
namespace {

template<int J> struct Ops
{
    typedef Gen<J> T;
    static const Type* get(int route)
    {
        switch (route) {
        case 0: return type<T>();
        case 1: return type< std::vector<T> >();
        case 2: return type<T*>();
        case 3: return type< std::shared_ptr<T> >();
        case 4: return type< Box<T> >();
        case 5: return type<const T&>();
        case 6: return type< std::vector<T*> >();
        case 7: return Argument::make<const T&>().type();
        default: return nullptr;
        }
    }
    static void field(Type* type, const std::string& name, int kind, size_t off)
    {
        switch (kind) {
        case 0: type->addField<T>(name, off); break;
        case 1: type->addField<T*>(name, off); break;
        case 2: type->addField< std::vector<T> >(name, off); break;
        case 3: type->addField< std::shared_ptr<T> >(name, off); break;
        case 4: type->addField< Box<T> >(name, off); break;
        case 5: type->addField<const T>(name, off); break;
        }
    }
    static void fn(Type* type, const std::string& name, int sig)
    {
        switch (sig) {
        case 1: type->addFunction(name, [] () -> T { return T(); }); break;
        case 2: type->addFunction(name, [] (T&) {}); break;
        case 3: type->addFunction(name, [] (const T&, bool) -> bool { return true; }); break;
        case 4: type->addFunction(name, [] (T* p) -> T* { return p; }); break;
        case 5: type->addFunction(name, [] (std::vector<T>) {}); break;
        }
    }
    static void plumbing(Type* type_)
    {
        typedef T T_;
        reflectPlumbing();
    }
    static void add() { Registry::add<T>(); }
    static void alias(const std::string& a) { Registry::alias<T>(a); }
};

typedef const Type* (*GetFn)(int);
typedef void (*FieldFn)(Type*, const std::string&, int, size_t);
typedef void (*FnFn)(Type*, const std::string&, int);
typedef void (*TypeFn)(Type*);
typedef void (*AddFn)();
typedef void (*AliasFn)(const std::string&);

#define ALL(m) { Ops<0>::m, Ops<1>::m, Ops<2>::m, Ops<3>::m, Ops<4>::m, Ops<5>::m, Ops<6>::m, Ops<7>::m }
const GetFn getFns[N] = ALL(get);
const FieldFn fieldFns[N] = ALL(field);
const FnFn fnFns[N] = ALL(fn);
const TypeFn plumbingFns[N] = ALL(plumbing);
const AddFn addFns[N] = ALL(add);
const AliasFn aliasFns[N] = ALL(alias);

std::string wrap(int kind, int j)
{
    std::string t = genId(j);
    switch (kind) {
    case 1: return t + "*";
    case 2: return "std::vector<" + t + ">";
    case 3: return "std::shared_ptr<" + t + ">";
    case 4: return "gen::Box<" + t + ">";
    default: return t;
    }
}

} // namespace anonymous

void registerAll() { for (int i = 0; i < N; ++i) addFns[i](); }

void (*userStep)(long kind, long j);

void begin(const h::Plan& plan)
{
    st = new State();
    st->plan = &plan;
    for (auto& op : plan.ops) {
        if (op.name != "step") continue;
        int i = op.num(0);
        if (i < 0 || i >= N) continue;
        Step s;
        s.what = op.str(1); s.name = op.str(2); s.kind = op.num(3); s.j = op.num(4) & 7; s.value = op.num(5);
        st->steps[i].push_back(s);
    }
    st->checkIdentity = true;
}

// ------------------------------------------------------ registration code ---
void registration(int i, Type* type)
{
    {
        sim::Host host;
        st->runs[i]++;
        if (st->runs[i] > 1 && !st->multi)
            sim::violation("registered-twice", "the registration code of %s ran %d times", genId(i).c_str(), st->runs[i]);
        if (st->done[i])
            sim::violation("registered-twice", "the registration code of %s ran again after a lookup of it succeeded", genId(i).c_str());
    }
    for (size_t k = 0; k < st->steps[i].size(); ++k) {
        const Step& s = st->steps[i][k];
        const std::string name = s.name;
        const int j = s.j;
        if (s.what == "parent") type->parent(getFns[j](0));
        else if (s.what == "pointer") type->setPointer(name, getFns[j](0));
        else if (s.what == "trait") type->addTrait(name);
        else if (s.what == "value") type->addTrait(name, (long) s.value);
        else if (s.what == "field") fieldFns[j](type, name, s.kind, s.value);
        else if (s.what == "fieldtrait") { if (type->hasField(name)) type->field(name).addTrait("ft"); }
        else if (s.what == "fn") {
            if (s.kind == 0) type->addFunction(name, [] () {});
            else if (s.kind == 6) type->addFunction(name, [] (bool) {});
            else if (s.kind == 7) type->addFunction(name, [] (bool, bool) {});
            else if (s.kind == 8) type->addFunction(name, [] (bool, bool, bool) {});
            else if (s.kind == 9) type->addFunction(name, [] (bool, bool, bool, bool) {});
            else if (s.kind == 10) type->addFunction(name, [] (bool, bool, bool, bool, bool) {});
            else if (s.kind == 11) type->addFunction(name, [] (bool, bool, bool, bool, bool, bool) {});
            else if (s.kind == 12) type->addFunction(name, [] (bool, bool, bool, bool, bool, bool, bool) {});
            else if (s.kind == 13) type->addFunction(name, [] (bool, bool, bool, bool, bool, bool, bool, bool) {});
            else if (s.kind == 14) type->addFunction(name, [] (bool, bool, bool, bool, bool, bool, bool, bool, bool) {});
            else fnFns[j](type, name, s.kind);
        }
        else if (s.what == "fntrait") { if (type->hasFunction(name)) type->function(name).addTrait("fnt"); }
        else if (s.what == "alias") aliasFns[i](name);
        else if (s.what == "plumbing") plumbingFns[i](type);
        else if (s.what == "lookup") lookup(s.kind, j);
        else if (s.what == "user") { if (userStep) userStep(s.kind, j); }
        else if (s.what == "fail") { // kind: how; value: how often
            bool fail;
            { sim::Host host; fail = st->fails[i] < s.value; if (fail) st->fails[i]++; }
            if (!fail) continue;
            PROBE("fault: registration code failed");
            switch (s.kind) {
            case 0: reflectError("planned failure of <%s>", type->id());
            case 1: throw 17;
            case 2: reflect::type("g::unknown"); break;
            case 3: type->addTrait("twice"); type->addTrait("twice"); break;
            case 4: throw std::bad_alloc();
            case 5: type->function("missing"); break;
            case 6: aliasFns[i]("dup"); aliasFns[i]("dup"); break;
            }
        }
    }
    sim::Host host;
}

// -------------------------------------------------------------- describe ---
namespace {

std::string arg(const Argument& a)
{
    std::string s = a.type() ? a.type()->id() : "(null)";
    if (a.isConst()) s += " const";
    if (a.refType() == RefType::LValue) s += "&";
    if (a.refType() == RefType::RValue) s += "&&";
    return s;
}

std::string traitList(const Traits& t)
{
    std::vector<std::string> names = t.traits();
    std::sort(names.begin(), names.end());
    std::string s;
    for (auto& n : names) {
        s += s.empty() ? "" : ",";
        s += n;
        if (!t.is(n)) s += "(absent)";
        if (n.size() > 1 && n[0] == 'v' && n[1] == '_') s += "=" + std::to_string(t.getValue<long>(n));
        if (n == "valueType" || n == "keyType") s += "=" + t.getValue<const Type*>(n)->id();
    }
    return s;
}

} // namespace anonymous

std::string describe(const Type* t)
{
    std::string s = t->id() + ": parent " + (t->parent() ? t->parent()->id() : "-");
    if (t->isPointer()) s += "; pointer " + t->pointer() + " " + (t->pointee() ? t->pointee()->id() : "-");
    s += "; traits " + traitList(*t);
    s += "; fields";
    for (auto& n : t->fields()) {
        const Field& f = t->field(n);
        if (!t->hasField(n)) s += " (absent)";
        s += " " + f.name() + "@" + std::to_string(f.offset()) + " " + arg(f.argument()) + "[" + traitList(f) + "]";
    }
    // A type that's a pointer is only a child of pointers.
    bool pointers = t->isPointer();
    for (const Type* p = t->parent(); p; p = p->parent()) {
        pointers = pointers || p->isPointer();
        if (!pointers && (!t->isChildOf(p) || !p->isParentOf(t) || p->isChildOf(t))) s += " (not a child of " + p->id() + ")";
    }
    s += "; functions";
    for (auto& n : t->functions()) {
        const Overloads& o = t->function(n);
        if (!t->hasFunction(n)) s += " (absent)";
        s += " " + n + "[" + traitList(o) + "]{";
        for (size_t k = 0; k < o.size(); ++k) {
            const Function& f = o[k];
            s += (k ? " " : "") + arg(f.returnType()) + "(";
            for (size_t a = 0; a < f.arguments(); ++a) s += (a ? "," : "") + arg(f.argument(a));
            s += ")";
        }
        s += "}";
    }
    return s;
}

std::string notPrinted(const Type* t)
{
    std::vector<std::string> lines(1);
    std::string text = t->print();
    for (char c : text) if (c == '\n') lines.emplace_back(); else if (c != ' ' || !lines.back().empty()) lines.back() += c;
    auto traits = [] (const Traits& t, const std::string& line) {
        for (auto& n : t.traits()) if (line.find(" " + n + " ") == std::string::npos) return false;
        return true;
    };
    auto any = [&] (const std::function<bool(size_t)>& f) {
        for (size_t i = 0; i < lines.size(); ++i) if (f(i)) return true;
        return false;
    };
    for (const Type* p = t; p; p = p->parent())
        if (!any([&] (size_t i) { return lines[i] == "type " + p->id(); })) return "type " + p->id();
    if (!t->traits().empty() && !any([&] (size_t i) { return traits(*t, lines[i]); })) return "its traits";
    for (auto& n : t->fields()) {
        const Field& f = t->field(n);
        std::stringstream ss;
        ss << "0x" << std::hex << f.offset() << ": " << f.type()->id() << " " << n;
        auto shows = [&] (size_t i) { return !lines[i].compare(0, ss.str().size(), ss.str()) && traits(f, lines[i]); };
        if (!any(shows)) return "field " + n;
    }
    for (auto& n : t->functions()) {
        const Overloads& o = t->function(n);
        auto shows = [&] (size_t i) {
            if (lines[i] != n + ":") return false;
            if (!o.traits().empty()) { if (++i >= lines.size() || !traits(o, lines[i])) return false; }
            for (size_t k = 0; k < o.size(); ++k) {
                std::string sig = arg(o[k].returnType()) + "(";
                for (size_t a = 0; a < o[k].arguments(); ++a) sig += (a ? ", " : "") + arg(o[k].argument(a));
                if (++i >= lines.size() || lines[i] != sig + ")") return false;
            }
            return true;
        };
        if (!any(shows)) return "function " + n;
    }
    return "";
}

// What describe() yields for Gen<i> according to its steps alone.
namespace {

struct Model
{
    int parent; bool pointer; std::string ptrName; int pointee;
    std::map<std::string, std::string> traits;
    std::map<std::string, std::pair<std::string, std::string>> fields; // text, traits
    std::map<std::string, std::pair<std::vector<std::string>, std::string>> fns;
};

Model modelOf(int i)
{
    Model m; m.parent = -1; m.pointer = false; m.pointee = -1;
    std::string me = genId(i);
    for (auto& s : st->steps[i]) {
        std::string t = genId(s.j);
        if (s.what == "parent") m.parent = s.j;
        else if (s.what == "pointer") { m.pointer = true; m.ptrName = s.name; m.pointee = s.j; m.traits["pointer"] = ""; }
        else if (s.what == "trait") m.traits[s.name] = "";
        else if (s.what == "value") m.traits[s.name] = "=" + std::to_string(s.value);
        else if (s.what == "field")
            m.fields[s.name].first = s.name + "@" + std::to_string(s.value) + " " + wrap(s.kind, s.j) + (s.kind == 5 ? " const" : "");
        else if (s.what == "fieldtrait") { if (m.fields.count(s.name)) m.fields[s.name].second = "ft"; }
        else if (s.what == "fn") {
            std::string sig;
            switch (s.kind) {
            case 0: sig = "void()"; break;
            case 1: sig = t + "()"; break;
            case 2: sig = "void(" + t + "&)"; break;
            case 3: sig = "bool(" + t + " const&,bool)"; break;
            case 4: sig = t + "*(" + t + "*)"; break;
            case 5: sig = "void(std::vector<" + t + ">)"; break;
            case 6: sig = "void(bool)"; break;
            case 7: sig = "void(bool,bool)"; break;
            default:
                sig = "void(bool";
                for (int k = 6; k < s.kind; ++k) sig += ",bool";
                sig += ")";
            }
            m.fns[s.name].first.push_back(sig);
        }
        else if (s.what == "fntrait") { if (m.fns.count(s.name)) m.fns[s.name].second = "fnt"; }
        else if (s.what == "plumbing") {
            m.traits["sizeof"] = "";
            auto& c = m.fns[me].first;
            c.push_back(me + "()"); c.push_back(me + "(" + me + " const&)"); c.push_back(me + "(" + me + "&&)");
            auto& a = m.fns["operator="].first;
            a.push_back(me + "&(" + me + "&," + me + " const&)"); a.push_back(me + "&(" + me + "&," + me + "&&)");
        }
    }
    return m;
}

} // namespace anonymous

std::string model(int i)
{
    Model m = modelOf(i);
    std::string s = genId(i) + ": parent " + (m.parent >= 0 ? genId(m.parent) : "-");
    if (m.pointer) s += "; pointer " + m.ptrName + " " + genId(m.pointee);
    s += "; traits ";
    bool first = true;
    for (auto& t : m.traits) { s += (first ? "" : ",") + t.first + t.second; first = false; }
    // members of the ancestors, nearest first
    std::map<std::string, std::string> fields, fns;
    std::set<int> visited;
    for (int k = i; k >= 0 && visited.insert(k).second; ) {
        Model a = modelOf(k);
        for (auto& f : a.fields) fields.emplace(f.first, f.second.first + "[" + f.second.second + "]");
        for (auto& f : a.fns) {
            std::string x = f.first + "[" + f.second.second + "]{";
            for (size_t n = 0; n < f.second.first.size(); ++n) x += (n ? " " : "") + f.second.first[n];
            fns.emplace(f.first, x + "}");
        }
        k = a.parent;
    }
    s += "; fields";
    for (auto& f : fields) s += " " + f.second;
    s += "; functions";
    for (auto& f : fns) s += " " + f.second;
    return s;
}

// ---------------------------------------------------------------- lookup ---
// Routes 0-7 are by C++ type, the rest by name.
const Type* lookup(int route, int j)
{
    if (route < 8) return getFns[j](route);
    std::string id = genId(j);
    switch (route) {
    case 8: return type(id);
    case 9: return type(std::string("alias") + char('0' + j));
    case 10: return scope()->type(id);
    case 11: return scope(j < 5 ? "g" : "g::in")->type(std::string("t") + char('0' + j));
    case 12: return scope("g")->type(j < 5 ? std::string("t") + char('0' + j) : std::string("in::t") + char('0' + j));
    // template types by name: only known once they were used by type
    case 13: getFns[j](1); return type("std::vector<" + id + ">");
    case 14: getFns[j](2); return type(id + "*");
    case 15: getFns[j](4); return scope("gen")->type("Box<" + id + ">");
    }
    return nullptr;
}

std::string routeId(int route, int j)
{
    static const int kinds[NRoutes] = { 0, 2, 1, 3, 4, 0, 6, 0, 0, 0, 0, 0, 0, 2, 1, 4 };
    int k = kinds[route];
    if (k == 6) return "std::vector<" + genId(j) + "*>";
    return wrap(k, j);
}

std::string routeName(int r)
{
    static const char* n[NRoutes] = { "T", "vector<T>", "T*", "shared_ptr<T>", "Box<T>", "const T&", "vector<T*>", "Argument<const T&>",
        "id", "alias", "global scope", "own scope", "outer scope", "vector id", "pointer id", "Box via scope" };
    return n[r];
}

bool leaf(const std::string& id)
{
    return id.find("g::") == std::string::npos;
}

// -------------------------------------------------------------- identity ---
void identify(const Type* t)
{
    if (!t) sim::violation("null-type", "a description refers to no type");
    std::string id = t->id();
    sim::Host host;
    if (!st->checkIdentity) return;
    auto it = st->ptr.emplace(std::string(id.data(), id.size()), t);
    if (it.first->second != t)
        sim::violation("two-descriptors", "two descriptors for %s: %p and %p", id.c_str(), (const void*)it.first->second, (const void*)t);
}

namespace {
template<typename F> void each(const Type* t, const F& f)
{
    if (t->parent()) f(t->parent());
    if (t->isPointer()) f(t->pointee());
    if (t->is("valueType")) f(t->getValue<const Type*>("valueType"));
    for (auto& n : t->fields()) f(t->field(n).type());
    for (auto& n : t->functions()) {
        const Overloads& o = t->function(n);
        for (size_t k = 0; k < o.size(); ++k) {
            f(o[k].returnType().type());
            for (size_t a = 0; a < o[k].arguments(); ++a) f(o[k].argument(a).type());
        }
    }
}
} // namespace anonymous

void identifyAll(const Type* t)
{
    identify(t);
    each(t, [] (const Type* x) { identify(x); });
}

void closure(std::vector<const Type*>& todo, bool primitives)
{
    std::unordered_set<const Type*> seen(todo.begin(), todo.end());
    for (size_t i = 0; i < todo.size(); ++i) {
        each(todo[i], [&] (const Type* x) {
                if (!x) sim::violation("null-type", "a description refers to no type");
                if (!primitives && leaf(x->id())) return;
                if (seen.insert(x).second) todo.push_back(x);
            });
    }
}

// -------------------------------------------------------------- generator ---
void genSteps(sim::Rng& rng, h::Plan& plan, int n, bool cyclic, int density)
{
    bool chain = rng.chance(1, 6); // each type inherits from the one before
    for (int i = 0; i < n; ++i) {
        int k = 1 + rng.below(rng.chance(1, 12) ? 5 * density : density);
        int inherits = chain && i ? (int) rng.below(k) : -1;
        bool parent = false, pointer = false, plumbing = false, alias = false;
        int uniq = 0;
        std::string lastField, lastFn; bool lastFieldT = false, lastFnT = false;
        auto pick = [&] () -> long { // a type this one refers to
            if (!cyclic) return i ? rng.below(i) : -1;
            return rng.below(n);
        };
        while (k-- > 0) {
            auto name = [&] (const char* p) { return std::string(p) + std::to_string(i) + "_" + std::to_string(uniq++); };
            long j = pick();
            if (k == inherits) { parent = true; plan.add(-1, "step") << (long)i << "parent" << "" << 0 << (long)(i - 1); continue; }
            switch (rng.below(11)) {
            case 0: if (!parent && i && inherits < 0) { parent = true; plan.add(-1, "step") << (long)i << "parent" << "" << 0 << (long)rng.below(i); } break;
            case 1: if (!pointer && i) { pointer = true; plan.add(-1, "step") << (long)i << "pointer" << "gp" << 0 << (long)rng.below(i); } break;
            case 2: plan.add(-1, "step") << (long)i << "trait" << name("tr"); break;
            case 3: plan.add(-1, "step") << (long)i << "value" << name("v_") << 0 << 0 << (long)rng.below(1000); break;
            case 4: case 5: if (j >= 0) {
                lastField = name("fld"); lastFieldT = false;
                plan.add(-1, "step") << (long)i << "field" << lastField << (long)rng.below(6) << j << (long)(8 * uniq);
            } break;
            case 6: if (!lastField.empty() && !lastFieldT) { lastFieldT = true; plan.add(-1, "step") << (long)i << "fieldtrait" << lastField; } break;
            case 7: case 8: {
                lastFn = name("fn"); lastFnT = false;
                if (j < 0 || rng.chance(1, 4)) {
                    // an overload set; the order of the overloads is part of the description
                    int o[10] = { 0, 6, 7, 8, 9, 10, 11, 12, 13, 14 };
                    int many = rng.chance(1, 4) ? 10 : 3;
                    for (int a = many - 1; a > 0; --a) std::swap(o[a], o[rng.below(a + 1)]);
                    int m = 1 + rng.below(many);
                    for (int a = 0; a < m; ++a) plan.add(-1, "step") << (long)i << "fn" << lastFn << (long)o[a] << 0;
                }
                else plan.add(-1, "step") << (long)i << "fn" << lastFn << (long)(1 + rng.below(5)) << j;
            } break;
            case 9:
                if (rng.chance(1, 2)) { if (!lastFn.empty() && !lastFnT) { lastFnT = true; plan.add(-1, "step") << (long)i << "fntrait" << lastFn; } }
                else if (!plumbing) { plumbing = true; plan.add(-1, "step") << (long)i << "plumbing"; }
                break;
            case 10:
                if (!alias && rng.chance(1, 2)) { alias = true; plan.add(-1, "step") << (long)i << "alias" << "own" + std::to_string(i); }
                else if (j >= 0) {
                    static const int routes[] = { 0, 1, 2, 3, 4, 8, 10, 11, 12, 13 };
                    plan.add(-1, "step") << (long)i << "lookup" << "" << (long)routes[rng.below(10)] << j;
                }
                break;
            }
        }
    }
}

} // namespace gen
