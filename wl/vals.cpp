// vals.cpp - see vals.h
#include "vals.h"

#include <string.h>

using namespace reflect;
using namespace ob;

namespace vals {

Shared* shared;

typedef std::vector<A> As;

void setup()
{
    Shared* s = new Shared();
    s->a = new A(900); s->p = new P(901);
    s->va = new As();
    for (int i = 0; i < 3; ++i) s->va->push_back(A(910 + i));
    s->v[0] = new Value(*(const A*) s->a);
    s->v[1] = new Value(Value(A(902)).toConst());
    s->v[2] = new Value(*(const P*) s->p);
    s->v[3] = new Value(Value(904L).toConst());
    s->v[4] = new Value(*(const As*) s->va);
    s->v[5] = new Value(Value(std::shared_ptr<A>(new A(906))).toConst());
    sim::Host host;
    shared = s;
}

void teardown()
{
    for (int i = 0; i < NShared; ++i) delete shared->v[i];
    delete shared->a; delete shared->p; delete shared->va; delete shared;
}

Machine::Machine(bool faults, bool quiet) : own(100), other(101), ownB(102), fn(nullptr), faults(faults), quiet(quiet)
{
    for (auto& v : s) v = new Value();
    for (auto& r : refTo) r = 0;
}

Machine::~Machine()
{
    delete fn;
    vec.clear();
    for (auto& v : s) delete v;
}

Value* Machine::operand(long k)
{
    if (k >= 100 && shared) return shared->v[(k - 100) % NShared];
    k = (unsigned long) k % NSlots;
    if (!s[k]->isVoid() && !s[k]->value()) return nullptr; // what a null pointer refers to
    if (!s[k]->isStored() && refTo[k]) {
        sim::Host host;
        const Live* l = refTo[k] > 0 ? find(s[k]->value()) : nullptr;
        if (!l || l->serial != refTo[k]) return nullptr;
    }
    return s[k];
}

static void leftBehind(const Value& v)
{
    if (v.isVoid() && !v.isStored()) return;
    sim::Host host;
    sim::violation("moved-from-holds", "a value that was moved from still holds something");
}

void Machine::put(int d, Value&& v)
{
    const void* p = v.value();
    bool stored = v.isStored();
    long serial = 0;
    if (!stored && p) { // what the value refers to must be tracked
        sim::Host host;
        const Live* l = find(p);
        serial = l ? l->serial : shared && p == shared->va ? 0 : -1;
    }
    *s[d] = std::move(v);
    sim::Host host;
    refTo[d] = serial;
}

namespace {

enum KnownType { TA, TB, TM, TP, TIn, TLong, TBool, TAs, TShared, TUnique, TOther };
KnownType known(const Type* t)
{
    const std::string& id = t->id();
    sim::Host host;
    static const char* const ids[] = { "ob::A", "ob::B", "ob::M", "ob::P", "ob::In", "long int", "bool", "std::vector<ob::A>", "std::shared_ptr<ob::A>", "std::unique_ptr<ob::A>" };
    for (int i = 0; i < TOther; ++i) if (id.size() == strlen(ids[i]) && !memcmp(id.data(), ids[i], id.size())) return (KnownType) i;
    return TOther;
}

} // namespace anonymous

std::string Machine::text(const Value& v)
{
    if (quiet) return "";
    std::string r;
    if (v.isVoid()) return "void";
    r = v.type()->id() + (v.isConst() ? " const" : "") + (v.refType() == RefType::LValue ? "&" : v.refType() == RefType::RValue ? "&&" : "") + (v.isStored() ? " stored" : "");
    const void* p = v.value();
    switch (known(v.type())) {
    case TA: case TB: case TM: case TIn: case TLong: r += " " + std::to_string(*(const long*) p); break;
    case TP: r += " " + std::to_string(((const P*) p)->n) + " " + std::to_string(((const P*) p)->in.v); break;
    case TBool: r += *(const bool*) p ? " true" : " false"; break;
    case TAs: for (auto& a : *(const As*) p) r += " " + std::to_string(a.v); break;
    case TShared: { auto& o = *(const std::shared_ptr<A>*) p; r += o ? " " + std::to_string(o->v) : " null"; } break;
    case TUnique: { auto& o = *(const std::unique_ptr<A>*) p; r += o ? " " + std::to_string(o->v) : " null"; } break;
    default: break;
    }
    return r;
}

namespace {

struct Functor
{
    A a;
    long operator() (const A& o) const { return a.v * 1000 + o.v; }
};

} // namespace anonymous

void Machine::go(const h::Op& op, std::string& out)
{
    const std::string& what = op.name;
    int d = (unsigned long) op.num(0) % NSlots;
    long k = op.num(1);

    if (what == "make") {
        long p = op.num(2);
        switch (k) {
        case 0: put(d, Value(A(p))); break;
        case 1: put(d, Value(B(p))); break;
        case 2: put(d, Value(M(p))); break;
        case 3: put(d, Value(P(p))); break;
        case 4: put(d, Value((long) p)); break;
        case 5: put(d, Value(std::shared_ptr<A>(std::make_shared<A>(p)))); break;
        case 6: put(d, Value(std::unique_ptr<A>(new A(p)))); break;
        case 7: { As as; as.reserve(2); as.emplace_back(p); as.emplace_back(p + 1); put(d, Value(std::move(as))); } break;
        case 8: { A a(p); put(d, Value(A(a))); } break;
        }
    }
    else if (what == "ref") {
        switch (k) {
        case 0: put(d, Value(own)); break;
        case 1: put(d, Value((const A&) other)); break;
        default: put(d, Value(ownB)); break;
        }
    }
    else if (what == "drop") put(d, Value());
    else if (what == "trait") { // values that traits hold
        Value* v = operand(k);
        if (!v) return;
        Type* t = new Type("local");
        try {
            t->addTrait("held", *v);
            t->addTrait("a", A(77));
            A a = t->getValue<A>("a");
            out += "a " + std::to_string(a.v);
            if (v->type() == type<A>()) { A b = t->getValue<A>("held"); out += " held " + std::to_string(b.v); }
            put(d, t->getValue<Value>("held"));
        }
        catch (...) { delete t; throw; }
        delete t;
    }
    else if (what == "fn") { // functions that hold objects
        switch (k % 4) {
        case 0: delete fn; fn = nullptr; fn = new Function("functor", Functor{ A(op.num(2)) }); break;
        case 1: if (fn) {
            if (op.num(2) % 3 == 0) { Function& self = *fn; *fn = std::move(self); }
            out += std::to_string(fn->call<long>(own)); } break;
        case 2: if (fn) {
            Function moved(std::move(*fn));
            delete fn; fn = nullptr;
            out += std::to_string(moved.call<long>(other));
            fn = new Function("again", Functor{ A(6) });
            *fn = std::move(moved); } break;
        case 3: if (fn) {
            Overloads o;
            Function mine("mine", Functor{ A(5) });
            o.add(std::move(mine));
            out += std::to_string(o.call<long>(own)); } break;
        }
    }
    else if (what == "vec") {
        Value* v = operand(op.num(2));
        if (!v) return;
        switch (k % 5) {
        case 0: if (vec.size() < 6) vec.push_back(*v); break;
        case 1: if (!vec.empty() && vec.back().isStored()) { put(d, Value(vec.back())); vec.pop_back(); } break;
        case 2: vec.clear(); break;
        case 3: if (!vec.empty()) vec.erase(vec.begin()); break;
        case 4: { std::vector<Value> copy(vec); copy.insert(copy.begin(), *v); out += std::to_string(copy.size()); } break;
        }
    }
    else {
        Value* a = operand(k);
        if (!a) return;
        Value* b = op.args.size() > 2 ? operand(op.num(2)) : s[0];
        long n = op.num(3);
        if (!b) return;
        const Type* t = a->type();
        if (what == "set") {
            switch (n % 7) {
            case 0: put(d, Value(*a)); break;
            case 1: put(d, Value(*(const Value*) a)); break;
            case 2: *s[d] = *a; put(d, Value(*s[d])); break;
            case 3: if (k < 100 && a != s[d]) put(d, std::move(*a)); break;
            case 4: if (k < 100) { // what was moved from stays, and holds nothing
                Value x(std::move(*a));
                leftBehind(*a);
                put(d, std::move(x)); } break;
            case 5: if (k < 100) { { Value x(std::move(*a)); } } break;
            case 6: if (k < 100) { // assigned to itself
                Value& x = *a;
                const void* p = a->value();
                bool stored = a->isStored();
                if (op.num(2) % 2) *a = x; else *a = std::move(x);
                if (a->type() != t || a->value() != p || a->isStored() != stored) {
                    sim::Host host;
                    sim::violation("lost-by-assignment", "a value that was assigned to itself isn't what it was");
                } } break;
            }
        }
        else if (what == "copy") put(d, a->copy());
        else if (what == "move") {
            if (k < 100) {
                Value x = a->move();
                leftBehind(*a);
                put(d, std::move(x));
            }
        }
        else if (what == "const") put(d, a->toConst());
        else if (what == "rvalue") put(d, a->rvalue());
        else if (what == "convert") put(d, a->convert<Value>(type<A>()));
        else if (what == "assign") a->assign(*b);
        else if (what == "field") {
            static const char* const names[] = { "v", "n", "in", "c", "w" };
            put(d, a->field(names[(unsigned long) n % 5]));
        }
        else if (what == "get") {
            if (t == type<A>() || t == type<B>()) { const A& x = a->get<A>(); out += std::to_string(x.v); if (!a->isConst() && n % 2) a->as<A>().v = n; }
            else a->get<A>();
        }
        else if (what == "construct") {
            switch (n % 4) {
            case 0: put(d, type<A>()->construct(*a)); break;
            case 1: put(d, t->construct(*a)); break;
            case 2: put(d, type<A>()->construct()); break;
            case 3: put(d, type<B>()->construct(a->rvalue())); break;
            }
        }
        else if (what == "call") { // by name, in a scope or a type
            int fn = (unsigned long) n % FOv;
            std::string name = fnNames[fn];
            long flags = op.num(4);
            Value x = flags & 1 ? a->rvalue() : *a, y = flags & 2 ? b->rvalue() : *b;
            Value* x2 = &x;
            bool viaType = flags & 4;
            if ((flags & 24) == 8) { out += std::to_string(viaType ? type<A>()->call<long>(name, *x2) : scope()->call<long>("ob::fn::" + name, *x2)); return; }
            Value r;
            int args = fn == FTwo || fn == FSwap ? 2 : fn == FMix ? 3 : fn == FMake || fn == FNothing ? 0 : 1;
            if (fn == FNum || fn == FMakeM) { r = viaType ? type<A>()->call<Value>(name, (long) flags) : scope("ob::fn")->call<Value>(name, (long) flags); }
            else if (args == 0) r = viaType ? type<A>()->call<Value>(name) : scope("ob::fn")->call<Value>(name);
            else if (args == 1 && (flags & 24) == 16 && k < 100) r = viaType ? type<A>()->call<Value>(name, std::move(x)) : scope("ob::fn")->call<Value>(name, std::move(x));
            else if (args == 1) r = viaType ? type<A>()->call<Value>(name, x) : scope("ob::fn")->call<Value>(name, x);
            else if (args == 2) r = viaType ? type<A>()->call<Value>(name, x, y) : scope("ob::fn")->call<Value>(name, x, y);
            else r = viaType ? type<A>()->call<Value>(name, x, (long) 3, A(8)) : scope("ob::fn")->call<Value>(name, x, (long) 3, A(8));
            // a reference to a temporary isn't kept
            if (!r.isVoid() && !r.isStored() && !a->isStored() && r.value() != a->value() && r.value() != b->value()) return;
            if ((fn == FSelf || fn == FCself) && (flags & 24) == 16) return;
            put(d, std::move(r));
        }
        else if (what == "direct") { // with objects as arguments and results
            Value x = op.num(4) & 1 ? a->rvalue() : *a;
            switch ((unsigned long) n % 9) {
            case 0: { A r = type<A>()->call<A>("pass", x); out += std::to_string(r.v); } break;
            case 1: { A r = type<A>()->call<A>("cself", own); out += std::to_string(r.v); } break;
            case 2: { A r = type<A>()->call<A>("cself", A(31)); out += std::to_string(r.v); } break;
            case 3: { A r = scope("ob::fn")->call<A>("mix", x, 4L, A(33)); out += std::to_string(r.v); } break;
            case 4: out += std::to_string(type<A>()->call<long>("aval", other)); break;
            case 5: out += std::to_string(type<A>()->call<long>("arval", A(35))); break;
            case 6: { M m = scope("ob::fn")->call<M>("makem", 36L); out += std::to_string(m.v); } break;
            case 7: { const A& r = type<A>()->call<const A&>("cself", x); out += std::to_string(r.v); } break;
            case 8: { A r(1); r = type<A>()->call<A>("pass", A(37)); out += std::to_string(r.v); } break;
            }
        }
        else if (what == "method") {
            switch ((unsigned long) n % 8) {
            case 0: out += std::to_string(a->call<long>("get")); break;
            case 1: a->call<void>("add", 7L); break;
            case 2: put(d, a->call<Value>("plus", *b)); break;
            case 3: { Value r = a->call<Value>("methself"); put(d, std::move(r)); } break;
            case 4: put(d, *a + 3L); break;
            case 5: { Value r = (*a += *b); put(d, std::move(r)); } break;
            case 6: out += *a == *b ? "equal" : "different"; break;
            case 7: put(d, (*a)(2L, 4L)); break;
            }
        }
        else if (what == "pointer") {
            switch ((unsigned long) n % 5) {
            case 0: { Value r = **a; put(d, k >= 100 ? r.toConst() : r); } break;
            case 1: out += (bool) *a ? "set" : "null"; break;
            case 2: a->call<void>("reset"); break;
            case 3: put(d, a->copy()); break;
            case 4: { Value r = a->call<Value>("get"); Value o = *r; put(d, k >= 100 ? o.toConst() : o); } break;
            }
        }
        else if (what == "list") {
            switch ((unsigned long) n % 7) {
            case 0: a->call<void>("push_back", *b); break;
            case 1: { Value r = (*a)[(size_t) 0]; put(d, std::move(r)); } break;
            case 2: { Value r = a->call<Value>("at", (size_t) 1); put(d, std::move(r)); } break;
            case 3: a->call<void>("clear"); break;
            case 4: a->call<void>("resize", (size_t) 3); break;
            case 5: out += std::to_string(a->call<size_t>("size")); break;
            case 6: a->call<void>("push_back", b->rvalue()); break;
            }
        }
    }
    if (!quiet) { Value* v = operand(d); out += " = " + (v ? text(*v) : std::string("gone")); }
}

std::string Machine::run(const h::Op& op)
{
    std::string out, err;
    sim::arm(faults);
    try { go(op, out); }
    catch (const std::bad_alloc&) { sim::arm(false); err = "out of memory"; }
    catch (const Failure&) { sim::arm(false); err = "planned failure"; }
    catch (const std::exception& e) { sim::arm(false); err = e.what(); }
    sim::arm(false);
    if (!err.empty()) { PROBE("operation failed"); } else { PROBE("operation succeeded"); }
    sim::Host host;
    return std::string(out.data(), out.size()) + (err.empty() ? "" : " failed: " + std::string(err.data(), err.size()));
}

void Machine::owned(std::vector< std::pair<const void*, int> >& out)
{
    std::vector<const void*> seen;
    auto add = [&] (const void* p, int kind) {
        if (!p) return;
        for (const void* q : seen) if (q == p) return;
        seen.push_back(p);
        out.emplace_back(p, kind);
        if (kind == KP) out.emplace_back(&((const P*) p)->in, (int) KIn);
    };
    out.emplace_back(&own, (int) KA); out.emplace_back(&other, (int) KA); out.emplace_back(&ownB, (int) KB);
    std::vector<const Value*> all(s, s + NSlots);
    for (auto& v : vec) all.push_back(&v);
    for (const Value* v : all) {
        if (!v->isStored()) continue;
        const void* p = v->value();
        switch (known(v->type())) {
        case TA: add(p, KA); break;
        case TB: add(p, KB); break;
        case TM: add(p, KM); break;
        case TP: add(p, KP); break;
        case TIn: add(p, KIn); break;
        case TAs: for (auto& a : *(const As*) p) add(&a, KA); break;
        case TShared: add(((const std::shared_ptr<A>*) p)->get(), KA); break;
        case TUnique: add(((const std::unique_ptr<A>*) p)->get(), KA); break;
        default: break;
        }
    }
    if (fn) { // the functor holds one
        sim::Host host;
        out.emplace_back(nullptr, (int) KA);
    }
}

void warm()
{
    registerFunctions();
    try { throw Failure(); } catch (const Failure&) {} // the runtime's tables
    const Type* all[] = { type<A>(), type<B>(), type<M>(), type<P>(), type<In>(), type<long>(), type<bool>(), type<As>(), type< std::shared_ptr<A> >(),
        type< std::unique_ptr<A> >(), type<A*>(), type<size_t>(), type<Value>() };
    (void) all;
    Type* t = new Type("local"); t->addTrait("x"); delete t;
}

void gen(sim::Rng& rng, h::Plan& plan, int thread, int n, bool withShared)
{
    auto slot = [&] () -> long { return withShared && rng.chance(1, 3) ? 100 + rng.below(NShared) : rng.below(NSlots); };
    int filled = 2 + rng.below(3);
    for (int i = 0; i < filled; ++i) plan.add(thread, "make") << (long) i << (long)(rng.chance(1, 2) ? 0 : rng.below(9)) << (long)(1 + rng.below(400));
    auto own = [&] () -> long { return rng.chance(3, 4) ? rng.below(filled) : rng.below(NSlots); };
    auto any = [&] () -> long { long k = slot(); return k >= 100 ? k : own(); };
    while (n-- > 0) {
        long d = rng.below(NSlots);
        switch (rng.below(24)) {
        case 0: case 1: plan.add(thread, "make") << d << (long) rng.below(9) << (long)(1 + rng.below(400)); break;
        case 2: plan.add(thread, "ref") << d << (long) rng.below(3); break;
        case 3: plan.add(thread, "drop") << d << 0; break;
        case 4: plan.add(thread, "trait") << d << any(); break;
        case 5: plan.add(thread, "fn") << d << (long) rng.below(4) << (long) rng.below(100); break;
        case 6: plan.add(thread, "vec") << d << (long) rng.below(5) << own(); break;
        case 7: case 8: plan.add(thread, "set") << d << any() << (long) rng.below(2) << (long) rng.below(7); break;
        case 9: case 10: plan.add(thread, "copy") << d << any() << 0 << 0; break;
        case 11: plan.add(thread, "move") << d << own() << 0 << 0; break;
        case 12: plan.add(thread, rng.chance(1, 2) ? "const" : "rvalue") << d << any() << 0 << 0; break;
        case 13: plan.add(thread, "convert") << d << (withShared && rng.chance(1, 3) ? 102 : any()) << 0 << 0; break;
        case 14: plan.add(thread, "assign") << d << own() << any() << 0; break;
        case 15: plan.add(thread, "field") << d << any() << 0 << (long) rng.below(5); break;
        case 16: plan.add(thread, "get") << d << any() << 0 << (long) rng.below(9); break;
        case 17: plan.add(thread, "construct") << d << any() << 0 << (long) rng.below(4); break;
        case 18: case 19: plan.add(thread, "call") << d << any() << any() << (long) rng.below(FOv) << (long) rng.below(32); break;
        case 20: plan.add(thread, "direct") << d << any() << 0 << (long) rng.below(9) << (long) rng.below(2); break;
        case 21: plan.add(thread, "method") << d << any() << any() << (long) rng.below(8); break;
        case 22: {
            long k = rng.below(filled);
            if (rng.chance(1, 2)) plan.add(thread, "make") << k << (long)(5 + rng.below(2)) << (long) rng.below(100);
            plan.add(thread, "pointer") << d << (withShared && rng.chance(1, 3) ? 105 : k) << 0 << (long) rng.below(5);
            break; }
        case 23: {
            long k = rng.below(filled);
            if (rng.chance(1, 2)) plan.add(thread, "make") << k << 7 << (long) rng.below(100);
            plan.add(thread, "list") << d << (withShared && rng.chance(1, 3) ? 104 : k) << any() << (long) rng.below(7);
            break; }
        }
    }
}

} // namespace vals
