// wl_calls.cpp - a reflected call happens exactly as written or not at all (C15).
#include "ob.h"

#include <algorithm>

namespace c15 {
struct First { long a; First() : a(1) {} };
struct Second { long b; Second() : b(2) {} long get() const { return b; } };
struct Both : First, Second {};
} // namespace c15
reflectType(c15::Second) { reflectPlumbing(); reflectField(b); reflectFn(get); }
reflectType(c15::Both) { reflectParent(c15::Second); reflectPlumbing(); }

using namespace reflect;
using namespace ob;

namespace {

// ------------------------------------------------------------------ tables ---
enum { TA, TB, TM, TP, TLong, TD, TValue, TVoid };
// Whether an object of the one type is one of the other as well.
bool isOne(int type, int other) { return type == other || (other == TA && (type == TB || type == TD)) || (other == TB && type == TD); }
enum { ByVal, ByRef, ByCref, ByRval };
enum Cat { L, CL, R, CR };

struct Param { int type, by; };
struct Target { int n; Param p[3]; int ret, retBy; };

const Target targets[] = {
    /* aval */    { 1, { {TA, ByVal} }, TLong, ByVal },
    /* aref */    { 1, { {TA, ByRef} }, TVoid, ByVal },
    /* acref */   { 1, { {TA, ByCref} }, TLong, ByVal },
    /* arval */   { 1, { {TA, ByRval} }, TLong, ByVal },
    /* mref */    { 1, { {TM, ByRef} }, TLong, ByVal },
    /* mrval */   { 1, { {TM, ByRval} }, TLong, ByVal },
    /* bcref */   { 1, { {TB, ByCref} }, TLong, ByVal },
    /* two */     { 2, { {TA, ByVal}, {TA, ByCref} }, TLong, ByVal },
    /* swap */    { 2, { {TA, ByRef}, {TA, ByRef} }, TVoid, ByVal },
    /* mix */     { 3, { {TA, ByCref}, {TLong, ByVal}, {TA, ByRval} }, TA, ByVal },
    /* self */    { 1, { {TA, ByRef} }, TA, ByRef },
    /* cself */   { 1, { {TA, ByCref} }, TA, ByCref },
    /* make */    { 0, { }, TA, ByVal },
    /* makem */   { 1, { {TLong, ByVal} }, TM, ByVal },
    /* value */   { 1, { {TValue, ByVal} }, TLong, ByVal },
    /* num */     { 1, { {TLong, ByVal} }, TLong, ByVal },
    /* nothing */ { 0, { }, TVoid, ByVal },
    /* pass */    { 1, { {TA, ByVal} }, TA, ByVal },
    /* passvalue */ { 1, { {TValue, ByVal} }, TValue, ByVal },
    /* ov */      { -1, { }, TLong, ByVal },
};
const Target overloads[4] = {
    { 1, { {TLong, ByVal} }, TLong, ByVal },
    { 1, { {TA, ByCref} }, TLong, ByVal },
    { 2, { {TA, ByRef}, {TLong, ByVal} }, TLong, ByVal },
    { 1, { {TM, ByCref} }, TLong, ByVal },
};

enum Want { WVoid, WValue, WA, WAref, WAcref, WLong, NWants };

bool paramFits(const Param& p, int type, int cat, bool* conv = nullptr)
{
    if (p.type == TValue) return true;
    if (isOne(type, p.type)) {
        switch (p.by) {
        case ByVal: return p.type != TM;
        case ByRef: return cat == L;
        case ByCref: return true;
        default: return cat == R;
        }
    }
    if (type == TP && p.type == TA) {
        if (conv) *conv = true;
        return p.by == ByVal || p.by == ByRval;
    }
    return false;
}

bool retFits(const Target& t, int want)
{
    switch (want) {
    case WVoid: case WValue: return true;
    case WA: return t.ret == TA;
    case WAref: return t.ret == TA && t.retBy == ByRef;
    case WAcref: return t.ret == TA && t.retBy != ByVal;
    default: return t.ret == TLong;
    }
}

// ---------------------------------------------------------------- arguments --
// How an argument is written (at compile time) and, for values, what they hold.
enum Form { FValueL, FValueC, FValueR, FAl, FAc, FAr, FBl, FMr, FMl, FLong, FPc, NForms };
enum Holds { HStored, HLref, HLcref, HConst, HRvalue, HStoredB, HLrefB, HLcrefB, HStoredP, HRvalueP, HStoredM, HRvalueM, HLrefM, HStoredLong, HLcrefRvalue, HConstRvalue, HStoredD, HLrefD, HLcrefD, NHolds };

struct Supply
{
    int form, holds; long payload;
    int type, cat; bool given; // given: the caller gave the object away
    A* a; B* b; D* d; M* m; P* p; long n;
    Value* v;
    void* object; bool stored; RefType refType; bool isConst;
    Supply() : a(nullptr), b(nullptr), d(nullptr), m(nullptr), p(nullptr), v(nullptr) {}
    ~Supply() { delete v; delete a; delete b; delete d; delete m; delete p; }
    void make(int f, int h, long pl)
    {
        form = f; holds = h; payload = pl; given = false; object = nullptr; n = pl;
        switch (form) {
        case FAl: case FAc: case FAr: a = new A(pl); type = TA; cat = form == FAl ? L : form == FAc ? CL : R; object = a; break;
        case FBl: b = new B(pl); type = TB; cat = L; object = b; break;
        case FMr: case FMl: m = new M(pl); type = TM; cat = form == FMl ? L : R; object = m; break;
        case FPc: p = new P(pl); type = TP; cat = CL; object = p; break;
        case FLong: type = TLong; cat = R; object = nullptr; break;
        default:
            switch (holds) {
            case HStored: case HConst: case HConstRvalue: case HRvalue: v = new Value(A(pl)); type = TA; break;
            case HLref: a = new A(pl); v = new Value(*a); type = TA; break;
            case HLcref: case HLcrefRvalue: a = new A(pl); v = new Value(*(const A*) a); type = TA; break;
            case HStoredB: v = new Value(B(pl)); type = TB; break;
            case HLrefB: b = new B(pl); v = new Value(*b); type = TB; break;
            case HLcrefB: b = new B(pl); v = new Value(*(const B*) b); type = TB; break;
            case HStoredD: v = new Value(D(pl)); type = TD; break;
            case HLrefD: d = new D(pl); v = new Value(*d); type = TD; break;
            case HLcrefD: d = new D(pl); v = new Value(*(const D*) d); type = TD; break;
            case HStoredP: case HRvalueP: v = new Value(P(pl)); type = TP; break;
            case HStoredM: case HRvalueM: v = new Value(M(pl)); type = TM; break;
            case HLrefM: m = new M(pl); v = new Value(*m); type = TM; break;
            default: v = new Value((long) pl); type = TLong; break;
            }
            cat = L;
            if (holds == HLcref || holds == HLcrefB || holds == HLcrefD) cat = CL;
            if (holds == HConst || holds == HConstRvalue) { *v = v->toConst(); cat = CR; }
            // an rvalue, but not one that may be moved from
            if (holds == HConstRvalue || holds == HLcrefRvalue) { *v = v->rvalue(); cat = CR; }
            if (holds == HRvalue || holds == HRvalueP || holds == HRvalueM) { *v = v->rvalue(); cat = R; }
            object = v->value();
            stored = v->isStored(); refType = v->refType(); isConst = v->isConst();
        }
        given = cat == R || (form == FValueR);
    }
    bool value() const { return form <= FValueR; }
};

const char* formName(int f)
{
    static const char* n[] = { "Value&", "const Value&", "Value&&", "A&", "const A&", "A&&", "B&", "M&&", "M&", "long", "const P&" };
    return f >= 0 && f < NForms ? n[f] : "?";
}
const char* holdsName(int h)
{
    static const char* n[] = { "A", "ref to A", "ref to const A", "A as const", "A as rvalue", "B", "ref to B", "ref to const B",
        "P", "P as rvalue", "M", "M as rvalue", "ref to M", "long", "ref to const A as rvalue", "const A as rvalue", "D", "ref to D", "ref to const D" };
    return n[h];
}

// -------------------------------------------------------------------- calls --
struct Site { int route, fn; std::string name, scoped; const Type* type; Scope* fns; Scope* global; };

template<typename Ret, typename... Args>
Ret viaValue(std::true_type, const Site& s, const Value& v, Args&&... args) { return v.call<Ret>(s.name, std::forward<Args>(args)...); }
template<typename Ret, typename... Args>
Ret viaValue(std::false_type, const Site& s, Args&&... args) { return s.type->call<Ret>(s.name, std::forward<Args>(args)...); }
template<typename Ret>
Ret viaValue(const Site& s) { return s.type->call<Ret>(s.name); }
template<typename Ret, typename First, typename... Args>
Ret viaValue(const Site& s, First&& f, Args&&... args)
{
    return viaValue<Ret>(typename std::is_same<typename std::decay<First>::type, Value>::type(), s, std::forward<First>(f), std::forward<Args>(args)...);
}

template<typename Ret, typename... Args>
Ret doCall(const Site& s, Args&&... args)
{
    switch (s.route) {
    case 0: return s.type->call<Ret>(s.name, std::forward<Args>(args)...);
    case 1: return s.fns->call<Ret>(s.name, std::forward<Args>(args)...);
    case 2: return s.global->call<Ret>(s.scoped, std::forward<Args>(args)...);
    case 3: return s.type->function(s.name).call<Ret>(std::forward<Args>(args)...);
    case 4: return s.type->function(s.name)[0].call<Ret>(std::forward<Args>(args)...);
    default: return viaValue<Ret>(s, std::forward<Args>(args)...);
    }
}

struct Outcome
{
    bool ok, memory, planned; std::string err;
    long payload; const void* addr; bool isVoid, stored; int type;
    Value v;
};

void attend(Outcome& o, const A& a) { o.payload = a.v; o.addr = &a; }

template<typename Ret> struct Get
{
    template<typename... Args> static void call(Outcome& o, const Site& s, Args&&... args) { Ret r = doCall<Ret>(s, std::forward<Args>(args)...); attend(o, r); }
};
template<> struct Get<A>
{
    template<typename... Args> static void call(Outcome& o, const Site& s, Args&&... args) { A r = doCall<A>(s, std::forward<Args>(args)...); attend(o, r); }
};
template<> struct Get<long>
{
    template<typename... Args> static void call(Outcome& o, const Site& s, Args&&... args) { o.payload = doCall<long>(s, std::forward<Args>(args)...); }
};
template<> struct Get<void>
{
    template<typename... Args> static void call(Outcome&, const Site& s, Args&&... args) { doCall<void>(s, std::forward<Args>(args)...); }
};
template<> struct Get<Value>
{
    template<typename... Args> static void call(Outcome& o, const Site& s, Args&&... args) { o.v = doCall<Value>(s, std::forward<Args>(args)...); }
};

template<typename... Args>
void wanted(int want, bool narrow, Outcome& o, const Site& s, Args&&... args)
{
    switch (want) {
    case WVoid: Get<void>::call(o, s, std::forward<Args>(args)...); break;
    case WA: Get<A>::call(o, s, std::forward<Args>(args)...); break;
    case WAref: Get<A&>::call(o, s, std::forward<Args>(args)...); break;
    case WAcref: Get<const A&>::call(o, s, std::forward<Args>(args)...); break;
    case WLong: Get<long>::call(o, s, std::forward<Args>(args)...); break;
    default: Get<Value>::call(o, s, std::forward<Args>(args)...); break;
    }
}

template<typename... Args>
void wantedFew(int want, Outcome& o, const Site& s, Args&&... args)
{
    switch (want) {
    case WVoid: Get<void>::call(o, s, std::forward<Args>(args)...); break;
    case WLong: Get<long>::call(o, s, std::forward<Args>(args)...); break;
    default: Get<Value>::call(o, s, std::forward<Args>(args)...); break;
    }
}

void call1(int want, Outcome& o, const Site& s, Supply& x)
{
    switch (x.form) {
    case FValueL: wanted(want, false, o, s, *x.v); break;
    case FValueC: wanted(want, false, o, s, *(const Value*) x.v); break;
    case FValueR: wanted(want, false, o, s, std::move(*x.v)); break;
    case FAl: wanted(want, false, o, s, *x.a); break;
    case FAc: wanted(want, false, o, s, *(const A*) x.a); break;
    case FAr: wanted(want, false, o, s, std::move(*x.a)); break;
    case FBl: wantedFew(want, o, s, *x.b); break;
    case FMr: wantedFew(want, o, s, std::move(*x.m)); break;
    case FMl: wantedFew(want, o, s, *x.m); break;
    case FPc: wantedFew(want, o, s, *(const P*) x.p); break;
    default: wantedFew(want, o, s, (long) x.n); break;
    }
}

// forms of the arguments of calls with more than one: Value& Value&& A& A&& long
template<typename... Before>
void callLast(int want, Outcome& o, const Site& s, Supply& x, Before&&... before)
{
    switch (x.form) {
    case FValueR: wantedFew(want, o, s, std::forward<Before>(before)..., std::move(*x.v)); break;
    case FAl: wantedFew(want, o, s, std::forward<Before>(before)..., *x.a); break;
    case FAr: wantedFew(want, o, s, std::forward<Before>(before)..., std::move(*x.a)); break;
    case FLong: wantedFew(want, o, s, std::forward<Before>(before)..., (long) x.n); break;
    default: wantedFew(want, o, s, std::forward<Before>(before)..., *x.v); break;
    }
}
void call2(int want, Outcome& o, const Site& s, Supply& x, Supply& y)
{
    switch (x.form) {
    case FValueR: callLast(want, o, s, y, std::move(*x.v)); break;
    case FAl: callLast(want, o, s, y, *x.a); break;
    case FAr: callLast(want, o, s, y, std::move(*x.a)); break;
    default: callLast(want, o, s, y, *x.v); break;
    }
}
void call3(int want, Outcome& o, const Site& s, Supply& x, Supply& y, Supply& z)
{
    if (x.form == FAl) { if (z.form == FAr) wantedFew(want, o, s, *x.a, (long) y.n, std::move(*z.a)); else wantedFew(want, o, s, *x.a, (long) y.n, *z.v); }
    else { if (z.form == FAr) wantedFew(want, o, s, *x.v, (long) y.n, std::move(*z.a)); else wantedFew(want, o, s, *x.v, *y.v, *z.v); }
}

int normalForm(int n, int k, int form, int holds)
{
    if (n == 1) return form >= 0 && form < NForms ? form : 0;
    if (n == 2) return form == FValueR || form == FAl || form == FAr || (k && form == FLong) ? form : FValueL;
    // 3: see call3
    return form;
}

std::string callText(const Site& s, int want, std::vector<Supply>& args)
{
    static const char* wants[] = { "void", "Value", "A", "A&", "const A&", "long" };
    static const char* routes[] = { "Type::call", "Scope::call", "global Scope::call", "Overloads::call", "Function::call", "Value::call" };
    std::string t = std::string(routes[s.route]) + "<" + wants[want] + "> of " + s.name + "(";
    for (size_t i = 0; i < args.size(); ++i) {
        t += i ? ", " : "";
        t += formName(args[i].form);
        if (args[i].value()) t += std::string(" holding ") + holdsName(args[i].holds);
        t += " " + std::to_string(args[i].payload);
    }
    return t + ")";
}

// What the call of a target must look like, given that it happened.
struct Expect { const Target* t; int fn; bool fits, late; bool conv[3]; };

Expect expectation(const Site& s, int want, std::vector<Supply>& args)
{
    Expect e = {};
    if (s.fn == FOv) {
        for (int k = 0; k < 4; ++k) {
            const Target& t = overloads[k];
            if (t.n != (int) args.size()) continue;
            if (s.route == 4 && k) break;
            bool ok = true;
            for (int i = 0; i < t.n; ++i) ok = ok && paramFits(t.p[i], args[i].type, args[i].cat, &e.conv[i]);
            if (ok) { e.t = &t; e.fn = FOv0 + k; e.fits = retFits(t, want); break; }
        }
        if (s.route == 5 && !args.empty() && args[0].value() && !isOne(args[0].type, TA)) e.fits = false;
        return e;
    }
    e.t = &targets[s.fn]; e.fn = s.fn;
    e.fits = e.t->n == (int) args.size();
    for (int i = 0; i < e.t->n && e.fits; ++i) e.fits = paramFits(e.t->p[i], args[i].type, args[i].cat, &e.conv[i]);
    if (e.fits && s.fn == FPassValue) {
        // whether its result is what's wanted isn't known before
        int type = args[0].type;
        if (want == WA && !isOne(type, TA) && type != TP) e.late = true;
        if (want == WLong && type != TLong) e.late = true;
    }
    else e.fits = e.fits && retFits(*e.t, want);
    if (s.route == 5 && !args.empty() && args[0].value() && !isOne(args[0].type, TA)) e.fits = false;
    return e;
}

long now(const void* object) { return *(const long*) object; }

// One attempt. Returns whether it succeeded.
bool attempt(const Site& s, int want, std::vector<Supply>& args, bool faults)
{
    Outcome o = {};
    size_t before; uint64_t faultsBefore;
    std::string text;
    { sim::Host host; before = world->mine().size(); faultsBefore = faultCount(); text = callText(s, want, args); }
    sim::arm(faults);
    try {
        switch (args.size()) {
        case 0: wantedFew(want == WA ? (int) WValue : want, o, s); break;
        case 1: call1(want, o, s, args[0]); break;
        case 2: call2(want, o, s, args[0], args[1]); break;
        default: call3(want, o, s, args[0], args[1], args[2]); break;
        }
        o.ok = true;
    }
    catch (const std::bad_alloc&) { sim::arm(false); o.memory = true; o.err = "out of memory"; }
    catch (const Failure&) { sim::arm(false); o.planned = true; o.err = "planned"; }
    catch (const std::exception& e) { sim::arm(false); o.err = e.what(); }
    sim::arm(false);

    if (o.ok && want == WValue) {
        o.isVoid = o.v.isVoid(); o.stored = o.v.isStored();
        o.type = o.v.isVoid() ? (int) TVoid : o.v.type() == type<A>() ? (int) TA : o.v.type() == type<long>() ? (int) TLong : o.v.type() == type<M>() ? (int) TM : -1;
    }
    sim::Host host;
    std::vector<Call>& calls = world->mine();
    size_t happened = calls.size() - before;
    const Expect e = expectation(s, want, args);
    bool faulted = faultCount() != faultsBefore;
    const char* t = text.c_str();

    if (happened > 1) sim::violation("invoked-twice", "%s invoked %zu functions", t, happened);
    const Call* c = happened ? &calls[before] : nullptr;
    if (c && c->faults != faultsBefore)
        sim::violation("invoked-after-failure", "%s invoked %s although handing over the arguments had failed", t, fnNames[c->fn]);
    if (o.ok) {
        if (!c) sim::violation("not-invoked", "%s reported success but invoked nothing", t);
        if (!e.fits) sim::violation("misfit-accepted", "%s succeeded but its arguments or result don't fit", t);
        PROBE("call succeeded");
    }
    else {
        if (!faulted && e.fits && !e.late) sim::violation("rejected", "%s failed: %s", t, o.err.c_str());
        if (!faulted && (o.memory || o.planned)) sim::violation("rejected", "%s failed without cause: %s", t, o.err.c_str());
        if (c && !faulted && !e.late) sim::violation("invoked-and-failed", "%s invoked %s and then failed: %s", t, fnNames[c->fn], o.err.c_str());
        if (c && !e.fits) sim::violation("misfit-accepted", "%s invoked %s although its arguments or result don't fit", t, fnNames[c->fn]);
        if (faulted) { if (c) { PROBE("call failed after invocation"); } else { PROBE("call failed before invocation"); } }
        else PROBE("call rejected");
    }

    if (c) { // what arrived
        if (c->fn != e.fn) sim::violation("wrong-target", "%s invoked %s", t, fnNames[c->fn]);
        for (int i = 0; i < e.t->n && i < c->n; ++i) {
            const Supply& x = args[i];
            const Param& p = e.t->p[i];
            if (p.type == TValue) {
                if (x.type == TA && c->in[i] != x.payload && s.fn == FValue) sim::violation("wrong-argument", "%s: argument %d arrived as %ld", t, i, c->in[i]);
                if (x.value() && x.stored && c->addr[i] != x.object) sim::violation("wrong-argument", "%s: argument %d isn't the object that was supplied", t, i);
                continue;
            }
            if (c->in[i] != x.payload) sim::violation("wrong-argument", "%s: argument %d arrived as %ld", t, i, c->in[i]);
            if ((p.by == ByRef || p.by == ByCref) && x.object && (x.value() || x.cat != R) && c->addr[i] != x.object)
                sim::violation("wrong-argument", "%s: argument %d isn't the object that was supplied", t, i);
            if (p.by == ByVal && x.object && c->addr[i] == x.object)
                sim::violation("wrong-argument", "%s: argument %d should be a copy but is the object that was supplied", t, i);
        }
    }

    // the caller's objects
    for (size_t i = 0; i < args.size(); ++i) {
        Supply& x = args[i];
        if (x.value() && x.form != FValueR) {
            if (x.v->value() != x.object || x.v->isStored() != x.stored || x.v->refType() != x.refType || x.v->isConst() != x.isConst)
                sim::violation("value-changed", "%s changed what the value passed as argument %zu refers to", t, i);
        }
        if (!x.object || x.given) continue;
        long expect = x.payload;
        if (c && e.t) {
            if (c->fn == FAref || c->fn == FMref) expect += 1000;
            if (c->fn == FSwap) expect = args[1 - i].payload;
            if (c->fn == FOv2 && !i) expect += args[1].payload;
        }
        if (args.size() == 2 && c && c->fn == FSwap && args[0].object == args[1].object) expect = x.payload;
        if (now(x.object) != expect)
            sim::violation("object-changed", "after %s (%s) argument %zu is %ld instead of %ld", t, o.ok ? "which succeeded" : o.err.c_str(), i, now(x.object), expect);
    }

    // the result
    if (o.ok) {
        const bool byRef = e.t->retBy != ByVal;
        switch (want) {
        case WVoid: break;
        case WValue: {
            if (s.fn == FPassValue) {
                if (args[0].value() && args[0].stored && o.v.value() != args[0].object) sim::violation("wrong-result", "%s returned another object", t);
                break;
            }
            if (o.isVoid != (e.t->ret == TVoid) || (!o.isVoid && o.type != e.t->ret)) sim::violation("wrong-result", "%s returned a value of another type", t);
            if (o.isVoid) break;
            if (byRef && (o.v.value() != c->retAddr || o.stored)) sim::violation("wrong-result", "%s doesn't refer to what the function returned", t);
            if (!byRef && !o.stored) sim::violation("wrong-result", "%s returned a value that doesn't hold the result", t);
            if (now(o.v.value()) != c->ret) sim::violation("wrong-result", "%s returned %ld instead of %ld", t, now(o.v.value()), c->ret);
            if (e.t->retBy == ByCref && !o.v.isConst()) sim::violation("wrong-result", "%s lost the constness of its result", t);
            break;
        }
        case WLong: if (s.fn != FPassValue && o.payload != c->ret) sim::violation("wrong-result", "%s returned %ld instead of %ld", t, o.payload, c->ret); break;
        case WAref: case WAcref:
            if (o.addr != c->retAddr) sim::violation("wrong-result", "%s doesn't refer to what the function returned", t);
            // fall through
        default:
            if (o.payload != (s.fn == FPassValue ? args[0].payload : c->ret)) sim::violation("wrong-result", "%s returned %ld instead of %ld", t, o.payload, s.fn == FPassValue ? args[0].payload : c->ret);
        }
    }
    sim::stateMix(s.fn * 1000003 + want * 7919 + s.route * 31 + o.ok * 2 + happened);
    return o.ok;
}

void callOp(const h::Op& op, const h::Plan& plan)
{
    Site s;
    {
        sim::Host host;
        s.route = op.num(0); s.fn = op.num(1);
        if (s.route < 0 || s.route > 5 || s.fn < 0 || s.fn >= NFns) return;
    }
    s.name = fnNames[s.fn];
    s.scoped = "ob::fn::" + s.name;
    s.type = type<A>();
    s.fns = scope("ob::fn");
    s.global = scope();
    int want = op.num(2) % NWants, n = op.num(3);
    if (n < 0 || n > 3 || (s.route == 4 && s.fn == FOv)) return;
    if (n != 1 && (want == WA || want == WAref || want == WAcref)) want = WValue;
    // the result would refer to something that's gone
    if (s.fn == FPassValue && (want == WAref || want == WAcref)) want = WValue;
    if ((s.fn == FSelf || s.fn == FCself) && n == 1 && want != WVoid && ((long) op.num(4) == FAr || (long) op.num(4) == FValueR)) want = WA;
    bool ok = false;
    for (int round = 0; round < 2 && !ok; ++round) {
        std::vector<Supply> args(n);
        for (int i = 0; i < n; ++i) {
            int form = op.num(4 + 3 * i), holds = ((unsigned long) op.num(5 + 3 * i)) % NHolds; long payload = op.num(6 + 3 * i);
            form = normalForm(n, i, form, holds);
            if (n == 3) { // see call3
                bool direct = (long) op.num(4) == FAl || (long) op.num(10) == FAr;
                if (i == 0) form = form == FAl ? FAl : FValueL;
                else if (i == 1) form = direct ? FLong : FValueL;
                else form = form == FAr ? FAr : FValueL;
                if (i == 1 && form == FValueL && holds != HStoredLong && holds % 2) holds = HStoredLong;
            }
            args[i].make(form, holds, payload);
            if (n == 1 && form >= FBl && (want == WA || want == WAref || want == WAcref)) want = WValue;
        }
        ok = attempt(s, want, args, !round);
        // what failed can be repeated, and then succeeds if it fits
    }
}

void threadFn(const h::Plan& plan, int tid)
{
    for (auto& op : plan.ops)
        if (op.thread == tid && op.name == "call") callOp(op, plan);
}

void setup(const h::Plan&)
{
    registerFunctions();
    type<A>(); type<B>(); type<D>(); type<M>(); type<P>();
}

void setupCold(const h::Plan&) { registerFunctions(); }

void exec(const h::Plan& plan, const std::string*)
{
    begin();
    h::runOne(plan.num("cold") ? setupCold : setup, plan);
    h::runThreads(plan, plan.threads, threadFn);
    sim::nontrivial();
}

// ------------------------------------------------------------------ members --
// What values offer on top of calls by name: methods, operators, copies, moves,
// conversions, construction, fields and trait values.
enum Member { MGet, MAdd, MPlus, MSelf, MCself, MPlusAssign, MEq, MNot, MParen, MAssign, MCopy, MMove, MConvert, MConstruct, MConstructOwn, MAlloc,
    MField, MFieldIn, MFieldConst, MViews, MTrait, MFieldRef, MFieldCref, MFieldCopy, NMembers };
const char* const memberNames[] = { "get", "add", "plus", "methself", "methcself", "+=", "==", "!", "()", "assign", "copy", "move", "convert", "A(...)", "T(...)", "new",
    "field v/n", "field in", "field c", "views", "trait", "field<long&>", "field<const long&>", "field<long>" };

struct Found { bool ok, isBool; long number; const void* addr; bool stored, isConst, isVoid; const Type* type; std::string err; bool memory, planned; Value v; };

void take(Found& f, const Value& v) { f.v = v; }

template<typename Arg>
void memberWith(int what, Found& f, Value& v, Arg&& arg)
{
    switch (what) {
    case MAdd: v.call<void>("add", std::forward<Arg>(arg)); break;
    case MPlus: take(f, v.call<Value>("plus", std::forward<Arg>(arg))); break;
    case MPlusAssign: take(f, v += std::forward<Arg>(arg)); break;
    case MEq: f.isBool = true; f.number = v == std::forward<Arg>(arg); break;
    case MAssign: v.assign(std::forward<Arg>(arg)); break;
    case MConstruct: take(f, type<A>()->construct(std::forward<Arg>(arg))); break;
    case MConstructOwn: take(f, v.type()->construct(std::forward<Arg>(arg))); break;
    case MParen: take(f, v(std::forward<Arg>(arg), 5L)); break;
    }
}

bool assignable(const Supply& x, const Supply& y)
{
    if (x.cat != L) return false;
    switch (x.type) {
    case TA: return isOne(y.type, TA) || y.type == TP;
    case TM: return y.type == TM && y.cat == R;
    default: return isOne(y.type, x.type);
    }
}

bool constructible(int target, const Supply& y)
{
    switch (target) {
    case TA: return y.type != TM;
    case TM: return y.type == TLong || (y.type == TM && y.cat == R);
    default: return isOne(y.type, target);
    }
}

bool memberAttempt(int what, Supply& x, Supply& y, bool faults)
{
    Found f = {};
    size_t before; uint64_t faultsBefore;
    std::string text;
    {
        sim::Host host;
        before = world->mine().size(); faultsBefore = faultCount();
        text = std::string("member ") + memberNames[what] + " of " + holdsName(x.holds) + " " + std::to_string(x.payload) + " with " + formName(y.form)
            + (y.value() ? std::string(" holding ") + holdsName(y.holds) : "") + " " + std::to_string(y.payload);
    }
    Value& v = *x.v;
    A* allocated = nullptr;
    sim::arm(faults);
    try {
        switch (what) {
        case MGet: f.isBool = true; f.number = v.call<long>("get"); break;
        case MSelf: take(f, v.call<Value>("methself")); break;
        case MCself: take(f, v.call<Value>("methcself")); break;
        case MNot: f.isBool = true; f.number = !v; break;
        case MCopy: take(f, v.copy()); break;
        case MMove: take(f, v.move()); break;
        case MConvert: take(f, v.convert<Value>(type<A>())); break;
        case MAlloc: { Value p = type<A>()->alloc(); allocated = p.get<A*>(); take(f, p); } break;
        case MField: take(f, v.field(x.type == TP ? "n" : "v")); break;
        case MFieldIn: take(f, v.field("in")); break;
        case MFieldConst: take(f, v.field("c")); break;
        case MFieldRef: { long& r = v.field<long&>(x.type == TP ? "n" : "v"); f.isBool = true; f.addr = &r; } break;
        case MFieldCref: { const long& r = v.field<const long&>(x.type == TP ? "n" : "v"); f.isBool = true; f.addr = &r; } break;
        case MFieldCopy: { long r = v.field<long>(x.type == TP ? "n" : "v"); f.isBool = true; f.number = r; } break;
        case MViews: take(f, v.toConst()); break;
        case MTrait: { A a = type<A>()->getValue<A>("traitA"); f.isBool = true; f.number = a.v; } break;
        default:
            switch (y.form) {
            case FValueR: memberWith(what, f, v, std::move(*y.v)); break;
            case FAl: memberWith(what, f, v, *y.a); break;
            case FAr: memberWith(what, f, v, std::move(*y.a)); break;
            case FLong: memberWith(what, f, v, (long) y.n); break;
            default: memberWith(what, f, v, *y.v); break;
            }
        }
        f.ok = true;
    }
    catch (const std::bad_alloc&) { sim::arm(false); f.memory = true; f.err = "out of memory"; }
    catch (const Failure&) { sim::arm(false); f.planned = true; f.err = "planned"; }
    catch (const std::exception& e) { sim::arm(false); f.err = e.what(); }
    sim::arm(false);
    const Type* types[] = { type<A>(), type<B>(), type<M>(), type<P>(), type<long>(), type<D>() };
    const Type* in = type<In>();
    const Type* ptr = type<A*>();
    if (f.ok && !f.isBool) { f.addr = f.v.value(); f.stored = f.v.isStored(); f.isConst = f.v.isConst(); f.isVoid = f.v.isVoid(); f.type = f.v.type(); }

    bool ok = f.ok;
    {
    sim::Host host;
    const char* t = text.c_str();
    std::vector<Call>& calls = world->mine();
    size_t happened = calls.size() - before;
    const Call* c = happened ? &calls[before] : nullptr;
    const bool faulted = faultCount() != faultsBefore;
    const bool isA = isOne(x.type, TA), yA = isOne(y.type, TA);

    bool fits;
    int fn = -1;
    switch (what) {
    case MGet: fits = isA || x.type == TM; fn = FGet; break;
    case MAdd: fits = isA && x.cat == L && y.type == TLong; fn = FAdd; break;
    case MPlus: fits = isA && yA; fn = FPlus; break;
    case MSelf: fits = isA && x.cat == L; fn = FMethSelf; break;
    case MCself: fits = isA; fn = FMethCself; break;
    case MPlusAssign: fits = isA && x.cat == L && yA; fn = FPlusAssign; break;
    case MEq: fits = isA && yA; fn = FEq; break;
    case MNot: fits = isA; fn = FNot; break;
    case MParen: fits = isA && y.type == TLong; fn = FParen; break;
    case MAssign: fits = assignable(x, y); break;
    case MCopy: fits = x.type != TM; break;
    case MMove: fits = x.type != TM || !x.isConst; break;
    case MConvert: fits = x.type == TP; break;
    case MConstruct: fits = constructible(TA, y); break;
    case MConstructOwn: fits = constructible(x.type, y); break;
    case MField: fits = isA || x.type == TP; break;
    case MFieldRef: fits = (isA || x.type == TP) && !x.isConst; break;
    case MFieldCref: case MFieldCopy: fits = isA || x.type == TP; break;
    case MFieldIn: case MFieldConst: fits = x.type == TP; break;
    default: fits = true;
    }

    if (happened > 1) sim::violation("invoked-twice", "%s invoked %zu functions", t, happened);
    if (c && c->faults != faultsBefore) sim::violation("invoked-after-failure", "%s invoked %s although handing over the arguments had failed", t, fnNames[c->fn]);
    if (c && c->fn != fn) sim::violation("wrong-target", "%s invoked %s", t, fnNames[c->fn]);
    if (f.ok) {
        if (fn >= 0 && !c) sim::violation("not-invoked", "%s reported success but invoked nothing", t);
        if (!fits) sim::violation("misfit-accepted", "%s succeeded but doesn't fit", t);
        PROBE("member call succeeded");
    }
    else {
        if (!faulted && fits) sim::violation("rejected", "%s failed: %s", t, f.err.c_str());
        if (c && !fits) sim::violation("misfit-accepted", "%s invoked %s although it doesn't fit", t, fnNames[c->fn]);
        if (faulted) { PROBE("member call failed"); } else { PROBE("member call rejected"); }
    }
    if (c) {
        if (c->addr[0] != x.object) sim::violation("wrong-argument", "%s wasn't invoked on the object", t);
        if (c->in[0] != x.payload) sim::violation("wrong-argument", "%s found %ld in the object", t, c->in[0]);
        if (c->n > 1 && c->in[1] != y.payload) sim::violation("wrong-argument", "%s got %ld", t, c->in[1]);
        if (c->n > 1 && y.object && (y.value() || y.cat != R) && (what == MPlus || what == MPlusAssign || what == MEq) && c->addr[1] != y.object)
            sim::violation("wrong-argument", "%s didn't get the object that was supplied", t);
    }

    // the objects
    const bool assigned = what == MAssign && f.ok;
    if (what != MMove) {
        if (v.value() != x.object || v.isStored() != x.stored || v.refType() != x.refType || v.isConst() != x.isConst)
            sim::violation("value-changed", "%s changed what the value refers to", t);
        long expect = assigned ? y.payload : x.payload;
        if (c && what == MAdd) expect += y.payload;
        if (c && what == MPlusAssign) expect += y.payload;
        if (x.object && !(what == MCopy && x.cat == R) && now(x.object) != expect) sim::violation("object-changed", "after %s the object is %ld instead of %ld", t, now(x.object), expect);
    }
    else if (f.ok && !v.isVoid()) sim::violation("value-changed", "%s left the value in place", t);
    else if (x.isConst && !x.stored && now(x.object) != x.payload) sim::violation("object-changed", "after %s the const object is %ld", t, now(x.object));
    if (y.object && !y.given) {
        if (now(y.object) != y.payload) sim::violation("object-changed", "after %s the argument is %ld", t, now(y.object));
    }

    // the result
    if (f.ok) {
        switch (what) {
        case MGet: if (f.number != x.payload) sim::violation("wrong-result", "%s returned %ld", t, f.number); break;
        case MEq: if (f.number != (x.payload == y.payload)) sim::violation("wrong-result", "%s returned %ld", t, f.number); break;
        case MNot: if (f.number != !x.payload) sim::violation("wrong-result", "%s returned %ld", t, f.number); break;
        case MTrait: if (f.number != 4711) sim::violation("wrong-result", "%s returned %ld", t, f.number); break;
        case MPlus: case MParen:
            if (!f.stored || now(f.addr) != c->ret) sim::violation("wrong-result", "%s returned another result", t);
            break;
        case MSelf: case MCself: case MPlusAssign:
            if (f.stored || f.addr != x.object || f.isConst != (what == MCself)) sim::violation("wrong-result", "%s doesn't refer to what the function returned", t);
            break;
        case MCopy: case MMove:
            if (!f.stored || f.addr == x.object || now(f.addr) != x.payload || f.type != types[x.type]) sim::violation("wrong-result", "%s gave something else", t);
            break;
        case MConvert:
            if (!f.stored || now(f.addr) != x.payload || f.type != types[TA]) sim::violation("wrong-result", "%s gave something else", t);
            break;
        case MConstruct: case MConstructOwn:
            if (!f.stored || f.addr == y.object || now(f.addr) != y.payload || f.type != types[what == MConstruct ? (int) TA : x.type])
                sim::violation("wrong-result", "%s gave something else", t);
            break;
        case MAlloc: if (f.type != ptr || !find(allocated)) sim::violation("wrong-result", "%s gave something else", t); break;
        case MField: if (f.stored || f.addr != x.object || f.type != types[TLong] || f.isConst != x.isConst) sim::violation("wrong-result", "%s isn't the member", t); break;
        case MFieldRef: case MFieldCref: if (f.addr != x.object) sim::violation("wrong-result", "%s isn't the member", t); break;
        case MFieldCopy: if (f.number != x.payload) sim::violation("wrong-result", "%s returned %ld", t, f.number); break;
        case MFieldIn: if (f.stored || f.addr != &((P*) x.object)->in || f.type != in || f.isConst != x.isConst) sim::violation("wrong-result", "%s isn't the member", t); break;
        case MFieldConst: if (f.stored || f.addr != &((P*) x.object)->c || f.type != types[TLong] || !f.isConst) sim::violation("wrong-result", "%s isn't the member", t); break;
        case MViews: if (f.addr != x.object || f.stored != x.stored || !f.isConst) sim::violation("wrong-result", "%s isn't a view of the object", t); break;
        }
    }
    sim::stateMix(what * 7919 + f.ok * 2 + happened + x.holds * 31);
    }
    delete allocated;
    return ok;
}

void memberOp(const h::Op& op)
{
    int what = ((unsigned long) op.num(0)) % NMembers;
    int form = op.num(3);
    if (form != FValueR && form != FAl && form != FAr && form != FLong) form = FValueL;
    bool ok = false;
    for (int round = 0; round < 2 && !ok; ++round) {
        Supply x, y;
        x.make(FValueL, ((unsigned long) op.num(1)) % NHolds, op.num(2));
        y.make(form, ((unsigned long) op.num(4)) % NHolds, op.num(5));
        ok = memberAttempt(what, x, y, !round);
    }
}

void memberThread(const h::Plan& plan, int tid)
{
    for (auto& op : plan.ops) if (op.thread == tid && op.name == "member") memberOp(op);
}

void execMembers(const h::Plan& plan, const std::string*)
{
    begin();
    h::runOne(plan.num("cold") ? setupCold : setup, plan);
    h::runThreads(plan, plan.threads, memberThread);
    sim::nontrivial();
}

void genFaults(sim::Rng& rng, h::Plan& plan);

void genMembers(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = rng.chance(1, 5) ? 2 : 1;
    plan.set("cold", rng.chance(1, 6));
    int k = 1 + rng.below(6);
    static const long forms[] = { FValueL, FValueL, FValueR, FAl, FAr, FLong };
    for (int t = 0; t < plan.threads; ++t)
        for (int i = 0; i < k; ++i) {
            int what = rng.below(NMembers);
            int xh = rng.chance(1, 2) ? rng.below(8) : rng.below(NHolds), yh = rng.chance(1, 2) ? rng.below(8) : rng.below(NHolds);
            long form = forms[rng.below(6)];
            if ((what == MAdd || what == MParen) && rng.chance(2, 3)) { form = rng.chance(1, 2) ? FLong : FValueL; yh = HStoredLong; }
            if ((what == MConvert || what == MFieldIn || what == MFieldConst) && rng.chance(2, 3)) xh = rng.chance(1, 2) ? HStoredP : HRvalueP;
            if ((what == MAssign || what == MConstructOwn) && rng.chance(1, 2)) { yh = xh; form = rng.chance(1, 2) ? FValueL : FValueR; }
            long xp = what == MNot && rng.chance(1, 3) ? 0 : 1 + rng.below(500), yp = rng.chance(1, 4) ? xp : 1 + rng.below(500);
            plan.add(t, "member") << (long) what << (long) xh << xp << form << (long) yh << yp;
        }
    genFaults(rng, plan);
    h::setSchedule(rng, plan);
}

void genFaults(sim::Rng& rng, h::Plan& plan)
{
    if (rng.chance(2, 3)) {
        int span = 1 << (1 + rng.below(9));
        for (int i = 1 + rng.below(2); i > 0; --i) plan.allocFaults.push_back(1 + rng.below(span));
        std::sort(plan.allocFaults.begin(), plan.allocFaults.end());
    }
    if (rng.chance(1, 2)) {
        int span = 1 << (1 + rng.below(5));
        for (int i = 1 + rng.below(2); i > 0; --i) plan.userFaults.push_back(1 + rng.below(span));
        std::sort(plan.userFaults.begin(), plan.userFaults.end());
    }
}

void gen(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = rng.chance(1, 5) ? 2 : 1;
    plan.set("cold", rng.chance(1, 6));
    int k = 1 + rng.below(6);
    for (int t = 0; t < plan.threads; ++t)
        for (int i = 0; i < k; ++i) {
            int fn = rng.below(NFns);
            int n = fn == FOv ? 1 + rng.chance(1, 3) : targets[fn].n;
            if (rng.chance(1, 12)) n = rng.below(4);
            int want;
            bool good = rng.chance(2, 3); // aim at calls that fit
            const Target& tg = fn == FOv ? overloads[n == 2 ? 2 : (int)(rng.below(3) * 3 % 4)] : targets[fn];
            if (good) {
                int choices[4] = { WVoid, WValue, WValue, tg.ret == TA ? (tg.retBy == ByRef ? WAref : tg.retBy == ByCref ? WAcref : WA) : tg.ret == TLong ? WLong : WValue };
                want = choices[rng.below(4)];
                if (tg.ret == TA && n == 1 && rng.chance(1, 3)) want = WA;
            }
            else want = rng.below(NWants);
            h::Op& op = plan.add(t, "call") << (long)(rng.chance(1, 3) ? 5 : rng.below(5)) << (long) fn << (long) want << (long) n;
            for (int a = 0; a < n; ++a) {
                int form, holds = rng.below(NHolds);
                form = rng.chance(1, 2) ? rng.below(3) : rng.below(NForms);
                if (good && a < tg.n) {
                    const Param& p = tg.p[a];
                    for (int tries = 0; tries < 30; ++tries) {
                        int f = normalForm(n, a, form, holds);
                        int type, cat;
                        static const int ft[NForms] = { -1, -1, -1, TA, TA, TA, TB, TM, TM, TLong, TP }, fc[NForms] = { 0, 0, 0, L, CL, R, L, R, L, R, CL };
                        static const int ht[NHolds] = { TA, TA, TA, TA, TA, TB, TB, TB, TP, TP, TM, TM, TM, TLong, TA, TA, TD, TD, TD };
                        static const int hc[NHolds] = { L, L, CL, CR, R, L, L, CL, L, R, L, R, L, L, CR, CR, L, L, CL };
                        type = f <= FValueR ? ht[holds] : ft[f]; cat = f <= FValueR ? hc[holds] : fc[f];
                        if (paramFits(p, type, cat)) break;
                        holds = rng.below(NHolds); form = rng.chance(1, 2) ? rng.below(3) : rng.below(NForms);
                    }
                }
                op << (long) form << (long) holds << (long)(1 + rng.below(500));
            }
        }
    genFaults(rng, plan);
    h::setSchedule(rng, plan);
}

// Recorded defect (known_findings.txt): an object is taken for its parent's
// without regard for where in it that is.
void second(const h::Plan&)
{
    c15::Both both;
    Value value(both);
    long called = value.call<long>("get"), field = value.field<long>("b");
    sim::Host host;
    if (called != 2 || field != 2)
        sim::violation("wrong-object", "the method of an object's second base was called on something else: it found %ld rather than 2 (and its field %ld)", called, field);
}
void execSecond(const h::Plan& plan, const std::string*) { h::runOne(second, plan); }
void genSecond(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = 1;
    plan.add(0, "second");
    plan.sched.mode = sim::Sequential;
    plan.sched.seed = rng.next();
}

struct Init { Init() {
    h::add({ "C15", "second_base", 0, genSecond, execSecond, nullptr, false });
    h::add({ "C15", "calls", 10, gen, exec, nullptr, false });
    h::add({ "C15", "members", 8, genMembers, execMembers, nullptr, false });
} } init;

} // namespace anonymous
