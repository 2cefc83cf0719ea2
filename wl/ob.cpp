// ob.cpp - see ob.h
#include "ob.h"

using namespace reflect;

namespace ob {

World* world;

std::vector<Call>& World::mine() { int t = sim::tid(); return calls[t < 0 ? sim::MaxThreads : t]; }

void begin() { world = new World(); }

const Live* find(const void* p)
{
    auto it = world->live.upper_bound((uintptr_t)p);
    const Live* best = nullptr;
    for (int back = 0; back < 2 && it != world->live.begin(); ++back) {
        --it;
        if ((uintptr_t)p < it->first + it->second.size) { best = &it->second; break; } // the innermost
    }
    return best;
}

namespace {

const char* kindName(int k) { static const char* n[] = { "A", "B", "M", "P", "In" }; return n[k]; }

void mayFail()
{
    if (sim::userFault()) throw Failure();
}

void born(const void* p, int kind, size_t size)
{
    sim::Host host;
    ++world->born;
    Live l = { kind, ++world->serial, size, sim::tid() };
    auto r = world->live.emplace((uintptr_t)p, l);
    if (!r.second)
        sim::violation("never-destroyed", "a %s was created where a %s wasn't destroyed", kindName(kind), kindName(r.first->second.kind));
}

void died(const void* p, int kind)
{
    sim::Host host;
    ++world->died;
    auto it = world->live.find((uintptr_t)p);
    if (it == world->live.end() || it->second.kind != kind)
        sim::violation("destroyed-twice", "a %s was destroyed that doesn't exist (anymore)", kindName(kind));
    world->live.erase(it);
}

void used(const void* p, int kind, int kind2 = -1)
{
    sim::Host host;
    auto it = world->live.find((uintptr_t)p);
    if (it == world->live.end() || (it->second.kind != kind && it->second.kind != kind2))
        sim::violation("used-after-destruction", "a %s was used that doesn't exist (anymore)", kindName(kind));
}

void usedA(const A* p) { used(p, KA, KB); }

// A function was entered.
Call* enter(int fn, const void* a = nullptr, long av = 0, const void* b = nullptr, long bv = 0, const void* c = nullptr, long cv = 0)
{
    sim::Host host;
    Call r = {};
    r.fn = fn;
    r.n = (a != nullptr) + (b != nullptr) + (c != nullptr);
    r.addr[0] = a; r.addr[1] = b; r.addr[2] = c;
    r.in[0] = av; r.in[1] = bv; r.in[2] = cv;
    r.faults = faultCount();
    auto& calls = world->mine();
    calls.reserve(4096);
    if (calls.size() < 4000) calls.push_back(r);
    return &calls.back();
}

long done(Call* c, long ret, const void* addr = nullptr)
{
    c->ret = ret; c->retAddr = addr;
    mayFail();
    return ret;
}

} // namespace anonymous

uint64_t faultCount() { return sim::myFaults(); }

// ------------------------------------------------------------------ objects --
A::A(long v_, int k) : v(v_), kind(k) { born(this, k, k == KB ? sizeof(B) : sizeof(A)); }

A::A(const A& o, int k)
{
    usedA(&o); mayFail();
    v = o.v; kind = k;
    { sim::Host host; world->copies++; }
    born(this, k, k == KB ? sizeof(B) : sizeof(A));
}

A::A(A&& o, int k)
{
    usedA(&o); mayFail();
    v = o.v; kind = k; o.v = Moved;
    { sim::Host host; world->moves++; }
    born(this, k, k == KB ? sizeof(B) : sizeof(A));
}

A::~A() { died(this, kind); v = -666; }

A& A::operator= (const A& o) { usedA(&o); usedA(this); mayFail(); v = o.v; return *this; }
A& A::operator= (A&& o) { usedA(&o); usedA(this); mayFail(); if (this != &o) { v = o.v; o.v = Moved; } return *this; }

long A::get() const { usedA(this); return done(enter(FGet, this, v), v); }
void A::add(long n) { usedA(this); Call* c = enter(FAdd, this, v, &v, n); v += n; done(c, 0); }
A& A::self() { usedA(this); done(enter(FMethSelf, this, v), v, this); return *this; }
const A& A::cself() const { usedA(this); done(enter(FMethCself, this, v), v, this); return *this; }
A A::plus(const A& o) const { usedA(this); usedA(&o); return A(done(enter(FPlus, this, v, &o, o.v), v + o.v)); }
A& A::operator+= (const A& o) { usedA(this); usedA(&o); Call* c = enter(FPlusAssign, this, v, &o, o.v); v += o.v; done(c, v, this); return *this; }
bool A::operator== (const A& o) const { usedA(this); usedA(&o); return done(enter(FEq, this, v, &o, o.v), v == o.v); }
bool A::operator! () const { usedA(this); return done(enter(FNot, this, v), v == 0); }
long A::operator() (long a, long b) const { usedA(this); return done(enter(FParen, this, v, &a, a, &b, b), v + 2 * a + 3 * b); }

M::M() : v(5) { born(this, KM, sizeof *this); }
M::M(long v) : v(v) { born(this, KM, sizeof *this); }
M::M(M&& o) { used(&o, KM); mayFail(); v = o.v; o.v = Moved; { sim::Host host; world->moves++; } born(this, KM, sizeof *this); }
M& M::operator= (M&& o) { used(&o, KM); used(this, KM); mayFail(); if (this != &o) { v = o.v; o.v = Moved; } return *this; }
M::~M() { died(this, KM); v = -666; }
long M::get() const { used(this, KM); return done(enter(FGet, this, v), v); }

In::In(long v) : v(v) { born(this, KIn, sizeof *this); }
In::In(const In& o) { used(&o, KIn); mayFail(); v = o.v; born(this, KIn, sizeof *this); }
In::In(In&& o) { used(&o, KIn); mayFail(); v = o.v; o.v = Moved; born(this, KIn, sizeof *this); }
In& In::operator= (const In& o) { used(&o, KIn); used(this, KIn); mayFail(); v = o.v; return *this; }
In::~In() { died(this, KIn); v = -666; }

P::P(long n) : n(n), c(n + 1), in(n + 2) { born(this, KP, sizeof *this); }
P::P(const P& o) : n((used(&o, KP), o.n)), c(o.c), in(o.in) { mayFail(); born(this, KP, sizeof *this); }
P::P(P&& o) : n((used(&o, KP), o.n)), c(o.c), in(std::move(o.in)) { mayFail(); o.n = Moved; born(this, KP, sizeof *this); }
P& P::operator= (const P& o) { used(&o, KP); used(this, KP); in = o.in; n = o.n; return *this; }
P::~P() { died(this, KP); n = -666; }
P::operator A() const { used(this, KP); { sim::Host host; world->conversions++; } mayFail(); return A(n); }

// ------------------------------------------------------------------ targets --
const char* const fnNames[FBad] = {
    "aval", "aref", "acref", "arval", "mref", "mrval", "bcref", "two", "swap", "mix", "self", "cself", "make", "makem",
    "value", "num", "nothing", "pass", "passvalue", "ov",
    "get", "add", "plus", "self", "cself", "operator+=", "operator==", "operator!", "operator()", "ov", "ov", "ov", "ov" };

namespace {

long fAval(A a) { usedA(&a); Call* c = enter(FAval, &a, a.v); long r = a.v + 1; a.v = -7; return done(c, r); }
void fAref(A& a) { usedA(&a); Call* c = enter(FAref, &a, a.v); a.v += 1000; done(c, 0); }
long fAcref(const A& a) { usedA(&a); return done(enter(FAcref, &a, a.v), a.v + 2); }
long fArval(A&& a) { usedA(&a); Call* c = enter(FArval, &a, a.v); long r = a.v + 3; a.v = Moved; return done(c, r); }
long fMref(M& m) { used(&m, KM); Call* c = enter(FMref, &m, m.v); m.v += 1000; return done(c, m.v); }
long fMrval(M&& m) { used(&m, KM); Call* c = enter(FMrval, &m, m.v); M x(std::move(m)); return done(c, x.v + 4); }
long fBcref(const B& b) { usedA(&b); return done(enter(FBcref, &b, b.v), b.v + b.w); }
long fTwo(A a, const A& b) { usedA(&a); usedA(&b); return done(enter(FTwo, &a, a.v, &b, b.v), a.v * 3 + b.v); }
void fSwap(A& a, A& b) { usedA(&a); usedA(&b); Call* c = enter(FSwap, &a, a.v, &b, b.v); std::swap(a.v, b.v); done(c, 0); }
A fMix(const A& a, long n, A&& b)
{
    usedA(&a); usedA(&b);
    Call* c = enter(FMix, &a, a.v, &n, n, &b, b.v);
    long r = a.v + n * 2 + b.v * 5; b.v = Moved;
    return A(done(c, r));
}
A& fSelf(A& a) { usedA(&a); done(enter(FSelf, &a, a.v), a.v, &a); return a; }
const A& fCself(const A& a) { usedA(&a); done(enter(FCself, &a, a.v), a.v, &a); return a; }
A fMake() { return A(done(enter(FMake), 11)); }
M fMakeM(long n) { return M(done(enter(FMakeM, &n, n), n + 12)); }
long fValue(Value v)
{
    long n = 0;
    if (v.type() == type<A>()) { const A& a = v.get<A>(); usedA(&a); n = a.v; }
    return done(enter(FValue, v.value(), n), n + 6);
}
long fNum(long n) { return done(enter(FNum, &n, n), n * 2); }
void fNothing() { done(enter(FNothing), 0); }
A fPass(A a) { usedA(&a); done(enter(FPass, &a, a.v), a.v); return a; }
Value fPassValue(Value v) { done(enter(FPassValue, v.value(), 0), 0); return v; }
long fOv0(long n) { return done(enter(FOv0, &n, n), n + 100); }
long fOv1(const A& a) { usedA(&a); return done(enter(FOv1, &a, a.v), a.v + 200); }
long fOv2(A& a, long n) { usedA(&a); Call* c = enter(FOv2, &a, a.v, &n, n); a.v += n; return done(c, a.v); }
long fOv3(const M& m) { used(&m, KM); return done(enter(FOv3, &m, m.v), m.v + 300); }

template<typename F> void all(const F& f)
{
    f.add("aval", &fAval); f.add("aref", &fAref); f.add("acref", &fAcref); f.add("arval", &fArval);
    f.add("mref", &fMref); f.add("mrval", &fMrval); f.add("bcref", &fBcref); f.add("two", &fTwo);
    f.add("swap", &fSwap); f.add("mix", &fMix); f.add("self", &fSelf); f.add("cself", &fCself);
    f.add("make", &fMake); f.add("makem", &fMakeM); f.add("value", &fValue); f.add("num", &fNum);
    f.add("nothing", &fNothing); f.add("pass", &fPass); f.add("passvalue", &fPassValue);
    f.add("ov", &fOv0); f.add("ov", &fOv1); f.add("ov", &fOv2); f.add("ov", &fOv3);
}

struct ToScope { template<typename Fn> void add(const char* n, Fn fn) const { scope("")->addFunction(std::string("ob::fn::") + n, fn); } };
struct ToType { Type* type; template<typename Fn> void add(const char* n, Fn fn) const { type->addFunction(n, std::move(fn)); } };

} // namespace anonymous

void registerFunctions() { all(ToScope()); }

} // namespace ob

using ob::ToType;

reflectTypeImpl(ob::A)
{
    reflectPlumbing();
    reflectAllocPlumbing();
    reflectCons(long);
    reflectField(v);
    reflectFn(get);
    reflectFn(add);
    reflectFn(plus);
    reflectLambda(type_, "methself") += [] (ob::A& a) -> ob::A& { return a.self(); };
    type_->addFunction("methcself", &ob::A::cself);
    reflectFn(operator+=);
    reflectFn(operator==);
    reflectFn(operator!);
    reflectFn(operator());
    ob::all(ToType{type_});
    reflectTypeValue(traitA, ob::A(4711));
    reflectTypeValue(number, 42L);
}

reflectTypeImpl(ob::B)
{
    reflectParent(ob::A);
    reflectPlumbing();
    reflectField(w);
}

reflectTypeImpl(ob::D)
{
    reflectParent(ob::B);
    reflectPlumbing();
}

reflectTypeImpl(ob::M)
{
    reflectPlumbing();
    reflectAllocPlumbing();
    reflectFn(get);
    reflectCons(long);
}

reflectTypeImpl(ob::In)
{
    reflectPlumbing();
    reflectField(v);
}

reflectTypeImpl(ob::P)
{
    reflectPlumbing();
    reflectField(n);
    reflectField(c);
    reflectField(in);
    type_->addFunction("operator ob::A()", &ob::P::operator ob::A);
}
