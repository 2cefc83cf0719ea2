// ob.h - types whose objects are tracked, and functions whose calls are.
#pragma once

#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/smart_ptr.h"
#include "../sim/plan.h"

namespace ob {

enum Kind { KA, KB, KM, KP, KIn, KNone };
enum { Moved = -77 };

// Thrown by constructors and functions when the plan says so.
struct Failure : std::runtime_error { Failure() : std::runtime_error("planned failure") {} };

struct A // copyable and movable
{
    long v; int kind;
    A() : A(1, KA) {}
    explicit A(long v) : A(v, KA) {}
    A(const A& o) : A(o, KA) {}
    A(A&& o) : A(std::move(o), KA) {}
    A& operator= (const A& o);
    A& operator= (A&& o);
    ~A();

    long get() const;
    void add(long n);
    A& self();
    const A& cself() const;
    A plus(const A& o) const;
    A& operator+= (const A& o);
    bool operator== (const A& o) const;
    bool operator! () const;
    long operator() (long a, long b) const;
protected:
    A(long v, int kind);
    A(const A& o, int kind);
    A(A&& o, int kind);
};

struct B : A // derived
{
    long w;
    B() : A(2, KB), w(20) {}
    explicit B(long v) : A(v, KB), w(v * 10) {}
    B(const B& o) : A(o, KB), w(o.w) {}
    B(B&& o) : A(std::move(o), KB), w(o.w) {}
    B& operator= (const B& o) { A::operator=(o); w = o.w; return *this; }
    B& operator= (B&& o) { A::operator=(std::move(o)); w = o.w; return *this; }
};

struct D : B // derived from that; tracked as a B
{
    D() {}
    explicit D(long v) : B(v) {}
    D(const D& o) : B(o) {}
    D(D&& o) : B(std::move(o)) {}
    D& operator= (const D& o) { B::operator=(o); return *this; }
    D& operator= (D&& o) { B::operator=(std::move(o)); return *this; }
};

struct M // only movable
{
    long v;
    M();
    explicit M(long v);
    M(M&& o);
    M& operator= (M&& o);
    M(const M&) = delete;
    M& operator= (const M&) = delete;
    ~M();
    long get() const;
};

struct In // member of P
{
    long v;
    explicit In(long v);
    In() : In(3) {}
    In(const In& o);
    In(In&& o);
    In& operator= (const In& o);
    ~In();
};

struct P // has members, converts to A
{
    long n; const long c; In in;
    P() : P(4) {}
    explicit P(long n);
    P(const P& o);
    P(P&& o);
    P& operator= (const P& o);
    ~P();
    operator A() const;
};

// ---- accounting (host) ----
struct Live { int kind; long serial; size_t size; int tid; };
struct Call
{
    int fn, n; const void* addr[3]; long in[3];
    long ret; const void* retAddr; uint64_t faults;
};
struct World
{
    std::map<uintptr_t, Live> live;
    long serial = 0, born = 0, died = 0, copies = 0, moves = 0, conversions = 0;
    std::vector<Call> calls[sim::MaxThreads + 1];
    std::vector<Call>& mine();
};
extern World* world;
void begin();                               // host
const Live* find(const void* p);            // the object at p or around it
uint64_t faultCount();

// ---- targets ----
enum Fn
{
    FAval, FAref, FAcref, FArval, FMref, FMrval, FBcref, FTwo, FSwap, FMix, FSelf, FCself, FMake, FMakeM,
    FValue, FNum, FNothing, FPass, FPassValue, FOv, NFns,
    FGet = NFns, FAdd, FPlus, FMethSelf, FMethCself, FPlusAssign, FEq, FNot, FParen, FOv0, FOv1, FOv2, FOv3, FBad
};
extern const char* const fnNames[FBad];

void registerFunctions(); // sim: the functions, in scope "ob::fn"

} // namespace ob

reflectTypeDecl(ob::A)
reflectTypeDecl(ob::B)
reflectTypeDecl(ob::D)
reflectTypeDecl(ob::M)
reflectTypeDecl(ob::In)
reflectTypeDecl(ob::P)
