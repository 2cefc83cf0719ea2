// wl_lib.cpp - the library's own reflections: numbers, strings, containers,
// pointers and operators do through reflection what they do directly (C15).
//
// Every object has a model, a plain object of the harness. An operation is
// called through reflection, with failing allocations and copies, and then done
// directly to the model; result and object must agree. After a failure the
// object is what it was, or what the operation makes of it.
#include "ob.h"
#include "types/std/map.h"

#include <algorithm>
#include <limits>
#include <set>

namespace lib {

struct Failure : std::runtime_error { Failure() : std::runtime_error("planned failure") {} };

std::set<const void*>* alive;

struct E // an element whose copies may fail
{
    long v;
    static void born(const void* p) { sim::Host h; if (!alive->insert(p).second) sim::violation("never-destroyed", "an element was created where one is"); }
    static void died(const void* p) { sim::Host h; if (!alive->erase(p)) sim::violation("destroyed-twice", "an element was destroyed that doesn't exist"); }
    static void fail() { if (sim::userFault()) throw Failure(); }
    E() : v(0) { born(this); }
    explicit E(long v) : v(v) { born(this); }
    E(const E& o) { fail(); v = o.v; born(this); }
    E& operator= (const E& o) { fail(); v = o.v; return *this; }
    ~E() { died(this); v = -666; }
};

// Every operator gives something else.
struct N
{
    long v; long slots[4];
    N() : N(5) {}
    explicit N(long v) : v(v) { for (int i = 0; i < 4; ++i) slots[i] = v + i; }
    static void fail() { if (sim::userFault()) throw Failure(); }
    static long mix(long a, long b, long id) { return (a * 1009 + b * 31 + id) % 1000003; }
    static bool bit(long a, long b, long id) { return (unsigned long) mix(a, b, id) * 0x9E3779B97F4A7C15ull >> 40 & 1; }
#define ASSIGN(op, id) N& operator op (const N& o) { fail(); v = mix(v, o.v, id); return *this; }
    ASSIGN(+=, 1) ASSIGN(-=, 2) ASSIGN(*=, 3) ASSIGN(/=, 4) ASSIGN(%=, 5) ASSIGN(&=, 6) ASSIGN(|=, 7) ASSIGN(^=, 8) ASSIGN(<<=, 9) ASSIGN(>>=, 10)
#define ARITH(op, id) N operator op (const N& o) const { fail(); return N(mix(v, o.v, id)); }
    ARITH(+, 11) ARITH(-, 12) ARITH(*, 13) ARITH(/, 14) ARITH(%, 15) ARITH(&, 16) ARITH(|, 17) ARITH(^, 18) ARITH(<<, 19) ARITH(>>, 20)
    N operator~ () const { fail(); return N(mix(v, 0, 21)); }
    N& operator++ () { fail(); v = mix(v, 0, 22); return *this; }
    N& operator-- () { fail(); v = mix(v, 0, 23); return *this; }
    N operator++ (int) { fail(); N r(v); v = mix(v, 0, 24); return r; }
    N operator-- (int) { fail(); N r(v); v = mix(v, 0, 25); return r; }
    bool operator! () const { fail(); return bit(v, 0, 26); }
#define BOOL(op, id) bool operator op (const N& o) const { fail(); return bit(v, o.v, id); }
    BOOL(&&, 27) BOOL(||, 28) BOOL(==, 29) BOOL(!=, 30) BOOL(<, 31) BOOL(>, 32) BOOL(<=, 33) BOOL(>=, 34)
    N operator() (long a, long b) const { fail(); return N(mix(a, b, v)); }
    long& operator[] (long i) { fail(); return slots[i & 3]; }
};

// What the rest of the macros is used on.
struct K
{
    long v, w;
    static void fail() { if (sim::userFault()) throw Failure(); }
    K() : v(6), w(0) {}
    explicit K(long v) : v(v), w(v / 2) {}
    K(long a, const std::string& b) : v(a), w(b.size()) { fail(); }
    long over(long a) const { fail(); return v * 3 + a; }
    long over(const std::string& s) { fail(); w = s.size(); return v; }
    long over() { fail(); return v++; }
    long& at() { fail(); return w; }
    const long& at() const { fail(); return v; }
    const long& first() const { fail(); return v; }
    static long twice(long a) { fail(); return a * 2; }
    operator short() const { fail(); return v % 1000 + 100; }
};

long global(long a) { K::fail(); return a * 5; }
long overloaded(long a) { K::fail(); return a + 1; }
long overloaded(const std::string& s) { K::fail(); return 1000 + s.size(); }
long counter;
const long fixed = 77;
std::string word;

} // namespace lib

reflectTypeDecl(lib::E)
reflectTypeDecl(lib::N)
reflectTypeDecl(lib::K)

reflectTypeImpl(lib::E) { reflectPlumbing(); reflectField(v); }
reflectTypeImpl(lib::N)
{
    reflectPlumbing();
    reflectOperators();
}

reflectTypeImpl(lib::K)
{
    reflectPlumbing();
    reflectAllocPlumbing();
    reflectCons(long);
    reflectCons(long, const std::string&);
    reflectField(v);
    reflectFieldTrait(v, first);
    reflectFieldValue(v, place, 17L);
    reflectField(w);
    reflectFnTyped(over, long (lib::K::*)(long) const);
    reflectFnTyped(over, long (lib::K::*)(const std::string&));
    reflectFnTyped(over, long (lib::K::*)());
    reflectFnTrait(over, several);
    reflectFnValue(over, count, 3L);
    reflectFnTyped(at, long& (lib::K::*)());
    reflectFn(first);
    reflectFn(twice);
    reflectOpCast(short);
    reflectCustom(grow) (lib::K& k, long a) { lib::K::fail(); k.v += a; };
    reflectCustom(sum) (const lib::K& k) -> long { lib::K::fail(); return k.v + k.w; };
    reflectTypeTrait(marked);
    reflectTypeValue(weight, 12L);
}

using namespace reflect;

namespace {

void globals() // as reflectScope() does, which does so before there's a simulation
{
    Scope* scope_ = scope()->scope("lib");
    reflectGlobalFn(lib::global);
    reflectGlobalFnTyped(lib::overloaded, long (*)(long));
    reflectGlobalFnTyped(lib::overloaded, long (*)(const std::string&));
    reflectGlobalVar(lib::counter);
    reflectGlobalVar(lib::fixed);
    reflectGlobalVar(lib::word);
    reflectScopeTrait(open);
    reflectScopeValue(height, 31L);
}

using lib::E; using lib::N; using lib::K;
bool alone; // there's one thread

// -------------------------------------------------------------------- models --
struct PM { bool set; long v; bool operator== (const PM& o) const { return set == o.set && (!set || v == o.v); } };

template<typename T> struct Mod { typedef T type; static const T& read(const T& t) { return t; } };
template<> struct Mod<std::string> { typedef std::string type; static std::string read(const std::string& s) { return std::string(s.data(), s.size()); } };
template<> struct Mod<E> { typedef long type; static long read(const E& e) { return e.v; } };
template<> struct Mod<N>
{
    typedef std::vector<long> type;
    static type read(const N& n) { type r(1, n.v); r.insert(r.end(), n.slots, n.slots + 4); return r; }
};
template<> struct Mod<K>
{
    typedef std::vector<long> type;
    static type read(const K& k) { return type{ k.v, k.w }; }
};
template<typename T> struct Mod< std::vector<T> >
{
    typedef std::vector<typename Mod<T>::type> type;
    static type read(const std::vector<T>& t) { type r; for (size_t i = 0; i < t.size(); ++i) r.push_back(Mod<T>::read(t[i])); return r; }
};
template<typename K, typename V> struct Mod< std::map<K, V> >
{
    typedef std::map<K, typename Mod<V>::type> type;
    static type read(const std::map<K, V>& t) { type r; for (auto& i : t) r.emplace(Mod<K>::read(i.first), Mod<V>::read(i.second)); if (r.size() != t.size()) sim::violation("wrong-effect", "a map holds a key twice"); return r; }
};
template<typename K, typename V> struct Mod< std::unordered_map<K, V> >
{
    typedef std::map<K, typename Mod<V>::type> type;
    static type read(const std::unordered_map<K, V>& t) { type r; for (auto& i : t) r.emplace(Mod<K>::read(i.first), Mod<V>::read(i.second)); if (r.size() != t.size()) sim::violation("wrong-effect", "a map holds a key twice"); return r; }
};
template<typename T> struct Mod< std::shared_ptr<T> > { typedef PM type; static PM read(const std::shared_ptr<T>& p) { return PM{ !!p, p ? p->v : 0 }; } };
template<typename T> struct Mod< std::unique_ptr<T> > { typedef PM type; static PM read(const std::unique_ptr<T>& p) { return PM{ !!p, p ? p->v : 0 }; } };
template<> struct Mod<E*> { typedef PM type; static PM read(E* const& p) { return PM{ !!p, p ? p->v : 0 }; } };

// -------------------------------------------------------------------- values --
template<typename T> struct Make { static T of(long n) { return T(n); } };
template<> struct Make<bool> { static bool of(long n) { return n & 1; } };
template<> struct Make<double> { static double of(long n) { return n * 0.25 - 20; } };
template<> struct Make<std::string> { static std::string of(long n) { return n % 5 ? (n & 1 ? std::string("a rather long piece of text, number ") + std::to_string(n) : std::string("s") + std::to_string(n)) : std::string(); } };
template<typename T> struct Make< std::vector<T> > { static std::vector<T> of(long n) { std::vector<T> r; for (long i = 0; i < n % 4; ++i) r.push_back(Make<T>::of(n + i)); return r; } };
template<typename K, typename V> struct Make< std::map<K, V> > { static std::map<K, V> of(long n) { std::map<K, V> r; for (long i = 0; i < n % 4; ++i) r[Make<K>::of((n + i) % 12)] = Make<V>::of(n + i); return r; } };
template<typename K, typename V> struct Make< std::unordered_map<K, V> > { static std::unordered_map<K, V> of(long n) { std::unordered_map<K, V> r; for (long i = 0; i < n % 4; ++i) r[Make<K>::of((n + i) % 12)] = Make<V>::of(n + i); return r; } };
template<typename T> struct Make< std::shared_ptr<T> > { static std::shared_ptr<T> of(long n) { return n % 4 ? std::shared_ptr<T>(new T(n)) : std::shared_ptr<T>(); } };
template<typename T> struct Make< std::unique_ptr<T> > { static std::unique_ptr<T> of(long n) { return n % 4 ? std::unique_ptr<T>(new T(n)) : std::unique_ptr<T>(); } };

E* pointees[4]; // for E*
template<> struct Make<E*> { static E* of(long n) { return n % 4 ? pointees[n % 4] : nullptr; } };

// --------------------------------------------------------------------- slots --
template<typename T> struct Slot
{
    typedef typename Mod<T>::type M;
    Value v;
    T* own; // if v refers to an object of the harness
    M* model;
    Slot() : own(nullptr), model(nullptr) {}
    const T& real() const { return *(const T*)(own ? own : v.value()); }
};

struct Slots
{
    Slot<long> num; Slot<double> real; Slot<bool> flag; Slot<unsigned char> byte; Slot<unsigned long long> ull; Slot<short> small;
    Slot<std::string> text;
    Slot< std::vector<long> > nums; Slot< std::vector<std::string> > texts; Slot< std::vector<E> > elems;
    Slot< std::map<std::string, long> > byText; Slot< std::unordered_map<long, std::string> > byNum; Slot< std::map<long, std::vector<E> > > nested;
    Slot< std::shared_ptr<E> > shared; Slot< std::unique_ptr<E> > unique; Slot<E*> raw;
    Slot<N> op; Slot<K> kit;
};
enum { NSlots = 18 };

struct Ctx { int what; long n, m; int mode; int view; Value sub; const char* typeName; };

// The object as the operation sees it.
template<typename T> Value& see(Slot<T>& s, Ctx& c)
{
    if (c.view == 0) return s.v;
    c.sub = c.view == 1 ? s.v.toConst() : s.v.rvalue();
    return c.sub;
}

// fn does it through reflection, md(model, ok) to the model and, if ok, compares the results.
template<typename T, typename Fn, typename Md>
bool perform(Slot<T>& s, Ctx& c, const char* name, bool fits, bool strong, Fn fn, Md md)
{
    uint64_t before;
    { sim::Host host; before = sim::myFaults(); }
    bool ok = false;
    std::string err;
    sim::arm(true);
    try { fn(); ok = true; }
    catch (const std::bad_alloc&) { sim::arm(false); err = "out of memory"; }
    catch (const lib::Failure&) { sim::arm(false); err = "planned failure"; }
    catch (const std::exception& e) { sim::arm(false); err = e.what(); }
    sim::arm(false);
    sim::Host host;
    std::string text = h::format("%s of %s (%ld, %ld, mode %d, view %d)", name, c.typeName, c.n, c.m, c.mode, c.view);
    const char* t = text.c_str();
    const bool faulted = sim::myFaults() != before;
    const auto& now = Mod<T>::read(s.real());
    if (ok) {
        if (!fits) sim::violation("misfit-accepted", "%s succeeded but shouldn't have", t);
        md(*s.model, true);
        if (!(now == *s.model)) sim::violation("wrong-effect", "after %s the object isn't what it should be", t);
        PROBE("library call succeeded");
        return true;
    }
    if (fits && !faulted) sim::violation("rejected", "%s failed: %s", t, std::string(err.data(), err.size()).c_str());
    if (faulted) PROBE("library call failed"); else PROBE("library call rejected");
    if (now == *s.model) return false;
    if (!faulted) sim::violation("object-changed", "%s was rejected but changed the object", t);
    auto next = *s.model;
    if (fits) md(next, false);
    if (strong && !(now == next)) sim::violation("object-changed", "%s failed and left the object in a third state", t);
    *s.model = now;
    return false;
}

void differ(const char* what) { sim::violation("wrong-result", "%s isn't what the direct call gives", what); }

// Hands an argument over in one of the ways.
template<typename A, typename Fn>
void passing(int mode, const A& a, Fn fn)
{
    switch (mode & 3) {
    case 0: { A x(a); fn.template go<A&>(x); } break;
    case 1: fn.template go<A>(A(a)); break;
    case 2: { Value x{ A(a) }; fn.template go<Value&>(x); } break;
    case 3: { Value x{ A(a) }; Value y = x.rvalue(); fn.template go<Value&>(y); } break;
    }
}

template<bool B> struct Bool {};

struct CallWith
{
    Value* v; const char* name; Value* out;
    template<typename A> void go(typename std::remove_reference<A>::type& a) const { Value r = v->call<Value>(name, std::forward<A>(a)); if (out) *out = r; }
    template<typename A> void go(typename std::remove_reference<A>::type&& a) const { Value r = v->call<Value>(name, std::forward<A>(a)); if (out) *out = r; }
};
struct AssignWith
{
    Value* v;
    template<typename A> void go(typename std::remove_reference<A>::type& a) const { v->assign(std::forward<A>(a)); }
    template<typename A> void go(typename std::remove_reference<A>::type&& a) const { v->assign(std::forward<A>(a)); }
};
struct ConstructWith
{
    const Type* t; Value* out;
    template<typename A> void go(typename std::remove_reference<A>::type& a) const { *out = t->construct(std::forward<A>(a)); }
    template<typename A> void go(typename std::remove_reference<A>::type&& a) const { *out = t->construct(std::forward<A>(a)); }
};

// ------------------------------------------------------- what all types have --
template<typename T> bool sameModel(const void* p, const typename Mod<T>::type& m) { return Mod<T>::read(*(const T*) p) == m; }

template<typename T> void common(Slot<T>& s, Ctx& c, Bool<true>) // copiable
{
    Value& v = see(s, c);
    const Type* t = v.type();
    Value r;
    switch (c.what % 5) {
    case 0:
        perform(s, c, "copy", true, true, [&] { r = v.copy(); },
                [&] (typename Mod<T>::type& m, bool ok) { if (ok && (!r.isStored() || r.isConst() || r.value() == s.v.value() || r.type() != t || (c.view < 2 && !sameModel<T>(r.value(), m)))) differ("the copy"); if (c.view == 2) m = Mod<T>::read(s.real()); });
        break;
    case 1: {
        T x = Make<T>::of(c.n); // faults aren't armed here
        typename Mod<T>::type* want;
        { sim::Host h; want = new typename Mod<T>::type(Mod<T>::read(x)); }
        perform(s, c, "assignment", !c.view, false, [&] { passing(c.mode, x, AssignWith{ &v }); },
                [&] (typename Mod<T>::type& m, bool) { m = *want; });
        sim::Host h; delete want; } break;
    case 2: {
        T x = Make<T>::of(c.n);
        typename Mod<T>::type* want;
        { sim::Host h; want = new typename Mod<T>::type(Mod<T>::read(x)); }
        perform(s, c, "construction", true, true, [&] { passing(c.mode, x, ConstructWith{ t, &r }); },
                [&] (typename Mod<T>::type&, bool ok) { if (ok && (!r.isStored() || r.type() != t || !sameModel<T>(r.value(), *want))) differ("the object"); });
        sim::Host h; delete want; } break;
    case 3: {
        T x = T();
        perform(s, c, "default construction", true, true, [&] { r = t->construct(); },
                [&] (typename Mod<T>::type&, bool ok) { if (ok && (!r.isStored() || r.type() != t || !sameModel<T>(r.value(), Mod<T>::read(x)))) differ("the object"); }); } break;
    case 4: {
        size_t size = 0;
        perform(s, c, "sizeof", true, true, [&] { size = t->getValue<size_t>("sizeof"); },
                [&] (typename Mod<T>::type&, bool ok) { if (ok && size != sizeof(T)) differ("the size"); }); } break;
    }
}

template<typename T> void common(Slot<T>& s, Ctx& c, Bool<false>)
{
    Value& v = see(s, c);
    const Type* t = v.type();
    Value r;
    switch (c.what % 4) {
    case 0: perform(s, c, "copy", false, true, [&] { r = v.copy(); }, [&] (typename Mod<T>::type&, bool) {}); break;
    case 1: { // moved in
        T x = Make<T>::of(c.n);
        typename Mod<T>::type* want;
        { sim::Host h; want = new typename Mod<T>::type(Mod<T>::read(x)); }
        bool done = perform(s, c, "move assignment", !c.view, true, [&] {
                    if (c.mode & 1) v.assign(std::move(x));
                    else { Value y(std::move(x)); Value z = y.rvalue(); v.assign(z); } },
                [&] (typename Mod<T>::type& m, bool) { m = *want; });
        bool left = !!x;
        sim::Host h;
        if (done && left) sim::violation("wrong-effect", "what was moved from is still there");
        delete want; } break;
    case 2: perform(s, c, "default construction", true, true, [&] { r = t->construct(); },
                [&] (typename Mod<T>::type&, bool ok) { if (ok && (!r.isStored() || !sameModel<T>(r.value(), Mod<T>::read(T())))) differ("the object"); }); break;
    case 3: { // an lvalue can't be copied
        T x = Make<T>::of(c.n);
        perform(s, c, "copy assignment", false, true, [&] { v.assign(x); }, [&] (typename Mod<T>::type&, bool) {}); } break;
    }
}

// ----------------------------------------------------------------- by type --
template<typename T> void number(Slot<T>& s, Ctx& c)
{
    Value& v = see(s, c);
    typedef decltype(T() + T()) Sum;
    Value r;
    switch (c.what % 4) {
    case 0: {
        T x = Make<T>::of(c.n);
        bool okay = perform(s, c, "operator+", true, true, [&] { passing(c.mode, x, CallWith{ &v, "operator+", &r }); },
                [&] (T&, bool) {});
        if (okay) {
            const Sum& got = r.get<Sum>();
            sim::Host h;
            if (!r.isStored() || got != *s.model + x) differ("the sum");
        } } break;
    case 1: {
        T lo = T(), hi = T();
        perform(s, c, "limits", true, true, [&] { lo = v.type()->getValue<T>("min"); hi = v.type()->getValue<T>("max"); },
                [&] (T&, bool ok) { if (ok && (lo != std::numeric_limits<T>::min() || hi != std::numeric_limits<T>::max())) differ("the limit"); }); } break;
    case 2: {
        T got = T();
        perform(s, c, "get", true, true, [&] { got = v.get<T>(); }, [&] (T& m, bool ok) { if (ok && got != m) differ("the number"); }); } break;
    default: common(s, c, Bool<true>());
    }
}

void text(Slot<std::string>& s, Ctx& c)
{
    Value& v = see(s, c);
    size_t n = 0;
    if (c.what % 3 == 0) perform(s, c, "size", true, true, [&] { n = v.call<size_t>("size"); }, [&] (std::string& m, bool ok) { if (ok && n != m.size()) differ("the size"); });
    else common(s, c, Bool<true>());
}

template<typename T> void vector(Slot< std::vector<T> >& s, Ctx& c)
{
    typedef typename Mod< std::vector<T> >::type M;
    Value& v = see(s, c);
    const bool write = !c.view;
    size_t n = 0, size = s.real().size();
    Value r;
    switch (c.what % 9) {
    case 0: perform(s, c, "size", true, true, [&] { n = v.call<size_t>("size"); }, [&] (M& m, bool ok) { if (ok && n != m.size()) differ("the size"); }); break;
    case 1: perform(s, c, "clear", write, true, [&] { v.call<void>("clear"); }, [&] (M& m, bool) { m.clear(); }); break;
    case 2: {
        size_t to = c.n % 7;
        perform(s, c, "resize", write, true, [&] { passing(c.mode, to, CallWith{ &v, "resize", nullptr }); }, [&] (M& m, bool) { m.resize(to); }); } break;
    case 3: case 4: {
        T x = Make<T>::of(c.n);
        typename Mod<T>::type* want;
        { sim::Host h; want = new typename Mod<T>::type(Mod<T>::read(x)); }
        perform(s, c, "push_back", write && size < 12, true, [&] { if (size < 12) passing(c.mode, x, CallWith{ &v, "push_back", nullptr }); else reflectError("full"); }, [&] (M& m, bool) { m.push_back(*want); });
        sim::Host h; delete want; } break;
    case 5: { // reads and writes an element
        if (!size) return;
        size_t i = c.n % size;
        bool okay = perform(s, c, "operator[]", write, true, [&] { passing(c.mode & 1, i, CallWith{ &v, "operator[]", &r }); },
                [&] (M&, bool ok) { if (ok && (r.value() != &s.real()[i] || r.isConst() || r.isStored())) differ("the element"); });
        if (okay && c.mode & 2) {
            T x = Make<T>::of(c.m);
            typename Mod<T>::type* want;
            { sim::Host h; want = new typename Mod<T>::type(Mod<T>::read(x)); }
            perform(s, c, "assignment to an element", true, false, [&] { r.assign(x); }, [&] (M& m, bool) { m[i] = *want; });
            sim::Host h; delete want;
        } } break;
    case 6: {
        size_t i = c.m % 3 ? c.n % (size + 1) : c.n % 2 ? size : size + c.n;
        perform(s, c, "at", i < size, true, [&] { passing(c.mode, i, CallWith{ &v, "at", &r }); },
                [&] (M&, bool ok) { if (ok && (r.value() != &s.real()[i] || !r.isConst() || r.isStored())) differ("the element"); }); } break;
    default: common(s, c, Bool<true>());
    }
}

template<typename Map, typename K, typename V> void map(Slot<Map>& s, Ctx& c)
{
    typedef typename Mod<Map>::type M;
    Value& v = see(s, c);
    const bool write = !c.view;
    size_t n = 0;
    Value r;
    K k = Make<K>::of(c.n % 12);
    const bool has = s.real().count(k);
    const void* at = has ? &s.real().find(k)->second : nullptr;
    K* mk;
    { sim::Host h; mk = new K(Mod<K>::read(k)); }
    switch (c.what % 9) {
    case 0: perform(s, c, "size", true, true, [&] { n = v.call<size_t>("size"); }, [&] (M& m, bool ok) { if (ok && n != m.size()) differ("the size"); }); break;
    case 1: perform(s, c, "count", true, true, [&] { passing(c.mode, k, CallWith{ &v, "count", &r }); n = r.get<size_t>(); }, [&] (M&, bool ok) { if (ok && n != has) differ("the count"); }); break;
    case 2: case 3: case 4: {
        bool okay = perform(s, c, "operator[]", write, true, [&] { passing(c.mode, k, CallWith{ &v, "operator[]", &r }); },
                [&] (M& m, bool ok) {
                    m[*mk];
                    if (!ok) return;
                    auto it = s.real().find(k);
                    if (it == s.real().end() || r.value() != &it->second || r.isConst() || r.isStored()) differ("the element"); });
        if (okay) {
            V x = Make<V>::of(c.m);
            typename Mod<V>::type* want;
            { sim::Host h; want = new typename Mod<V>::type(Mod<V>::read(x)); }
            perform(s, c, "assignment to an element", true, false, [&] { r.assign(x); }, [&] (M& m, bool) { m[*mk] = *want; });
            sim::Host h; delete want;
        } } break;
    case 5: perform(s, c, "at", has, true, [&] { passing(c.mode, k, CallWith{ &v, "at", &r }); },
            [&] (M&, bool ok) { if (ok && (r.value() != at || !r.isConst() || r.isStored())) differ("the element"); }); break;
    case 6: {
        const std::vector<K>* keys = nullptr;
        perform(s, c, "keys", true, true, [&] { r = v.call<Value>("keys"); keys = &r.get< std::vector<K> >(); },
            [&] (M& m, bool ok) {
                if (!ok) return;
                auto mine = Mod< std::vector<K> >::read(*keys);
                std::sort(mine.begin(), mine.end());
                bool same = mine.size() == m.size();
                if (same) { size_t i = 0; for (auto& x : m) if (!(x.first == mine[i++])) same = false; }
                if (!same || !r.isStored()) differ("the list of keys"); }); } break;
    default: common(s, c, Bool<true>());
    }
    sim::Host h; delete mk;
}

template<typename P> void release(Slot<P>&, Ctx&) {}
void release(Slot< std::unique_ptr<E> >& s, Ctx& c)
{
    Value& v = see(s, c);
    E* got = nullptr; E* was = s.real().get();
    perform(s, c, "release", !c.view, false, [&] { got = v.call<E*>("release"); },
            [&] (PM& m, bool ok) { m = PM{ false, 0 }; if (ok && got != was) differ("the pointer"); });
    if (!s.real().get() && was) delete was; // even if the result got lost
}

template<typename P> void smart(Slot<P>& s, Ctx& c)
{
    Value& v = see(s, c);
    const bool write = !c.view;
    E* was = s.real().get();
    const Type* t = v.type();
    Value r;
    switch (c.what % 10) {
    case 0: { E* got = nullptr; perform(s, c, "get", true, true, [&] { got = v.call<E*>("get"); }, [&] (PM&, bool ok) { if (ok && got != was) differ("the pointer"); }); } break;
    case 1: { bool yes = false; perform(s, c, "operator bool", true, true, [&] { yes = (bool) v; }, [&] (PM&, bool ok) { if (ok && yes != !!was) differ("the answer"); }); } break;
    case 2: if (was) perform(s, c, "operator*", true, true, [&] { r = *v; }, [&] (PM&, bool ok) { if (ok && (r.value() != was || r.isConst() || r.isStored())) differ("the pointee"); }); break;
    case 3: perform(s, c, "reset()", write, true, [&] { v.call<void>("reset"); }, [&] (PM& m, bool) { m = PM{ false, 0 }; }); break;
    case 4: case 5: {
        E* e = new E(c.n);
        perform(s, c, "reset(pointer)", write, false, [&] { v.call<void>("reset", e); }, [&] (PM& m, bool) { m = PM{ true, c.n }; });
        bool left = s.real().get() != e;
        { sim::Host h; left = left && lib::alive->count(e); }
        if (left) delete e; } break; // wasn't handed over
    case 6: {
        E* e = new E(c.n);
        Value made;
        perform(s, c, "construction from a pointer", true, true, [&] { made = t->construct(e); },
                [&] (PM&, bool ok) { if (ok && (!made.isStored() || made.type() != t || ((const P*) made.value())->get() != e)) differ("the pointer"); });
        bool left;
        made = Value();
        { sim::Host h; left = lib::alive->count(e); }
        if (left) delete e; } break;
    case 7: { // with itself and another
        P other = Make<P>::of(c.n);
        bool equal = false, same = c.mode & 1;
        perform(s, c, "operator==", true, true, [&] { equal = same ? v == s.v : v == other; }, [&] (PM&, bool ok) { if (ok && equal != (same || (!was && !other))) differ("the comparison"); }); } break;
    case 8: release(s, c); break;
    default: common(s, c, Bool<std::is_copy_constructible<P>::value>());
    }
}

void raw(Slot<E*>& s, Ctx& c)
{
    Value& v = see(s, c);
    E* was = s.real();
    Value r;
    switch (c.what % 4) {
    case 0: { bool yes = false; perform(s, c, "operator bool", true, true, [&] { yes = (bool) v; }, [&] (PM&, bool ok) { if (ok && yes != !!was) differ("the answer"); }); } break;
    case 1: if (was && c.view != 2) perform(s, c, "operator*", true, true, [&] { r = *v; }, [&] (PM&, bool ok) { if (ok && (r.value() != was || r.isConst() != (c.view == 1) || r.isStored())) differ("the pointee"); }); break;
    case 2: { E* got = nullptr; perform(s, c, "get", true, true, [&] { got = v.get<E*>(); }, [&] (PM&, bool ok) { if (ok && got != was) differ("the pointer"); }); } break;
    default: common(s, c, Bool<true>());
    }
}

void op(Slot<N>& s, Ctx& c)
{
    typedef std::vector<long> M;
    Value& v = see(s, c);
    const bool write = !c.view;
    long before = s.real().v;
    N x(c.n);
    Value r, arg(N(c.n));
    bool yes = false;
    auto self = [&] (M&, bool ok) { if (ok && (r.value() != &s.real() || r.isConst() || r.isStored())) differ("the reference"); };
    auto fresh = [&] (long want) { return [&r, want] (M&, bool ok) { if (ok && (!r.isStored() || ((const N*) r.value())->v != want)) differ("the result"); }; };
    switch (c.what % 42) {
#define LIB_ASSIGN(i, op, id) case i: perform(s, c, "operator" #op, write, true, [&] { r = c.mode & 1 ? (v op x) : (v op arg); }, [&] (M& m, bool ok) { m[0] = N::mix(before, c.n, id); self(m, ok); }); break;
    LIB_ASSIGN(0, +=, 1) LIB_ASSIGN(1, -=, 2) LIB_ASSIGN(2, *=, 3) LIB_ASSIGN(3, /=, 4) LIB_ASSIGN(4, %=, 5) LIB_ASSIGN(5, &=, 6) LIB_ASSIGN(6, |=, 7) LIB_ASSIGN(7, ^=, 8) LIB_ASSIGN(8, <<=, 9) LIB_ASSIGN(9, >>=, 10)
#define LIB_ARITH(i, op, id) case i: perform(s, c, "operator" #op, true, true, [&] { r = c.mode & 1 ? (v op x) : (v op arg); }, fresh(N::mix(before, c.n, id))); break;
    LIB_ARITH(10, +, 11) LIB_ARITH(11, -, 12) LIB_ARITH(12, *, 13) LIB_ARITH(13, /, 14) LIB_ARITH(14, %, 15) LIB_ARITH(15, &, 16) LIB_ARITH(16, |, 17) LIB_ARITH(17, ^, 18) LIB_ARITH(18, <<, 19) LIB_ARITH(19, >>, 20)
    case 20: perform(s, c, "operator~", true, true, [&] { r = ~v; }, fresh(N::mix(before, 0, 21))); break;
    case 21: perform(s, c, "++x", write, true, [&] { r = ++v; }, [&] (M& m, bool ok) { m[0] = N::mix(before, 0, 22); self(m, ok); }); break;
    case 22: perform(s, c, "--x", write, true, [&] { r = --v; }, [&] (M& m, bool ok) { m[0] = N::mix(before, 0, 23); self(m, ok); }); break;
    case 23: perform(s, c, "x++", write, true, [&] { r = v.call<Value>("operator++", 0); }, [&] (M& m, bool ok) { m[0] = N::mix(before, 0, 24); fresh(before)(m, ok); }); break;
    case 24: perform(s, c, "x--", write, true, [&] { r = v.call<Value>("operator--", 0); }, [&] (M& m, bool ok) { m[0] = N::mix(before, 0, 25); fresh(before)(m, ok); }); break;
    case 25: perform(s, c, "operator!", true, true, [&] { yes = !v; }, [&] (M&, bool ok) { if (ok && yes != N::bit(before, 0, 26)) differ("the answer"); }); break;
#define LIB_BOOL(i, op, id) case i: perform(s, c, "operator" #op, true, true, [&] { yes = c.mode & 1 ? (v op x) : (v op arg); }, [&] (M&, bool ok) { if (ok && yes != N::bit(before, c.n, id)) differ("the answer"); }); break;
    LIB_BOOL(26, &&, 27) LIB_BOOL(27, ||, 28) LIB_BOOL(28, ==, 29) LIB_BOOL(29, !=, 30) LIB_BOOL(30, <, 31) LIB_BOOL(31, >, 32) LIB_BOOL(32, <=, 33) LIB_BOOL(33, >=, 34)
    case 34: perform(s, c, "operator()", true, true, [&] { r = v((long) c.n, (long) c.m); }, fresh(N::mix(c.n, c.m, before))); break;
    case 35: {
        bool okay = perform(s, c, "operator[]", write, true, [&] { r = v[(long) c.n]; }, [&] (M&, bool ok) { if (ok && (r.value() != &s.real().slots[c.n & 3] || r.isConst() || r.isStored())) differ("the element"); });
        if (okay) perform(s, c, "assignment to an element", true, true, [&] { r.assign((long) c.m); }, [&] (M& m, bool) { m[1 + (c.n & 3)] = c.m; }); } break;
    case 36: perform(s, c, "operator bool", false, true, [&] { yes = (bool) v; }, [&] (M&, bool) {}); break; // there's none
    case 37: perform(s, c, "operator*()", false, true, [&] { r = *v; }, [&] (M&, bool) {}); break;
    default: common(s, c, Bool<true>());
    }
}

struct ScopeCall
{
    Scope* s; const char* name; long* out;
    template<typename A> void go(typename std::remove_reference<A>::type& a) const { *out = s->call<long>(name, std::forward<A>(a)); }
    template<typename A> void go(typename std::remove_reference<A>::type&& a) const { *out = s->call<long>(name, std::forward<A>(a)); }
};
struct ScopeSet
{
    Scope* s; const char* name;
    template<typename A> void go(typename std::remove_reference<A>::type& a) const { s->call<void>(name, std::forward<A>(a)); }
    template<typename A> void go(typename std::remove_reference<A>::type&& a) const { s->call<void>(name, std::forward<A>(a)); }
};

void kit(Slot<K>& s, Ctx& c)
{
    typedef std::vector<long> M;
    Value& v = see(s, c);
    const Type* t = v.type();
    const bool write = !c.view;
    const long a = s.real().v, b = s.real().w;
    std::string txt = Make<std::string>::of(c.n);
    const long len = txt.size();
    Value r;
    long got = -1;
    Scope* g = nullptr;
    const bool deep = c.m & 1;
    auto gives = [&] (long want) { return [&r, want] (M&, bool ok) { if (ok && (!r.isStored() || *(const long*) r.value() != want)) differ("the result"); }; };
    auto is = [&] (long want) { return [&got, want] (M&, bool ok) { if (ok && got != want) differ("the result"); }; };
    auto refers = [&] (const void* p, bool constant) { if (r.value() != p || r.isStored() || r.isConst() != constant) differ("the reference"); };
    if (c.what % 30 >= 13 && c.what % 30 < 25) g = deep ? scope("lib") : scope();
#define LIB_NAME(n) (deep ? n : "lib::" n)
    switch (c.what % 30) {
    case 0: perform(s, c, "over(number)", true, true, [&] { passing(c.mode, c.n, CallWith{ &v, "over", &r }); }, gives(a * 3 + c.n)); break;
    case 1: perform(s, c, "over(text)", write, true, [&] { passing(c.mode, txt, CallWith{ &v, "over", &r }); }, [&] (M& m, bool ok) { m[1] = len; gives(a)(m, ok); }); break;
    case 2: perform(s, c, "over()", write, true, [&] { r = v.call<Value>("over"); }, [&] (M& m, bool ok) { m[0]++; gives(a)(m, ok); }); break;
    case 3: {
        bool ok = perform(s, c, "at()", write, true, [&] { r = v.call<Value>("at"); }, [&] (M&, bool ok) { if (ok) refers(&s.real().w, false); });
        if (ok) perform(s, c, "assignment to what at() gave", true, true, [&] { r.assign(c.n); }, [&] (M& m, bool) { m[1] = c.n; }); } break;
    case 4: perform(s, c, "first()", true, true, [&] { r = v.call<Value>("first"); }, [&] (M&, bool ok) { if (ok) refers(&s.real().v, true); }); break;
    case 5: perform(s, c, "twice(number)", true, true, [&] { got = t->call<long>("twice", c.n); }, is(c.n * 2)); break;
    case 6: perform(s, c, "conversion to short", true, true, [&] { got = v.convert<short>(type<short>()); }, is(a % 1000 + 100)); break;
    case 7: perform(s, c, "grow(number)", write, true, [&] { v.call<void>("grow", c.n); }, [&] (M& m, bool) { m[0] += c.n; }); break;
    case 8: perform(s, c, "sum()", true, true, [&] { r = v.call<Value>("sum"); }, gives(a + b)); break;
    case 9: perform(s, c, "K(number)", true, true, [&] { passing(c.mode, c.n, ConstructWith{ t, &r }); },
                [&] (M&, bool ok) { if (ok && (!r.isStored() || r.type() != t || !sameModel<K>(r.value(), M{ c.n, c.n / 2 }))) differ("the object"); }); break;
    case 10: perform(s, c, "K(number, text)", true, true, [&] { r = t->construct(c.m, txt); },
                [&] (M&, bool ok) { if (ok && (!r.isStored() || r.type() != t || !sameModel<K>(r.value(), M{ c.m, len }))) differ("the object"); }); break;
    case 11: perform(s, c, "K(text)", false, true, [&] { r = t->construct(txt); }, [&] (M&, bool) {}); break;
    case 12: perform(s, c, "over(object)", false, true, [&] { r = v.call<Value>("over", E()); }, [&] (M&, bool) {}); break;
    case 13: case 14: perform(s, c, "global(number)", true, true, [&] { passing(c.mode, c.n, ScopeCall{ g, LIB_NAME("global"), &got }); }, is(c.n * 5)); break;
    case 15: case 16: perform(s, c, "overloaded(number)", true, true, [&] { passing(c.mode, c.n, ScopeCall{ g, LIB_NAME("overloaded"), &got }); }, is(c.n + 1)); break;
    case 17: perform(s, c, "overloaded(text)", true, true, [&] { passing(c.mode, txt, ScopeCall{ g, LIB_NAME("overloaded"), &got }); }, is(1000 + len)); break;
    case 18: perform(s, c, "the constant", true, true, [&] { got = g->call<long>(LIB_NAME("fixed")); }, is(77)); break;
    case 19: perform(s, c, "the constant = number", false, true, [&] { g->call<void>(LIB_NAME("fixed"), c.n); }, [&] (M&, bool) {}); break;
    case 20: case 21: if (alone) {
        bool ok = perform(s, c, "the variable = number", true, true, [&] { passing(c.mode, c.n, ScopeSet{ g, LIB_NAME("counter") }); }, [&] (M&, bool ok) { if (ok && lib::counter != c.n) differ("the variable"); });
        long now = lib::counter;
        if (ok) perform(s, c, "the variable", true, true, [&] { got = g->call<long>(LIB_NAME("counter")); }, is(now)); } break;
    case 22: case 23: if (alone) {
        std::string before = lib::word, read;
        bool ok = perform(s, c, "the text = text", true, true, [&] { passing(c.mode, txt, ScopeSet{ g, LIB_NAME("word") }); }, [&] (M&, bool ok) { if (ok && lib::word != txt) differ("the text"); });
        if (!ok && lib::word != before && lib::word != txt) { sim::Host h; differ("the text after a failure"); }
        std::string now = lib::word;
        bool again = perform(s, c, "the text", true, true, [&] { read = g->call<std::string>(LIB_NAME("word")); }, [&] (M&, bool) {});
        if (again && read != now) { sim::Host h; differ("the text"); } } break;
    case 24: perform(s, c, "an unknown function", false, true, [&] { g->call<void>(LIB_NAME("nothing")); }, [&] (M&, bool) {}); break;
    case 25: {
        bool ok = t->is("marked") && t->getValue<long>("weight") == 12 && t->field("v").is("first") && t->field("v").getValue<long>("place") == 17
            && !t->field("w").is("first") && t->function("over").is("several") && t->function("over").getValue<long>("count") == 3 && !t->function("grow").is("several")
            && scope("lib")->is("open") && scope("lib")->getValue<long>("height") == 31 && !scope()->is("open");
        if (!ok) { sim::Host h; differ("a trait"); } } break;
    case 26: perform(s, c, "the field", true, true, [&] { r = v.field<Value>("w"); }, [&] (M&, bool ok) { if (ok) refers(&s.real().w, c.view == 1); }); break;
    default: common(s, c, Bool<true>());
    }
}

// ------------------------------------------------------------------- the run --
template<typename T> void make(Slot<T>& s, long n, bool own)
{
    if (s.model) return;
    if (own) { s.own = new T(Make<T>::of(n)); s.v = Value(*s.own); }
    else s.v = Value(Make<T>::of(n));
    sim::Host h;
    s.model = new typename Mod<T>::type(Mod<T>::read(s.real()));
}
template<typename T> void finish(Slot<T>& s)
{
    if (!s.model) return;
    s.v = Value();
    delete s.own;
    sim::Host h;
    delete s.model;
}

Slots* slots[sim::MaxThreads + 1];

void each(const h::Op& o)
{
    int t = sim::tid();
    Slots& s = *slots[t];
    Ctx c;
    long k = (unsigned long) o.num(0) % NSlots;
    c.what = (unsigned long) o.num(1) % 1000; c.n = (unsigned long) o.num(2) % 1000; c.m = (unsigned long) o.num(3) % 1000;
    c.mode = o.num(4) & 3; c.view = (unsigned long) o.num(5) % 3;
    bool own = o.num(6) & 1;
    switch (k) {
#define LIB_CASE(i, field, call) case i: c.typeName = #field; make(s.field, c.m, own); call; break;
    LIB_CASE(0, num, number(s.num, c))
    LIB_CASE(1, real, number(s.real, c))
    LIB_CASE(2, flag, number(s.flag, c))
    LIB_CASE(3, byte, number(s.byte, c))
    LIB_CASE(4, ull, number(s.ull, c))
    LIB_CASE(5, small, number(s.small, c))
    LIB_CASE(6, text, text(s.text, c))
    LIB_CASE(7, nums, vector(s.nums, c))
    LIB_CASE(8, texts, vector(s.texts, c))
    LIB_CASE(9, elems, vector(s.elems, c))
    case 10: c.typeName = "byText"; make(s.byText, c.m, own); map<std::map<std::string, long>, std::string, long>(s.byText, c); break;
    case 11: c.typeName = "byNum"; make(s.byNum, c.m, own); map<std::unordered_map<long, std::string>, long, std::string>(s.byNum, c); break;
    case 12: c.typeName = "nested"; make(s.nested, c.m, own); map<std::map<long, std::vector<E> >, long, std::vector<E> >(s.nested, c); break;
    LIB_CASE(13, shared, smart(s.shared, c))
    LIB_CASE(14, unique, smart(s.unique, c))
    LIB_CASE(15, raw, raw(s.raw, c))
    LIB_CASE(16, op, op(s.op, c))
    LIB_CASE(17, kit, kit(s.kit, c))
    }
}

template<typename T> void unchanged(Slot<T>& s, const char* name)
{
    if (!s.model) return;
    sim::Host h;
    if (!(Mod<T>::read(s.real()) == *s.model)) sim::violation("object-changed", "an operation on another object changed %s", name);
}

void threadFn(const h::Plan& plan, int tid)
{
    slots[tid] = new Slots();
    Slots& s = *slots[tid];
    for (auto& o : plan.ops) if (o.thread == tid && o.name == "do") each(o);
#define ALL(f) f(num) f(real) f(flag) f(byte) f(ull) f(small) f(text) f(nums) f(texts) f(elems) f(byText) f(byNum) f(nested) f(shared) f(unique) f(raw) f(op) f(kit)
#define UNCHANGED(x) unchanged(s.x, #x);
#define FINISH(x) finish(s.x);
    ALL(UNCHANGED)
    ALL(FINISH)
    delete slots[tid];
}

void setup(const h::Plan& plan)
{
    for (int i = 0; i < 4; ++i) pointees[i] = new E(40 + i);
    lib::counter = 0; lib::word = "";
    globals();
    if (plan.num("cold")) return;
    type<long>(); type< std::vector<E> >(); type< std::map<long, std::vector<E> > >(); type< std::shared_ptr<E> >(); type< std::unique_ptr<E> >(); type<E*>(); type<N>(); type<K>();
}

void finale(const h::Plan&)
{
    for (int i = 0; i < 4; ++i) delete pointees[i];
    std::string().swap(lib::word);
    sim::Host h;
    if (!lib::alive->empty()) sim::violation("never-destroyed", "%zu elements are left in the end", lib::alive->size());
}

void exec(const h::Plan& plan, const std::string*)
{
    lib::alive = new std::set<const void*>();
    alone = plan.threads == 1;
    h::runOne(setup, plan);
    h::runThreads(plan, plan.threads, threadFn);
    h::runOne(finale, plan);
    sim::nontrivial();
}

void gen(sim::Rng& rng, h::Plan& plan)
{
    plan.threads = rng.chance(1, 5) ? 2 : 1;
    plan.set("cold", rng.chance(1, 6));
    long focus = rng.below(NSlots), focus2 = rng.below(NSlots);
    int k = 2 + rng.below(14);
    for (int t = 0; t < plan.threads; ++t)
        for (int i = 0; i < k; ++i) {
            long slot = rng.chance(1, 3) ? rng.below(NSlots) : rng.chance(1, 2) ? focus : focus2;
            if (rng.chance(1, 6)) slot = 16 + rng.below(2);
            plan.add(t, "do") << slot << (long) rng.below(720) << (long) rng.below(1000) << (long) rng.below(1000) << (long) rng.below(4)
                << (long)(rng.chance(3, 4) ? 0 : 1 + rng.below(2)) << (long) rng.below(2);
        }
    if (rng.chance(1, 2)) {
        int span = 1 << (1 + rng.below(9));
        for (int i = 1 + rng.below(3); i > 0; --i) plan.allocFaults.push_back(1 + rng.below(span));
        std::sort(plan.allocFaults.begin(), plan.allocFaults.end());
    }
    if (rng.chance(1, 3)) {
        int span = 1 << (1 + rng.below(5));
        for (int i = 1 + rng.below(2); i > 0; --i) plan.userFaults.push_back(1 + rng.below(span));
        std::sort(plan.userFaults.begin(), plan.userFaults.end());
    }
    h::setSchedule(rng, plan);
}

struct Init { Init() { h::add({ "C15", "library", 8, gen, exec, nullptr, false }); } } init;

} // namespace anonymous
