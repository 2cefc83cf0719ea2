// js.h - the types that JSON workloads use, documents for them, and an
// independent reading of JSON.
#pragma once

#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/smart_ptr.h"
#include "types/std/map.h"
#include "utils/json/json.h"
#include "../sim/plan.h"

#include <memory>
#include <streambuf>
#include <unordered_map>

namespace js {

// ---------------------------------------------------------- reading (host) --
// A reading of JSON that's independent of the library's: accepts what the
// library documents or accepts on purpose (any white space, comments when they
// are allowed, 01, 1. and -.5 as numbers).
struct Tree
{
    enum Kind { None, Null, Bool, Num, Str, Arr, Obj } kind;
    bool b;
    std::string s; // string, or text of the number
    std::vector<Tree> items;
    std::vector<std::string> keys;
    Tree() : kind(None), b(false) {}
};
// Length of the value at the start of the text, white space before it included;
// npos if there's no complete one. *self: whether its end can be told from the
// bytes up to it (false for numbers).
// strict: as the library reads it and not just what it may accept: numbers begin
// with a sign or a digit, surrogates come in pairs. escaped: \u escapes are kept. *stop: how many bytes it
// takes to see that there's none.
size_t scan(const std::string& text, bool comments, Tree* tree = nullptr, bool* self = nullptr, bool utf8 = false, bool strict = false, bool escaped = false, size_t* stop = nullptr);

// ------------------------------------------------------------------- types --
struct Money // JSON by custom functions: a string
{
    int64_t amount; std::string unit;
    Money() : amount(0) {}
    void parseJson(reflect::json::Reader& reader);
    void printJson(reflect::json::Writer& writer) const;
};

struct Point // JSON by custom functions that use the array and object helpers
{
    int64_t x, y; std::string tag;
    Point() : x(0), y(0) {}
    void parseJson(reflect::json::Reader& reader);
    void printJson(reflect::json::Writer& writer) const;
};

enum { Skip = 1 };

struct Leaf
{
    int64_t i; double f; bool b; std::string s;
    Leaf() : i(0), f(0), b(false) {}
    template<class V> void each(V& v) { v("i", i); v("f", f); v("b", b); v("s", s); }
};

struct Node
{
    int64_t id; std::string name; std::vector<int64_t> nums; std::map<std::string, double> map;
    std::shared_ptr<Node> next; std::vector<Node> kids; Leaf leaf; Money price; Point at;
    int64_t opt; std::string optName, hidden; std::map<std::string, Leaf> leaves;
    Node() : id(0), opt(0), hidden("x") {} // hidden is of no concern to JSON
    template<class V> void each(V& v)
    {
        v("id", id); v("name", name); v("nums", nums); v("map", map); v("next", next); v("kids", kids);
        v("leaf", leaf); v("price", price); v("at", at); v("opt", opt); v("a/\"b\"", optName); v("leaves", leaves);
    }
};

struct Pong;
struct Ping // mutually recursive
{
    bool b; std::shared_ptr<Pong> pong; std::vector<Ping> pings;
    Ping() : b(false) {}
    template<class V> void each(V& v) { v("b", b); v("pong", pong); v("pings", pings); }
};
struct Pong
{
    std::map<std::string, Ping> pings; std::vector< std::vector<bool> >* unused; Ping ping;
    Pong() : unused(nullptr) {}
    template<class V> void each(V& v) { v("pings", pings); v("ping", ping); }
};

struct Holder // not copyable
{
    std::unique_ptr<Leaf> leaf; std::unique_ptr<Holder> inner; int64_t n;
    Holder() : n(0) {}
    template<class V> void each(V& v) { v("leaf", leaf); v("inner", inner); v("n", n); }
};

struct Raw // raw pointers
{
    Leaf* p; std::string* s; int64_t n;
    Raw() : p(nullptr), s(nullptr), n(0) {}
    Raw(const Raw& o) : p(o.p ? new Leaf(*o.p) : nullptr), s(o.s ? new std::string(*o.s) : nullptr), n(o.n) {}
    Raw& operator= (const Raw& o) { Raw c(o); std::swap(p, c.p); std::swap(s, c.s); std::swap(n, c.n); return *this; }
    ~Raw() { delete p; delete s; }
    template<class V> void each(V& v) { v("p", p); v("s", s); v("n", n); }
};

struct Nums // all the other numbers
{
    char c; signed char sc; unsigned char uc; short sh; unsigned short us; int i; unsigned u;
    unsigned long ul; long long ll; unsigned long long ull; float f; long double ld;
    std::shared_ptr<int> pi; std::vector<short> shorts; std::map<std::string, float> floats;
    Nums() : c(0), sc(0), uc(0), sh(0), us(0), i(0), u(0), ul(0), ll(0), ull(0), f(0), ld(0) {}
    template<class V> void each(V& v)
    {
        v("c", c); v("sc", sc); v("uc", uc); v("sh", sh); v("us", us); v("i", i); v("u", u); v("ul", ul); v("ll", ll); v("ull", ull);
        v("f", f); v("ld", ld); v("pi", pi); v("shorts", shorts); v("floats", floats);
    }
};

struct Deriv : Leaf // inherits fields
{
    int64_t extra; std::vector<Leaf> leaves;
    Deriv() : extra(0) {}
    template<class V> void each(V& v) { Leaf::each(v); v("extra", extra); v("leaves", leaves); }
};

typedef std::vector<int64_t> Ints;
typedef std::vector<std::string> Strings;
typedef std::map<std::string, int64_t> IntMap;
typedef std::vector< std::vector<double> > Matrix;
typedef std::map<std::string, Node> NodeMap;
typedef std::map<std::string, Strings> StringsMap;
typedef std::unordered_map<std::string, Leaf> Hash;

// Types whose JSON description is invalid.
struct Dup // two fields with one key
{
    int64_t a, b;
    Dup() : a(0), b(0) {}
    template<class V> void each(V& v) { v("a", a); v("b", b); }
};
struct NoFn // custom functions that don't exist
{
    int64_t a;
    NoFn() : a(0) {}
    template<class V> void each(V& v) { v("a", a); }
};
struct Inner // refers to an invalid one
{
    Leaf leaf; std::shared_ptr<Inner> self; Dup dup;
    template<class V> void each(V& v) { v("leaf", leaf); v("self", self); v("dup", dup); }
};
struct Ring
{
    Leaf leaf; std::vector<Ring> ring; std::shared_ptr<Inner> inner;
    template<class V> void each(V& v) { v("leaf", leaf); v("ring", ring); v("inner", inner); }
};

// ------------------------------------------------------------------- kinds --
enum Kind
{
    KInt, KDouble, KBool, KString, KInts, KStrings, KIntMap, KMatrix, KLeaf, KMoney, KPoint,
    KNode, KNodes, KNodeMap, KNodePtr, KPing, KPong, KHolder, KLeafPtrs, KRaw, KStringsMap, KNums, KDeriv, KHash, KAny,
    NKinds,
    KDup = NKinds, KNoFn, KInner, KRing, NAll
};
const char* kindName(int kind);

// An object of some kind. make/destroy and parse/print are simulated code.
struct Obj
{
    int kind; void* p;
    explicit Obj(int kind);
    ~Obj();
    Obj(const Obj&) = delete;

    void fill(const Tree& tree);                     // sim: give it a value directly
    void parse(reflect::json::Reader& reader);       // reflect::json
    reflect::Error parse(std::istream& stream);
    reflect::Error parse(const std::string& text);
    reflect::Error print(reflect::json::Writer& writer) const;
    reflect::Error print(std::ostream& stream) const;
    std::pair<std::string, reflect::Error> print() const;
    std::string dump() const;                        // canonical text (sim for KAny)
};

// ------------------------------------------------------------------- model --
// What reading a document into an object does to it: sim code that doesn't use
// the library. False if the document doesn't fit the type.
bool apply(const Tree& tree, Obj& obj);
// What's wrong with a document that's said to be the object, if anything: host.
std::string disagrees(const Tree& tree, const Obj& obj, unsigned opts);
// Whether the object can be printed: yes (1), no (0), either (-1). Host.
int printable(const Obj& obj, unsigned opts);
bool duplicateKeys(const Tree& tree);

// ---------------------------------------------------------------- documents --
// A document for a kind. plain: each field once, nothing unknown, no odd white
// space, suitable for fill.
std::string genDoc(sim::Rng& rng, int kind, int size, bool plain, bool comments = false);
const reflect::Type* someType(int k);    // sim
std::string valueText(const Tree& tree);  // host: the dump of the KAny that the document is
bool structural(int kind); // documents end with their last byte

// Changes to a document.
std::string damage(sim::Rng& rng, const std::string& doc);

// ------------------------------------------------------------------ streams --
// Delivers bytes in given pieces. Nothing can be put back.
struct Chunked : std::streambuf
{
    std::string data; std::vector<int> sizes; // host
    size_t next, piece, failAt; int failKind;
    size_t waits;   // how far a read has waited for
    char window[64];
    Chunked(const std::string& data, const std::vector<int>& sizes, size_t failAt = ~size_t(0), int failKind = 0);
    size_t consumed() const { return next - (egptr() - gptr()); }
protected:
    int_type underflow();
};

// Accepts bytes until it fails.
struct Sink : std::streambuf
{
    enum Fail { Eof, Short, Throw, NoMemory, ThrowInt };
    std::string got;  // host: what was accepted
    size_t failAt, failLen; int failKind; bool failed; size_t buffered;
    std::vector<char> buf;
    size_t lost, calls;
    explicit Sink(size_t failAt = ~size_t(0), int failKind = 0, size_t failLen = ~size_t(0), size_t buffer = 0);
    std::string accepted() const;
protected:
    int_type overflow(int_type c);
    std::streamsize xsputn(const char* s, std::streamsize n);
    int sync();
private:
    size_t take(const char* s, size_t n);
    bool flush();
};

// A well-formed document with something in it that's much longer.
std::string stretch(sim::Rng& rng, const std::string& d, int bits = 17);
std::vector<int> genChunks(sim::Rng& rng, size_t n);
std::string chunkText(const std::vector<int>& c);
std::vector<int> chunkList(const std::string& s);
std::string str(const std::string& s); // a copy in memory of the caller's kind

} // namespace js
