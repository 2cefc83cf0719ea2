// js_model.cpp - what JSON documents mean for the types of js.h, independently
// of the library: reading a document into an object, and judging a document that
// is said to be an object's.
#include "js.h"

#include <errno.h>
#include <math.h>
#include <stdlib.h>
#include <limits>
#include <set>
#include <type_traits>

using namespace reflect;

namespace js {
namespace {

bool integer(const Tree& t, int64_t& v)
{
    if (t.kind != Tree::Num || t.s.find_first_of(".eE") != std::string::npos) return false;
    errno = 0;
    v = strtoll(t.s.c_str(), nullptr, 10);
    return !errno;
}
bool real(const Tree& t, double& v)
{
    if (t.kind != Tree::Num) return false;
    v = strtod(t.s.c_str(), nullptr);
    return std::isfinite(v);
}

// -------------------------------------------------------------------- apply --
struct Apply;
bool take(const Tree& t, bool& v) { if (t.kind != Tree::Bool) return false; v = t.b; return true; }
bool take(const Tree& t, std::string& v) { if (t.kind != Tree::Str) return false; v = str(t.s); return true; }
template<class T> typename std::enable_if<std::is_integral<T>::value, bool>::type take(const Tree& t, T& v)
{
    int64_t i;
    if (!integer(t, i)) return false;
    if (std::is_unsigned<T>::value && i < 0) return false;
    if (sizeof(T) < sizeof i && (i < (int64_t) std::numeric_limits<T>::min() || i > (int64_t) std::numeric_limits<T>::max())) return false;
    v = (T) i;
    return true;
}
template<class T> typename std::enable_if<std::is_floating_point<T>::value, bool>::type take(const Tree& t, T& v)
{
    double d;
    if (!real(t, d)) return false;
    if (sizeof(T) < sizeof d && fabs(d) > (double) std::numeric_limits<T>::max()) return false;
    v = (T) d;
    return true;
}
bool take(const Tree& t, Money& v)
{
    if (t.kind != Tree::Str) return false;
    size_t k = t.s.find(' ');
    if (k == std::string::npos) return false;
    v.amount = strtoll(t.s.c_str(), nullptr, 10);
    v.unit = str(t.s.substr(k + 1));
    return true;
}
bool take(const Tree& t, Point& v)
{
    if (t.kind == Tree::Null) return true;
    if (t.kind != Tree::Obj) return false;
    for (size_t i = 0; i < t.items.size(); ++i) {
        const Tree& x = t.items[i];
        if (t.keys[i] == "tag") { if (!take(x, v.tag)) return false; }
        else if (t.keys[i] == "at" && x.kind != Tree::Null) {
            if (x.kind != Tree::Arr || x.items.size() > 2) return false;
            if (x.items.size() > 0 && !take(x.items[0], v.x)) return false;
            if (x.items.size() > 1 && !take(x.items[1], v.y)) return false;
        }
    }
    return true;
}
template<class T> bool take(const Tree& t, std::vector<T>& v);
template<class T> bool take(const Tree& t, std::map<std::string, T>& v);
template<class T> bool take(const Tree& t, std::unordered_map<std::string, T>& v);
template<class T> bool take(const Tree& t, std::shared_ptr<T>& v);
template<class T> bool take(const Tree& t, std::unique_ptr<T>& v);
template<class T> bool take(const Tree& t, T*& v);
template<class T> auto take(const Tree& t, T& v) -> decltype(v.each(*(Apply*)nullptr), true);

struct Apply
{
    const Tree& t; size_t i; bool ok;
    template<class T> void operator() (const char* name, T& v) { if (t.keys[i] == name && !take(t.items[i], v)) ok = false; }
};
template<class T> auto take(const Tree& t, T& v) -> decltype(v.each(*(Apply*)nullptr), true)
{
    if (t.kind == Tree::Null) return true;
    if (t.kind != Tree::Obj) return false;
    Apply a = { t, 0, true };
    for (; a.ok && a.i < t.items.size(); ++a.i) v.each(a);
    return a.ok;
}
template<class T> bool take(const Tree& t, std::vector<T>& v)
{
    if (t.kind == Tree::Null) return true;
    if (t.kind != Tree::Arr) return false;
    for (size_t i = 0; i < t.items.size(); ++i) {
        v.emplace_back();
        if (!take(t.items[i], v.back())) return false;
    }
    return true;
}
template<class M> bool applyMap(const Tree& t, M& v)
{
    if (t.kind == Tree::Null) return true;
    if (t.kind != Tree::Obj) return false;
    for (size_t i = 0; i < t.items.size(); ++i) {
        typename M::mapped_type item = typename M::mapped_type();
        if (!take(t.items[i], item)) return false;
        v[str(t.keys[i])] = std::move(item);
    }
    return true;
}
template<class T> bool take(const Tree& t, std::map<std::string, T>& v) { return applyMap(t, v); }
template<class T> bool take(const Tree& t, std::unordered_map<std::string, T>& v) { return applyMap(t, v); }
template<class T, class P> bool applyPtr(const Tree& t, P& v)
{
    if (t.kind == Tree::Null) { v.reset(); return true; }
    if (!v) v.reset(new T());
    return take(t, *v);
}
template<class T> bool take(const Tree& t, std::shared_ptr<T>& v) { return applyPtr<T>(t, v); }
template<class T> bool take(const Tree& t, std::unique_ptr<T>& v) { return applyPtr<T>(t, v); }
template<class T> bool take(const Tree& t, T*& v)
{
    if (t.kind == Tree::Null) { delete v; v = nullptr; return true; }
    if (!v) v = new T();
    return take(t, *v);
}

// ---------------------------------------------------------------- disagrees --
enum { Compact = 2, Escape = 4, Validate = 8 }; // json::Writer::Options

// Whether a field is empty and so left out by Compact and skipEmpty.
bool empty(bool) { return false; }
bool empty(const Money&) { return false; }
bool empty(const Point&) { return false; }
template<class T> auto empty(const T& v) -> decltype(const_cast<T&>(v).each(*(Apply*)nullptr), true);
template<class T> typename std::enable_if<std::is_arithmetic<T>::value, bool>::type empty(const T& v) { return v == 0; }
bool empty(const std::string& v) { return v.empty(); }
template<class T> bool empty(const std::vector<T>& v) { return v.empty(); }
template<class T> bool empty(const std::map<std::string, T>& v) { return v.empty(); }
template<class T> bool empty(const std::unordered_map<std::string, T>& v) { return v.empty(); }
template<class T> bool empty(const std::shared_ptr<T>& v) { return !v || empty(*v); }
template<class T> bool empty(const std::unique_ptr<T>& v) { return !v || empty(*v); }
template<class T> bool empty(T* v) { return !v || empty(*v); }
template<class T> auto empty(const T&v) -> decltype(const_cast<T&>(v).each(*(Apply*)nullptr), true) { return false; }

bool skipEmpty(const std::string& name) { return name == "opt" || name == "a/\"b\""; } // of Node

std::string shown(const Tree& t)
{
    static const char* names[] = { "nothing", "null", t.b ? "true" : "false", "", "", "an array", "an object" };
    if (t.kind == Tree::Num) return t.s;
    if (t.kind == Tree::Str) return "\"" + h::escape(t.s) + "\"";
    return names[t.kind];
}
std::string plain(const std::string& s) { return std::string(s.data(), s.size()); }

struct Judge;
typedef std::string S;
S judge(const Tree& t, bool v, unsigned) { return t.kind == Tree::Bool && t.b == v ? "" : shown(t) + " for " + (v ? "true" : "false"); }
S judge(const Tree& t, const std::string& v, unsigned) { return t.kind == Tree::Str && t.s == plain(v) ? "" : shown(t) + " for \"" + h::escape(plain(v)) + "\""; }
template<class T> typename std::enable_if<std::is_integral<T>::value, S>::type judge(const Tree& t, const T& v, unsigned)
{
    int64_t i = 0;
    if (integer(t, i) && i == (int64_t) v) return "";
    return shown(t) + " for " + (std::is_unsigned<T>::value ? std::to_string((unsigned long long) v) : std::to_string((long long) v));
}
template<class T> typename std::enable_if<std::is_floating_point<T>::value, S>::type judge(const Tree& t, const T& v, unsigned)
{
    double d = 0, w = v;
    if (real(t, d) && fabs(d - w) <= 5.1e-12 * fabs(w)) return ""; // 12 digits are printed
    return shown(t) + " for " + h::format("%.17g", w);
}
S judge(const Tree& t, const Money& v, unsigned o) { return judge(t, std::to_string(v.amount) + " " + plain(v.unit), o); }
S judge(const Tree& t, const Point& v, unsigned o)
{
    if (t.kind != Tree::Obj) return shown(t) + " for a point";
    if (t.keys.size() != (v.tag.empty() ? 1 : 2)) return "wrong keys for a point";
    bool at = false, tag = false;
    for (size_t i = 0; i < t.keys.size(); ++i) {
        const Tree& x = t.items[i];
        S s;
        if (t.keys[i] == "at") {
            at = true;
            if (x.kind != Tree::Arr || x.items.size() != 2) return "wrong coordinates";
            s = judge(x.items[0], v.x, o);
            if (s.empty()) s = judge(x.items[1], v.y, o);
        }
        else if (t.keys[i] == "tag") { tag = true; s = judge(x, v.tag, o); }
        if (!s.empty()) return s;
    }
    return at && tag == !v.tag.empty() ? "" : "wrong keys for a point";
}
template<class T> S judge(const Tree& t, const std::vector<T>& v, unsigned o);
template<class T> S judge(const Tree& t, const std::map<std::string, T>& v, unsigned o);
template<class T> S judge(const Tree& t, const std::unordered_map<std::string, T>& v, unsigned o);
template<class T> S judge(const Tree& t, const std::shared_ptr<T>& v, unsigned o);
template<class T> S judge(const Tree& t, const std::unique_ptr<T>& v, unsigned o);
template<class T> S judge(const Tree& t, T* v, unsigned o);
template<class T> auto judge(const Tree& t, const T& v, unsigned o) -> decltype(const_cast<T&>(v).each(*(Judge*)nullptr), S());

struct Judge
{
    const Tree& t; unsigned opts; size_t found; S bad;
    template<class T> void operator() (const char* name, T& v)
    {
        if (!bad.empty()) return;
        const Tree* x = nullptr;
        for (size_t i = 0; i < t.keys.size(); ++i)
            if (t.keys[i] == name) {
                if (x) { bad = S("key ") + name + " twice"; return; }
                x = &t.items[i];
                ++found;
            }
        bool e = (opts & Compact) || skipEmpty(name) ? empty(v) : false;
        if (x && e) bad = S("key ") + name + " although it's empty: " + shown(*x);
        else if (!x && !e) bad = S("no key ") + name;
        else if (x) {
            bad = judge(*x, v, opts);
            if (!bad.empty()) bad = S(name) + ": " + bad;
        }
    }
};
template<class T> auto judge(const Tree& t, const T& v, unsigned o) -> decltype(const_cast<T&>(v).each(*(Judge*)nullptr), S())
{
    if (t.kind != Tree::Obj) return shown(t) + " for an object";
    Judge j = { t, o, 0, S() };
    const_cast<T&>(v).each(j);
    if (j.bad.empty() && j.found != t.keys.size()) return "keys that aren't the object's";
    return j.bad;
}
template<class T> S judge(const Tree& t, const std::vector<T>& v, unsigned o)
{
    if (t.kind != Tree::Arr || t.items.size() != v.size()) return h::format("%s of %zu for an array of %zu", shown(t).c_str(), t.items.size(), v.size());
    for (size_t i = 0; i < v.size(); ++i) {
        S s = judge(t.items[i], v[i], o);
        if (!s.empty()) return h::format("[%zu]: ", i) + s;
    }
    return "";
}
template<class M> S judgeMap(const Tree& t, const M& v, unsigned o)
{
    if (t.kind != Tree::Obj || t.items.size() != v.size()) return h::format("%s of %zu for a map of %zu", shown(t).c_str(), t.items.size(), v.size());
    for (auto& x : v) {
        S key = plain(x.first);
        size_t i = 0;
        while (i < t.keys.size() && t.keys[i] != key) ++i;
        if (i == t.keys.size()) return "no key " + h::escape(key);
        S s = judge(t.items[i], x.second, o);
        if (!s.empty()) return h::escape(key) + ": " + s;
    }
    return "";
}
template<class T> S judge(const Tree& t, const std::map<std::string, T>& v, unsigned o) { return judgeMap(t, v, o); }
template<class T> S judge(const Tree& t, const std::unordered_map<std::string, T>& v, unsigned o) { return judgeMap(t, v, o); }
template<class P> S judgePtr(const Tree& t, const P& v, unsigned o) { return v ? judge(t, *v, o) : t.kind == Tree::Null ? S() : shown(t) + " for null"; }
template<class T> S judge(const Tree& t, const std::shared_ptr<T>& v, unsigned o) { return judgePtr(t, v, o); }
template<class T> S judge(const Tree& t, const std::unique_ptr<T>& v, unsigned o) { return judgePtr(t, v, o); }
template<class T> S judge(const Tree& t, T* v, unsigned o) { return judgePtr(t, v, o); }

// ---------------------------------------------------------------- printable --
// 1: well-formed; 0: not; -1: not a character that exists.
int encoding(const std::string& s)
{
    int r = 1;
    for (size_t i = 0; i < s.size(); ) {
        unsigned char c = s[i++];
        if (c < 0x80) continue;
        int n = c >= 0xF8 ? 0 : c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC0 ? 1 : 0;
        if (!n || i + n > s.size()) return 0;
        uint32_t code = c & (0x3F >> n);
        for (int k = 0; k < n; ++k, ++i) {
            if ((s[i] & 0xC0) != 0x80) return 0;
            code = code << 6 | (s[i] & 0x3F);
        }
        if (code < (n == 1 ? 0x80u : n == 2 ? 0x800u : 0x10000u)) return 0;
        if (code > 0x10FFFF || (code >= 0xD800 && code < 0xE000)) r = -1;
    }
    return r;
}

struct Can
{
    unsigned opts; bool no, either;
    void text(const std::string& v)
    {
        if (!(opts & (Escape | Validate))) return;
        switch (encoding(plain(v))) {
        case 0: no = true; break;
        case -1: if (opts & Escape) no = true; else either = true; break;
        }
    }
    void see(bool) {}
    void see(const std::string& v) { text(v); }
    template<class T> typename std::enable_if<std::is_integral<T>::value>::type see(const T& v)
    {
        if (std::is_unsigned<T>::value && (unsigned long long) v > 0x7fffffffffffffffull) no = true;
    }
    template<class T> typename std::enable_if<std::is_floating_point<T>::value>::type see(const T& v) { if (!std::isfinite((double) v)) no = true; }
    void see(const Money& v) { text(v.unit); }
    void see(const Point& v) { text(v.tag); }
    template<class T> void see(const std::vector<T>& v) { for (size_t i = 0; i < v.size(); ++i) see(v[i]); }
    template<class T> void see(const std::map<std::string, T>& v) { for (auto& x : v) { text(x.first); see(x.second); } }
    template<class T> void see(const std::unordered_map<std::string, T>& v) { for (auto& x : v) { text(x.first); see(x.second); } }
    template<class T> void see(const std::shared_ptr<T>& v) { if (v) see(*v); }
    template<class T> void see(const std::unique_ptr<T>& v) { if (v) see(*v); }
    template<class T> void see(T* v) { if (v) see(*v); }
    template<class T> void operator() (const char*, T& v) { see(v); }
    template<class T> auto see(const T& v) -> decltype(const_cast<T&>(v).each(*(Can*)nullptr)) { const_cast<T&>(v).each(*this); }
};

// -------------------------------------------------------------------- kinds --
template<class T> struct M
{
    static bool apply(const Tree& t, void* p) { return take(t, *(T*)p); }
    static S judge(const Tree& t, const void* p, unsigned o) { return js::judge(t, *(const T*)p, o); }
    static int can(const void* p, unsigned o) { Can c = { o, false, false }; c.see(*(const T*)p); return c.no ? 0 : c.either ? -1 : 1; }
};
struct Fns
{
    bool (*apply)(const Tree&, void*);
    S (*judge)(const Tree&, const void*, unsigned);
    int (*can)(const void*, unsigned);
};
typedef std::vector<Node> Nodes;
typedef std::vector< std::shared_ptr<Leaf> > LeafPtrs;
typedef std::shared_ptr<Node> NodePtr;

#define KIND(T) { M<T>::apply, M<T>::judge, M<T>::can }
const Fns fns[KAny] = {
    KIND(int64_t), KIND(double), KIND(bool), KIND(std::string), KIND(Ints), KIND(Strings), KIND(IntMap), KIND(Matrix),
    KIND(Leaf), KIND(Money), KIND(Point), KIND(Node), KIND(Nodes), KIND(NodeMap), KIND(NodePtr), KIND(Ping), KIND(Pong),
    KIND(Holder), KIND(LeafPtrs), KIND(Raw), KIND(StringsMap), KIND(Nums), KIND(Deriv), KIND(Hash),
};

// Whether the numbers of a generic value can be represented.
bool fits(const Tree& t)
{
    int64_t i; double d;
    if (t.kind == Tree::Num && !(t.s.find_first_of(".eE") == std::string::npos ? integer(t, i) : real(t, d))) return false;
    for (auto& x : t.items) if (!fits(x)) return false;
    return true;
}

} // namespace anonymous

bool apply(const Tree& tree, Obj& obj) { return obj.kind == KAny ? fits(tree) : fns[obj.kind].apply(tree, obj.p); }
std::string disagrees(const Tree& tree, const Obj& obj, unsigned opts) { return fns[obj.kind].judge(tree, obj.p, opts); }
int printable(const Obj& obj, unsigned opts) { return fns[obj.kind].can(obj.p, opts); }
bool duplicateKeys(const Tree& t)
{
    std::set<std::string> keys;
    for (auto& k : t.keys) if (!keys.insert(k).second) return true;
    for (auto& x : t.items) if (duplicateKeys(x)) return true;
    return false;
}

} // namespace js
