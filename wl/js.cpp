// js.cpp - see js.h
#include "js.h"

#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <limits>

using namespace reflect;

namespace js {

std::string str(const std::string& s) { return std::string(s.data(), s.size()); }

// ------------------------------------------------------------------ reading --
namespace {

struct Scanner
{
    const std::string& t; size_t p; bool comments, self, utf8, strict, escaped;
    Scanner(const std::string& t, bool comments, bool utf8, bool strict, bool escaped) :
        t(t), p(0), comments(comments), self(true), utf8(utf8), strict(strict), escaped(escaped) {}

    bool space()
    {
        for (;;) {
            if (p >= t.size()) return false;
            unsigned char c = t[p];
            if (c == ' ' || (c >= 9 && c <= 13)) { ++p; continue; }
            if (c == '/' && p + 1 < t.size() && t[p + 1] == '/') {
                if (!comments) return false;
                while (p < t.size() && t[p] != '\n') ++p;
                if (p >= t.size()) return false;
                ++p;
                continue;
            }
            return true;
        }
    }
    bool word(const char* w)
    {
        for (; *w; ++w, ++p) if (p >= t.size() || t[p] != *w) return false;
        return true;
    }
    static int hex(unsigned char c)
    {
        if (c >= '0' && c <= '9') return c - '0';
        if (c >= 'a' && c <= 'f') return c - 'a' + 10;
        if (c >= 'A' && c <= 'F') return c - 'A' + 10;
        return -1;
    }
    bool unit(uint32_t& code)
    {
        code = 0;
        for (int i = 0; i < 4; ++i) {
            if (p >= t.size()) return false;
            int v = hex(t[p++]);
            if (v < 0) return false;
            code = code * 16 + v;
        }
        return true;
    }
    // The rest of a character that takes several bytes: well-formed and not
    // longer than needed.
    bool encoded(unsigned char c, std::string& s)
    {
        int n = c >= 0xF8 ? 0 : c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC0 ? 1 : 0;
        if (!n) return false;
        uint32_t code = c & (0x3F >> n);
        s += c;
        for (int i = 0; i < n; ++i) {
            if (p >= t.size() || (t[p] & 0xC0) != 0x80) return false;
            code = code << 6 | (t[p] & 0x3F);
            s += t[p++];
        }
        return code >= (n == 1 ? 0x80u : n == 2 ? 0x800u : 0x10000u);
    }
    bool string(std::string& s)
    {
        if (p >= t.size() || t[p] != '"') return false;
        for (++p; p < t.size(); ) {
            char c = t[p++];
            if (c == '"') return true;
            if (c == '\n') return false;
            if (utf8 && (c & 0x80)) { if (!encoded(c, s)) return false; continue; }
            if (c != '\\') { s += c; continue; }
            if (p >= t.size()) return false;
            switch (c = t[p++]) {
            case '"': case '/': case '\\': s += c; break;
            case 'b': s += '\b'; break;
            case 'f': s += '\f'; break;
            case 'n': s += '\n'; break;
            case 'r': s += '\r'; break;
            case 't': s += '\t'; break;
            case 'u': {
                uint32_t code, low;
                if (!unit(code)) return false;
                if (escaped) { s += "\\u"; s.append(t, p - 4, 4); break; }
                if (strict && code >= 0xDC00 && code < 0xE000) return false;
                if (code >= 0xD800 && code < 0xDC00 && p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u') {
                    p += 2;
                    if (!unit(low)) return false;
                    if (strict && (low < 0xDC00 || low >= 0xE000)) return false;
                    code = 0x10000 + ((code & 0x3FF) << 10) + (low & 0x3FF);
                }
                else if (strict && code >= 0xD800 && code < 0xDC00) return false;
                if (code < 0x80) s += (char)code;
                else if (code < 0x800) { s += (char)(0xC0 | code >> 6); s += (char)(0x80 | (code & 63)); }
                else if (code < 0x10000) { s += (char)(0xE0 | code >> 12); s += (char)(0x80 | (code >> 6 & 63)); s += (char)(0x80 | (code & 63)); }
                else { s += (char)(0xF0 | code >> 18); s += (char)(0x80 | (code >> 12 & 63)); s += (char)(0x80 | (code >> 6 & 63)); s += (char)(0x80 | (code & 63)); }
                break;
            }
            default: return false;
            }
        }
        return false;
    }
    bool number(std::string& s)
    {
        size_t b = p, digits = 0;
        auto run = [&] { while (p < t.size() && t[p] >= '0' && t[p] <= '9') { ++p; ++digits; } };
        if (p < t.size() && t[p] == '-') ++p;
        else if (strict && p < t.size() && t[p] == '.') return false;
        run();
        if (p < t.size() && t[p] == '.') { ++p; run(); }
        if (!digits) return false;
        if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
            ++p;
            if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p;
            digits = 0;
            run();
            if (!digits) return false;
        }
        s = t.substr(b, p - b);
        return true;
    }
    bool value(Tree& v)
    {
        if (!space()) return false;
        self = true;
        switch (t[p]) {
        case 'n': v.kind = Tree::Null; return word("null");
        case 't': v.kind = Tree::Bool; v.b = true; return word("true");
        case 'f': v.kind = Tree::Bool; return word("false");
        case '"': v.kind = Tree::Str; return string(v.s);
        case '[':
            v.kind = Tree::Arr; ++p;
            if (!space()) return false;
            if (t[p] == ']') { ++p; return true; }
            for (;;) {
                v.items.emplace_back();
                if (!value(v.items.back()) || !space()) return false;
                self = true;
                char c = t[p++];
                if (c == ']') return true;
                if (c != ',') return false;
            }
        case '{':
            v.kind = Tree::Obj; ++p;
            if (!space()) return false;
            if (t[p] == '}') { ++p; return true; }
            for (;;) {
                v.keys.emplace_back();
                if (!space() || !string(v.keys.back()) || !space() || t[p++] != ':') return false;
                v.items.emplace_back();
                if (!value(v.items.back()) || !space()) return false;
                self = true;
                char c = t[p++];
                if (c == '}') return true;
                if (c != ',') return false;
            }
        default:
            v.kind = Tree::Num; self = false;
            return number(v.s);
        }
    }
};

} // namespace anonymous

size_t scan(const std::string& text, bool comments, Tree* tree, bool* self, bool utf8, bool strict, bool escaped, size_t* stop)
{
    Scanner s(text, comments, utf8, strict, escaped);
    Tree t;
    if (!s.value(tree ? *tree : t)) {
        if (stop) { // the token that shouldn't be there is read as a whole
            size_t end = *stop = s.p;
            for (size_t b = end ? end - 1 : 0; b <= end; ++b) {
                s.p = b;
                Tree other;
                size_t c = b < text.size() ? (unsigned char) text[b] : 0;
                if (c != '[' && c != '{' && !isspace(c) && c != '/') s.value(other);
                *stop = std::max(*stop, s.p);
            }
            auto numeric = [&] (size_t i) { return i < text.size() && text[i] && strchr("0123456789.eE+-", text[i]); };
            if (*stop && numeric(*stop - 1)) while (numeric(*stop)) ++*stop;
        }
        if (tree) *tree = Tree();
        return std::string::npos;
    }
    if (self) *self = s.self;
    return s.p;
}

// -------------------------------------------------------------------- custom --
void Money::parseJson(json::Reader& reader)
{
    Money& m = *this;
    std::string s = json::parseString(reader);
    if (!reader) return;
    size_t k = s.find(' ');
    if (k == std::string::npos) { reader.error("not an amount of money <%s>", s); return; }
    m.amount = strtoll(s.c_str(), nullptr, 10);
    m.unit = s.substr(k + 1);
}

void Money::printJson(json::Writer& writer) const
{
    const Money& value = *this;
    json::printString(writer, std::to_string(value.amount) + " " + value.unit);
}

void Point::parseJson(json::Reader& reader)
{
    Point& p = *this;
    json::parseObject(reader, [&] (const std::string& key) {
        if (key == "at")
            json::parseArray(reader, [&] (size_t i) {
                int64_t n = json::parseInt(reader);
                if (i == 0) p.x = n; else if (i == 1) p.y = n; else reader.error("too many coordinates");
            });
        else if (key == "tag") p.tag = json::parseString(reader);
        else json::skip(reader);
    });
}

void Point::printJson(json::Writer& writer) const
{
    const Point& value = *this;
    std::vector<std::string> keys;
    keys.push_back("at");
    if (!value.tag.empty()) keys.push_back("tag");
    json::printObject(writer, keys, [&] (const std::string& key) {
        if (key == "at")
            json::printArray(writer, 2, [&] (size_t i) { json::printInt(writer, i ? value.y : value.x); });
        else json::printString(writer, value.tag);
    });
}

// ----------------------------------------------------------------- traversal --
namespace {

// ---- fill ----
struct Fill;
void fill(const Tree& t, int64_t& v) { v = strtoll(t.s.c_str(), nullptr, 10); }
void fill(const Tree& t, double& v) { v = strtod(t.s.c_str(), nullptr); }
void fill(const Tree& t, bool& v) { v = t.b; }
template<class T> typename std::enable_if<std::is_arithmetic<T>::value>::type fill(const Tree& t, T& v)
{
    if (std::is_floating_point<T>::value) v = (T) strtod(t.s.c_str(), nullptr);
    else v = (T) strtoll(t.s.c_str(), nullptr, 10);
}
void fill(const Tree& t, std::string& v) { v = str(t.s); }
void fill(const Tree& t, Money& v)
{
    size_t k = t.s.find(' ');
    if (k == std::string::npos) return;
    v.amount = strtoll(t.s.c_str(), nullptr, 10);
    v.unit = t.s.substr(k + 1);
}
void fill(const Tree& t, Point& v)
{
    for (size_t i = 0; i < t.items.size(); ++i) {
        if (t.keys[i] == "at") {
            if (t.items[i].items.size() > 0) fill(t.items[i].items[0], v.x);
            if (t.items[i].items.size() > 1) fill(t.items[i].items[1], v.y);
        }
        else if (t.keys[i] == "tag") fill(t.items[i], v.tag);
    }
}
template<class T> void fill(const Tree& t, std::vector<T>& v);
template<class T> void fill(const Tree& t, std::map<std::string, T>& v);
template<class T> void fill(const Tree& t, std::unordered_map<std::string, T>& v);
template<class T> void fill(const Tree& t, std::shared_ptr<T>& v);
template<class T> void fill(const Tree& t, std::unique_ptr<T>& v);
template<class T> void fill(const Tree& t, T*& v);
template<class T> auto fill(const Tree& t, T& v) -> decltype(v.each(*(Fill*)nullptr));

struct Fill
{
    const Tree& t;
    explicit Fill(const Tree& t) : t(t) {}
    template<class T> void operator() (const char* name, T& v)
    {
        for (size_t i = 0; i < t.keys.size(); ++i)
            if (t.keys[i] == name) fill(t.items[i], v);
    }
};
template<class T> auto fill(const Tree& t, T& v) -> decltype(v.each(*(Fill*)nullptr)) { Fill f(t); v.each(f); }
template<class T> void fill(const Tree& t, std::vector<T>& v)
{
    for (size_t i = 0; i < t.items.size(); ++i) { v.emplace_back(); fill(t.items[i], v.back()); }
}
template<class T> void fill(const Tree& t, std::map<std::string, T>& v)
{
    for (size_t i = 0; i < t.items.size(); ++i) fill(t.items[i], v[str(t.keys[i])]);
}
template<class T> void fill(const Tree& t, std::unordered_map<std::string, T>& v)
{
    for (size_t i = 0; i < t.items.size(); ++i) fill(t.items[i], v[str(t.keys[i])]);
}
template<class T> void fill(const Tree& t, std::shared_ptr<T>& v)
{
    if (t.kind == Tree::Null) { v.reset(); return; }
    v.reset(new T());
    fill(t, *v);
}
template<class T> void fill(const Tree& t, std::unique_ptr<T>& v)
{
    if (t.kind == Tree::Null) { v.reset(); return; }
    v.reset(new T());
    fill(t, *v);
}
template<class T> void fill(const Tree& t, T*& v)
{
    if (t.kind == Tree::Null) return;
    if (!v) v = new T();
    fill(t, *v);
}

// ---- dump ----
struct Dump;
void dump(std::string& o, int64_t v) { o += std::to_string(v); }
void dump(std::string& o, double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v == 0 ? 0 : v); o += b; }
template<class T> typename std::enable_if<std::is_arithmetic<T>::value>::type dump(std::string& o, T v)
{
    if (std::is_floating_point<T>::value) dump(o, (double) v);
    else if (std::is_unsigned<T>::value) o += std::to_string((unsigned long long) v);
    else o += std::to_string((long long) v);
}
void dump(std::string& o, bool v) { o += v ? "true" : "false"; }
void dump(std::string& o, const std::string& v) { o += '"'; o += h::escape(v.empty() ? std::string() : v); o += '"'; }
void dump(std::string& o, const Money& v) { o += "$" + std::to_string(v.amount); dump(o, v.unit); }
void dump(std::string& o, const Point& v) { o += "@" + std::to_string(v.x) + "," + std::to_string(v.y); dump(o, v.tag); }
template<class T> void dump(std::string& o, const std::vector<T>& v);
template<class T> void dump(std::string& o, const std::map<std::string, T>& v);
template<class T> void dump(std::string& o, const std::unordered_map<std::string, T>& v);
template<class T> void dump(std::string& o, const std::shared_ptr<T>& v);
template<class T> void dump(std::string& o, const std::unique_ptr<T>& v);
template<class T> void dump(std::string& o, T* v);
void dump(std::string& o, std::string* v);
void dump(std::string& o, const std::shared_ptr<int>& v);
template<class T> auto dump(std::string& o, const T& v) -> decltype(const_cast<T&>(v).each(*(Dump*)nullptr));

void dumpHidden(std::string&, const void*) {}
void dumpHidden(std::string& o, const Node* v) { if (v->hidden != "x") { o += "hidden="; dump(o, v->hidden); } }

struct Dump
{
    std::string& o;
    explicit Dump(std::string& o) : o(o) {}
    template<class T> void operator() (const char* name, T& v) { o += name; o += '='; dump(o, v); o += ' '; }
};
template<class T> auto dump(std::string& o, const T& v) -> decltype(const_cast<T&>(v).each(*(Dump*)nullptr))
{
    o += "{ ";
    Dump d(o);
    const_cast<T&>(v).each(d);
    dumpHidden(o, &v);
    o += '}';
}
template<class T> void dump(std::string& o, const std::vector<T>& v)
{
    o += "[ ";
    for (size_t i = 0; i < v.size(); ++i) { dump(o, v[i]); o += ' '; }
    o += ']';
}
template<class T> void dump(std::string& o, const std::map<std::string, T>& v)
{
    o += "{ ";
    for (auto& x : v) { dump(o, x.first); o += ':'; dump(o, x.second); o += ' '; }
    o += '}';
}
template<class T> void dump(std::string& o, const std::unordered_map<std::string, T>& v)
{
    std::map<std::string, const T*> sorted;
    for (auto& x : v) sorted[str(x.first)] = &x.second;
    o += "{ ";
    for (auto& x : sorted) { dump(o, x.first); o += ':'; dump(o, *x.second); o += ' '; }
    o += '}';
}
template<class T> void dump(std::string& o, const std::shared_ptr<T>& v) { if (!v) o += "null"; else { o += '&'; dump(o, *v); } }
template<class T> void dump(std::string& o, const std::unique_ptr<T>& v) { if (!v) o += "null"; else { o += '&'; dump(o, *v); } }
template<class T> void dump(std::string& o, T* v) { if (!v) o += "null"; else { o += '&'; dump(o, *v); } }
// a pointer to an empty string or to zero counts as empty, like a null one
void dump(std::string& o, const std::shared_ptr<int>& v) { if (!v || !*v) o += "null"; else { o += '&'; dump(o, *v); } }
void dump(std::string& o, std::string* v) { if (!v || v->empty()) o += "null"; else { o += '&'; dump(o, *v); } }

// Generic values: sim code.
void dumpValue(std::string& o, const Value& v)
{
    if (v.isVoid()) { o += "void"; return; }
    const Type* t = v.type();
    auto put = [&] (const std::string& s) { sim::Host host; o += str(s); };
    if (t == type<bool>()) { put(v.get<bool>() ? "true" : "false"); return; }
    if (t == type<int64_t>()) { put(std::to_string(v.get<int64_t>())); return; }
    if (t == type<double>()) { double d = v.get<double>(); sim::Host host; dump(o, d); return; }
    if (t == type<std::string>()) { const std::string& s = v.get<std::string>(); sim::Host host; dump(o, s); return; }
    if (t == type< std::vector<Value> >()) {
        const std::vector<Value>& a = v.get< std::vector<Value> >();
        put("[ ");
        for (size_t i = 0; i < a.size(); ++i) { dumpValue(o, a[i]); put(" "); }
        put("]");
        return;
    }
    if (t == type< std::unordered_map<std::string, Value> >()) {
        const std::unordered_map<std::string, Value>& m = v.get< std::unordered_map<std::string, Value> >();
        std::map<std::string, const Value*> sorted;
        for (auto& x : m) sorted[x.first] = &x.second;
        put("{ ");
        for (auto& x : sorted) { { sim::Host host; dump(o, x.first); o += ':'; } dumpValue(o, *x.second); put(" "); }
        put("}");
        return;
    }
    put("?" + t->id());
}

// The same for what a document says: host code.
void dumpTree(std::string& o, const Tree& t)
{
    switch (t.kind) {
    case Tree::Bool: dump(o, t.b); break;
    case Tree::Num:
        if (t.s.find_first_of(".eE") == std::string::npos) dump(o, (int64_t) strtoll(t.s.c_str(), nullptr, 10));
        else dump(o, strtod(t.s.c_str(), nullptr));
        break;
    case Tree::Str: dump(o, t.s); break;
    case Tree::Arr:
        o += "[ ";
        for (auto& i : t.items) { dumpTree(o, i); o += ' '; }
        o += ']';
        break;
    case Tree::Obj: {
        std::map<std::string, const Tree*> sorted;
        for (size_t i = 0; i < t.keys.size(); ++i) sorted.emplace(t.keys[i], &t.items[i]);
        o += "{ ";
        for (auto& x : sorted) { dump(o, x.first); o += ':'; dumpTree(o, *x.second); o += ' '; }
        o += '}';
        break; }
    default: o += "void";
    }
}

// ---- documents ----
struct Gen
{
    sim::Rng& rng; bool plain, comments; int budget;
    std::string o;

    Gen(sim::Rng& rng, int size, bool plain, bool comments) : rng(rng), plain(plain), comments(comments), budget(size) {}

    void ws()
    {
        if (plain) { if (rng.chance(1, 12)) o += ' '; return; }
        while (rng.chance(1, 6)) {
            static const char* sp[] = { " ", "\n", "\t", "\r", "  ", "\n\n", "\v", "\f" };
            o += sp[rng.below(8)];
            if (comments && rng.chance(1, 4)) {
                static const char* c[] = { "// c\n", "//\n", "///\n", "// \"}]\n", "// a // b\r\n", "//\xc3\xa9\n" };
                o += c[rng.below(6)];
            }
        }
    }
    void utf8(uint32_t c)
    {
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    }
    void unit(uint32_t c)
    {
        char b[8]; snprintf(b, sizeof b, rng.chance(1, 2) ? "\\u%04x" : "\\u%04X", c);
        o += b;
    }
    void character()
    {
        uint32_t c;
        switch (rng.below(12)) {
        case 0: { static const char s[] = "\"\\/\b\f\n\r\t"; c = s[rng.below(8)]; break; }
        case 1: c = 0x80 + rng.below(0x780); break;
        case 2: do c = 0x800 + rng.below(0xF800); while (c >= 0xD800 && c < 0xE000); break;
        case 3: c = 0x10000 + rng.below(0x100000); break;
        case 4: { static const uint32_t s[] = { 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000, 1, 0 }; c = s[rng.below(11)]; break; }
        default: c = 0x20 + rng.below(0x5F);
        }
        if (rng.chance(1, 8)) {
            if (c < 0x10000) unit(c);
            else { unit(0xD800 + ((c - 0x10000) >> 10)); unit(0xDC00 + ((c - 0x10000) & 0x3FF)); }
            return;
        }
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '/': o += rng.chance(1, 2) ? "/" : "\\/"; break;
        case '\b': o += rng.chance(1, 2) ? "\b" : "\\b"; break;
        case '\f': o += rng.chance(1, 2) ? "\f" : "\\f"; break;
        case '\r': o += rng.chance(1, 2) ? "\r" : "\\r"; break;
        case '\t': o += rng.chance(1, 2) ? "\t" : "\\t"; break;
        default: utf8(c);
        }
    }
    void chars()
    {
        int n = rng.chance(1, 40) ? 100 + rng.below(300) : rng.below(rng.chance(1, 4) ? 24 : 6);
        for (int i = 0; i < n; ++i) character();
    }
    void text() { o += '"'; chars(); o += '"'; }
    void key(int i)
    {
        o += '"';
        if (plain) { o += 'k'; o += std::to_string(i); if (rng.chance(1, 4)) chars(); }
        else if (rng.chance(1, 3)) chars();
        else { o += 'k'; o += std::to_string(rng.below(4)); }
        o += '"';
    }
    int count() { return budget <= 0 ? 0 : rng.below(1 + std::min<int>(budget, rng.chance(1, 5) ? 8 : 3)); }

    void any()
    {
        budget--;
        switch (rng.below(budget > 0 ? 9 : 6)) {
        case 0: o += "null"; break;
        case 1: { bool b; value(b); break; }
        case 2: { int64_t i; value(i); break; }
        case 3: { double d; value(d); break; }
        case 4: case 5: text(); break;
        case 6: {
            o += '['; int n = count();
            for (int i = 0; i < n; ++i) { if (i) o += ','; ws(); any(); ws(); }
            o += ']'; break;
        }
        default: {
            o += '{'; int n = count();
            for (int i = 0; i < n; ++i) { if (i) o += ','; ws(); key(i); ws(); o += ':'; ws(); any(); ws(); }
            o += '}'; break;
        }
        }
    }

    void value(int64_t&)
    {
        static const char* edge[] = { "0", "1", "-1", "9223372036854775807", "-9223372036854775808", "2147483648", "-2147483649", "4294967296" };
        if (rng.chance(1, 5)) { o += edge[rng.below(8)]; return; }
        int64_t v = (int64_t)(rng.next() >> (1 + rng.below(62)));
        o += std::to_string(rng.chance(1, 3) ? -v : v);
    }
    void value(double&)
    {
        if (!plain && rng.chance(1, 6)) {
            static const char* edge[] = { "0", "-0", "1.0", "1e5", "1E+2", "-1.5e-3", "0.1", "1e300", "12345678901234567890" };
            o += edge[rng.below(9)];
            return;
        }
        double m = (double)(int64_t)rng.below(1000000000);
        double d = m * pow(10., (int)rng.below(30) - 18);
        char b[64]; snprintf(b, sizeof b, "%1.12g", rng.chance(1, 3) && d != 0 ? -d : d);
        o += b;
    }
    template<class T> typename std::enable_if<std::is_arithmetic<T>::value>::type value(T&)
    {
        double d = 0; int64_t i = 0;
        if (std::is_floating_point<T>::value) { value(d); return; }
        if (!plain && rng.chance(1, 12)) { value(i); return; }
        typedef std::numeric_limits<T> L;
        if (rng.chance(1, 5)) {
            static const long long edge[] = { 0, 1, (long long) L::min(), (long long) std::min<unsigned long long>(L::max(), 0x7fffffffffffffffull) };
            o += std::to_string(edge[rng.below(4)]);
            return;
        }
        o += std::to_string((long long) (T) (rng.next() >> (1 + rng.below(62))));
    }
    void value(bool&) { o += rng.chance(1, 2) ? "true" : "false"; }
    void value(std::string&) { text(); }
    void value(Money&)
    {
        int64_t i = 0;
        o += '"'; value(i); o += ' '; chars(); o += '"';
    }
    void value(Point&)
    {
        int64_t i = 0;
        o += '{'; ws(); o += "\"at\""; ws(); o += ':'; ws(); o += '['; ws(); value(i); ws(); o += ','; ws(); value(i); ws(); o += ']'; ws();
        if (rng.chance(1, 2)) { o += ",\"tag\":"; ws(); text(); }
        if (!plain && rng.chance(1, 3)) { o += ",\"other\":"; any(); }
        o += '}';
    }
    template<class T> void value(std::vector<T>&)
    {
        if (!plain && rng.chance(1, 20)) { o += "null"; return; }
        int n = count();
        budget -= n;
        o += '['; ws();
        for (int i = 0; i < n; ++i) { if (i) { o += ','; ws(); } fresh<T>(); ws(); }
        o += ']';
    }
    void value(std::vector<bool>&) { o += "[]"; }
    template<class T> void value(std::map<std::string, T>&)
    {
        if (!plain && rng.chance(1, 20)) { o += "null"; return; }
        int n = count();
        budget -= n;
        o += '{'; ws();
        for (int i = 0; i < n; ++i) { if (i) { o += ','; ws(); } key(i); ws(); o += ':'; ws(); fresh<T>(); ws(); }
        o += '}';
    }
    template<class T> void value(std::unordered_map<std::string, T>&) { static std::map<std::string, T> m; value(m); }
    template<class T> void pointer()
    {
        budget--;
        if (budget <= 0 || rng.chance(1, 4)) { o += "null"; return; }
        fresh<T>();
    }
    template<class T> void value(std::shared_ptr<T>&) { pointer<T>(); }
    template<class T> void value(std::unique_ptr<T>&) { pointer<T>(); }
    template<class T> void value(T*&) { pointer<T>(); }
    template<class T> void fresh() { static T* t = new T(); value(*t); }

    struct Fields
    {
        Gen& g; std::vector< std::pair<std::string, std::string> > out;
        explicit Fields(Gen& g) : g(g) {}
        template<class T> void operator() (const char* name, T& v)
        {
            if (g.budget <= 0 ? g.rng.chance(4, 5) : g.rng.chance(1, 4)) return;
            std::string saved; saved.swap(g.o);
            g.value(v);
            saved.swap(g.o);
            std::string key;
            for (const char* c = name; *c; ++c) { if (*c == '"') key += '\\'; key += *c; }
            out.push_back(std::make_pair(key, saved));
        }
    };
    template<class T> auto value(T& v) -> decltype(v.each(*(Fields*)nullptr))
    {
        if (!plain && rng.chance(1, 30)) { o += "null"; return; }
        budget--;
        Fields f(*this);
        v.each(f);
        if (!plain) {
            std::string saved; saved.swap(o);
            for (size_t k = rng.below(3); k > 0; --k) {
                std::string name = rng.chance(1, 3) && !f.out.empty() ? f.out[rng.below(f.out.size())].first : rng.chance(1, 4) ? "hidden" : "unknown";
                if (name != "unknown" && name != "hidden") continue;
                o.clear();
                any();
                f.out.push_back(std::make_pair(name, o));
            }
            o.swap(saved);
            if (!f.out.empty() && rng.chance(1, 10)) f.out.push_back(f.out[rng.below(f.out.size())]);
        }
        for (size_t i = f.out.size(); i > 1; --i) std::swap(f.out[i - 1], f.out[rng.below(i)]);
        o += '{'; ws();
        for (size_t i = 0; i < f.out.size(); ++i) {
            if (i) { o += ','; ws(); }
            o += '"'; o += f.out[i].first; o += '"'; ws(); o += ':'; ws(); o += f.out[i].second; ws();
        }
        o += '}';
    }
    void value(Value&) { any(); }
};

void fill(const Tree&, Value&) {}
void dump(std::string&, const Value&) {}

// ---- kinds ----
template<class T> struct K
{
    static void* make() { return new T(); }
    static void destroy(void* p) { delete (T*)p; }
    static void fillIn(void* p, const Tree& t) { fill(t, *(T*)p); }
    static void parse(void* p, json::Reader& r) { json::parse(r, *(T*)p); }
    static Error parseStream(void* p, std::istream& s) { return json::parse(s, *(T*)p); }
    static Error parseText(void* p, const std::string& s) { return json::parse(s, *(T*)p); }
    static Error print(const void* p, json::Writer& w) { return json::print(w, *(const T*)p); }
    static Error printStream(const void* p, std::ostream& s) { return json::print(s, *(const T*)p); }
    static std::pair<std::string, Error> printText(const void* p) { return json::print(*(const T*)p); }
    static void dumpTo(const void* p, std::string& o) { dump(o, *(const T*)p); }
    static void gen(Gen& g) { g.fresh<T>(); }
};

struct KindFns
{
    const char* name;
    void* (*make)();
    void (*destroy)(void*);
    void (*fill)(void*, const Tree&);
    void (*parse)(void*, json::Reader&);
    Error (*parseStream)(void*, std::istream&);
    Error (*parseText)(void*, const std::string&);
    Error (*print)(const void*, json::Writer&);
    Error (*printStream)(const void*, std::ostream&);
    std::pair<std::string, Error> (*printText)(const void*);
    void (*dump)(const void*, std::string&);
    void (*gen)(Gen&);
};

#define KIND(T) { #T, K<T>::make, K<T>::destroy, K<T>::fillIn, K<T>::parse, K<T>::parseStream, K<T>::parseText, \
    K<T>::print, K<T>::printStream, K<T>::printText, K<T>::dumpTo, K<T>::gen }
typedef std::vector<Node> Nodes;
typedef std::vector< std::shared_ptr<Leaf> > LeafPtrs;
typedef std::shared_ptr<Node> NodePtr;

// Printing and parsing generic values isn't by way of cast<Value>.
template<> struct K<Value>
{
    static void* make() { return new Value(); }
    static void destroy(void* p) { delete (Value*)p; }
    static void parse(void* p, json::Reader& r) { json::parse(r, *(Value*)p); }
    static Error parseStream(void* p, std::istream& s) { json::Reader r(s); json::parse(r, *(Value*)p); return r.error(); }
    static Error parseText(void* p, const std::string& s) { std::istringstream i(s); return parseStream(p, i); }
    static void gen(Gen& g) { g.any(); }
};

const KindFns kinds[NAll] = {
    KIND(int64_t), KIND(double), KIND(bool), KIND(std::string), KIND(Ints), KIND(Strings), KIND(IntMap), KIND(Matrix),
    KIND(Leaf), KIND(Money), KIND(Point), KIND(Node), KIND(Nodes), KIND(NodeMap), KIND(NodePtr), KIND(Ping), KIND(Pong),
    KIND(Holder), KIND(LeafPtrs), KIND(Raw), KIND(StringsMap),
    KIND(Nums), KIND(Deriv), KIND(Hash),
    { "Value", K<Value>::make, K<Value>::destroy, nullptr, K<Value>::parse, K<Value>::parseStream, K<Value>::parseText,
        nullptr, nullptr, nullptr, nullptr, K<Value>::gen },
    KIND(Dup), KIND(NoFn), KIND(Inner), KIND(Ring),
};
} // namespace anonymous

const char* kindName(int kind) { return kinds[kind].name; }
bool structural(int kind) { return kind != KInt && kind != KDouble && kind != KAny; }

Obj::Obj(int kind) : kind(kind), p(kinds[kind].make()) {}
Obj::~Obj() { kinds[kind].destroy(p); }
void Obj::fill(const Tree& tree) { if (kinds[kind].fill) kinds[kind].fill(p, tree); }
void Obj::parse(json::Reader& reader) { kinds[kind].parse(p, reader); }
Error Obj::parse(std::istream& stream) { return kinds[kind].parseStream(p, stream); }
Error Obj::parse(const std::string& text) { return kinds[kind].parseText(p, text); }
Error Obj::print(json::Writer& writer) const { return kinds[kind].print(p, writer); }
Error Obj::print(std::ostream& stream) const { return kinds[kind].printStream(p, stream); }
std::pair<std::string, Error> Obj::print() const { return kinds[kind].printText(p); }
std::string Obj::dump() const
{
    std::string o;
    if (kind == KAny) dumpValue(o, *(const Value*)p);
    else { sim::Host host; kinds[kind].dump(p, o); }
    return o;
}

std::string valueText(const Tree& tree)
{
    std::string o;
    dumpTree(o, tree);
    return o;
}

std::string genDoc(sim::Rng& rng, int kind, int size, bool plain, bool comments)
{
    Gen g(rng, size, plain, comments);
    g.ws();
    kinds[kind].gen(g);
    return g.o;
}

std::string damage(sim::Rng& rng, const std::string& doc)
{
    std::string d = doc;
    int n = 1 + (rng.chance(1, 4) ? rng.below(4) : 0);
    while (n--) {
        size_t p = d.empty() ? 0 : rng.below(d.size());
        static const char bits[] = "{}[],:\"\\/0123456789-+.eEtfnul \n\x80\xc3\xff\xed\xf4\x01\x7f";
        char c = rng.chance(1, 6) ? (char)rng.below(256) : bits[rng.below(sizeof bits)];
        switch (rng.below(14)) {
        case 10: case 11: { // a structural character too many, missing, or the wrong one
            std::vector<size_t> at;
            for (size_t i = 0; i < d.size(); ++i) if (d[i] && strchr("{}[],:\"", d[i])) at.push_back(i);
            if (at.empty()) break;
            size_t q = at[rng.below(at.size())];
            switch (rng.below(5)) {
            case 0: d.erase(q, 1); break;
            case 1: d.insert(q + rng.below(2), 1, "{}[],:\""[rng.below(7)]); break;
            case 2: d[q] = "{}[],:\""[rng.below(7)]; break;
            default: // a comma that isn't needed
                for (size_t i : at) if (strchr("}]", d[i]) && rng.chance(1, 2)) { q = i; break; }
                d.insert(q + (strchr("{[", d[q]) ? 1 : 0), rng.chance(1, 4) ? ",," : ",");
            }
            break;
        }
        case 12: case 13: { // text that isn't well-formed
            std::vector<size_t> at;
            for (size_t i = 1; i < d.size(); ++i) if (d[i] == '"' || ((unsigned char)d[i] > 32 && d[i - 1] == '"')) at.push_back(i);
            static const char* const bad[] = { "\x80", "\xbf", "\xc0\xaf", "\xc1\xbf", "\xc3", "\xc3\xc3", "\xc3" "a", "\xe0\x80\xaf", "\xe0\x9f\xbf",
                "\xe2\x82", "\xe2\x82" "a", "\xe2\xe2\xac", "\xe2\x82\xc3", "\xf0\x80\x80\xaf", "\xf0\x8f\xbf\xbf", "\xf0\x9f\x98", "\xf0\x9f\x98" "a",
                "\xf0\xf0\x98\x80", "\xf8\x88\x80\x80\x80", "\xfc\x84\x80\x80\x80\x80", "\xfe", "\xff", "\n", "\\x", "\\u12", "\\u12g4", "\\", "\\ud800", "\\udc00" };
            if (!at.empty()) d.insert(at[rng.below(at.size())], bad[rng.below(sizeof bad / sizeof *bad)]);
            break;
        }
        case 0: case 1: d = d.substr(0, p); break;
        case 2: case 3: if (!d.empty()) d[p] = c; break;
        case 4: d.insert(p, 1, c); break;
        case 5: if (!d.empty()) d.erase(p, 1); break;
        case 6: { size_t k = rng.below(d.size() - p + 1); d.insert(rng.below(d.size() + 1), d.substr(p, std::min<size_t>(k, 20))); break; }
        case 7: if (!d.empty()) d.erase(p, 1 + rng.below(8)); break;
        case 8: { // swap two structural characters
            std::vector<size_t> at;
            for (size_t i = 0; i < d.size(); ++i) if (d[i] && strchr("{}[],:\"", d[i])) at.push_back(i);
            if (at.size() > 1) std::swap(d[at[rng.below(at.size())]], d[at[rng.below(at.size())]]);
            break;
        }
        case 9:
            if (rng.chance(1, 3)) { // a long token
                static const char* filler[] = { "9", "a", "x", "\\u00e9", "\xc3\xa9", " ", "[", "{\"k\":", "1,", "\xff" };
                const char* f = filler[rng.below(10)];
                int k = 1 + rng.below(*f == '[' || *f == '{' ? 60 : 1500);
                std::string s;
                while (k--) s += f;
                d.insert(p, s);
            }
            else d += d;
            break;
        }
    }
    return d;
}

// ------------------------------------------------------------------- streams --
Chunked::Chunked(const std::string& d, const std::vector<int>& s, size_t failAt, int failKind) :
    next(0), piece(0), failAt(failAt), failKind(failKind), waits(0)
{
    sim::Host host;
    data = d; sizes = s;
    setg(window, window, window);
}

std::string stretch(sim::Rng& rng, const std::string& d, int bits)
{
    std::vector<std::pair<size_t, size_t>> strings, numbers, gaps;
    for (size_t i = 0; i < d.size(); ) {
        size_t b = i;
        if (d[i] == '"') {
            for (++i; i < d.size() && d[i] != '"'; ++i) if (d[i] == '\\') ++i;
            if (i < d.size()) strings.push_back({ b + 1, i });
            ++i;
        }
        else if (d[i] == '-' || (d[i] >= '0' && d[i] <= '9')) {
            while (i < d.size() && strchr("0123456789+-.eE", d[i]) && d[i]) ++i;
            numbers.push_back({ b, i });
        }
        else {
            if (strchr("{}[],:", d[i])) gaps.push_back({ i, i + 1 });
            if (d[i] == '/') break; // comments aren't told from text
            ++i;
        }
    }
    auto pick = [&] (const std::vector<std::pair<size_t, size_t>>& v) { return v[rng.below(v.size())]; };
    size_t n = (size_t(1) << (6 + rng.below(bits - 5))) + rng.below(64);
    std::string out = d, more;
    int what = rng.below(6);
    if (what < 3 && !strings.empty()) { // text that shows what's missing or repeated
        auto s = pick(strings);
        for (size_t i = 0; more.size() < n; ++i) more += rng.chance(1, 50) ? "\xe2\x82\xac" : std::to_string(i) + "."; 
        out.insert(rng.chance(1, 2) ? s.first : s.second, more);
    }
    else if (what == 3 && !numbers.empty()) {
        auto s = pick(numbers);
        std::string t = d.substr(s.first, s.second - s.first);
        n = std::min<size_t>(n, 4000);
        if (t.find_first_of("eE.") == std::string::npos) t += rng.chance(1, 3) ? "." + std::string(n, '0') : std::string(n, '0') + "e-" + std::to_string(n);
        else if (t.find_first_of("eE") == std::string::npos) t += std::string(n, '0');
        out.replace(s.first, s.second - s.first, t);
    }
    else if (what == 4 && !gaps.empty()) out.insert(pick(gaps).first, std::string(n, " \n\t"[rng.below(3)]));
    else { // an array of many
        std::vector<std::pair<size_t, size_t>> items;
        for (auto& g : gaps) if (d[g.first] == '[' || d[g.first] == ',') {
            Tree t; bool self;
            size_t len = scan(d.substr(g.second) + " ", false, &t, &self);
            if (len == std::string::npos || len > 200 || g.second + len >= d.size()) continue;
            if (d[g.first] == ',' && d[d.find_first_not_of(" \t\n\r\v\f", g.second + len) % d.size()] == ':') continue; // a key
            items.push_back({ g.second, g.second + len });
        }
        if (items.empty()) return d;
        auto s = pick(items);
        std::string t = d.substr(s.first, s.second - s.first) + ",";
        n = std::min<size_t>(n, 20000 / t.size() + 1);
        for (size_t i = 0; i < n; ++i) more += t;
        out.insert(s.first, more);
    }
    return out;
}

Chunked::int_type Chunked::underflow()
{
    size_t n = 0;
    {
        sim::Host host;
        waits = std::max(waits, next + 1);
        if (next >= failAt) n = ~size_t(0);
        else {
            n = sizes.empty() ? sizeof window : (size_t) sizes[piece++ % sizes.size()];
            if (n < 1) n = 1;
            n = std::min(std::min(n, sizeof window), std::min(data.size(), failAt) - next);
            memcpy(window, data.data() + next, n);
        }
    }
    if (n == ~size_t(0)) {
        if (failKind == 1 || failKind == 3) PROBE("fault: stream read threw");
        else if (failKind == 2) PROBE("fault: stream read ran out of memory");
        else PROBE("fault: stream read cut");
        if (failKind == 1) throw std::runtime_error("device error");
        if (failKind == 2) throw std::bad_alloc();
        if (failKind == 3) throw 7;
        return traits_type::eof();
    }
    if (!n) return traits_type::eof();
    next += n;
    setg(window, window, window + n);
    return traits_type::to_int_type(window[0]);
}

Sink::Sink(size_t failAt, int failKind, size_t failLen, size_t buffer) :
    failAt(failAt), failLen(failLen), failKind(failKind), failed(false), buffered(buffer), lost(0), calls(0)
{
    sim::Host host;
    if (buffer) { buf.resize(buffer); setp(buf.data(), buf.data() + buffer); }
}

// How many of the bytes are taken.
size_t Sink::take(const char* s, size_t n)
{
    size_t ok = n;
    {
        sim::Host host;
        calls++;
        if (failLen && got.size() + n > failAt) {
            ok = got.size() < failAt ? failAt - got.size() : 0;
            if (failLen != ~size_t(0)) failLen--;
            failed = true;
        }
        got.append(s, ok);
        lost += n - ok;
    }
    if (ok < n) {
        if (failKind == Throw || failKind == ThrowInt) PROBE("fault: stream write threw");
        else if (failKind == NoMemory) PROBE("fault: stream write ran out of memory");
        else if (ok) PROBE("fault: short stream write");
        else PROBE("fault: stream write refused");
        if (failKind == Throw) throw std::runtime_error("device error");
        if (failKind == NoMemory) throw std::bad_alloc();
        if (failKind == ThrowInt) throw 7;
    }
    return ok;
}

bool Sink::flush()
{
    size_t n = pptr() - pbase();
    if (!n) return true;
    size_t ok = 0;
    setp(buf.data(), buf.data() + buf.size()); // what can't be written is lost
    ok = take(buf.data(), n);
    return ok == n;
}

Sink::int_type Sink::overflow(int_type c)
{
    if (buffered) {
        if (!flush()) return traits_type::eof();
        if (!traits_type::eq_int_type(c, traits_type::eof())) { *pptr() = traits_type::to_char_type(c); pbump(1); }
        return traits_type::not_eof(c);
    }
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    char x = traits_type::to_char_type(c);
    return take(&x, 1) == 1 ? c : traits_type::eof();
}

std::streamsize Sink::xsputn(const char* s, std::streamsize n)
{
    if (buffered) return std::streambuf::xsputn(s, n);
    return take(s, n);
}

int Sink::sync() { return buffered && !flush() ? -1 : 0; }

std::string Sink::accepted() const
{
    std::string s = got;
    if (buffered) s.append(pbase(), pptr() - pbase());
    return s;
}

std::vector<int> genChunks(sim::Rng& rng, size_t n)
{
    std::vector<int> c;
    switch (rng.below(4)) {
    case 0: c.push_back(1); break;
    case 1: c.push_back(1 + rng.below(8)); break;
    default: for (size_t k = 1 + rng.below(12); k > 0; --k) c.push_back(rng.chance(1, 2) ? 1 : 1 + rng.below(16));
    }
    return c;
}
std::string chunkText(const std::vector<int>& c)
{
    std::string s;
    for (size_t i = 0; i < c.size(); ++i) { if (i) s += ','; s += std::to_string(c[i]); }
    return s;
}
std::vector<int> chunkList(const std::string& s)
{
    std::vector<int> r;
    for (auto& x : h::split(s, ',')) if (!x.empty()) r.push_back(atoi(x.c_str()));
    return r;
}

} // namespace js

// -------------------------------------------------------------- registration --
reflectTypeDecl(js::Money)
reflectTypeDecl(js::Point)
reflectTypeDecl(js::Leaf)
reflectTypeDecl(js::Node)
reflectTypeDecl(js::Ping)
reflectTypeDecl(js::Pong)
reflectTypeDecl(js::Holder)
reflectTypeDecl(js::Raw)
reflectTypeDecl(js::Nums)
reflectTypeDecl(js::Deriv)
reflectTypeDecl(js::Dup)
reflectTypeDecl(js::NoFn)
reflectTypeDecl(js::Inner)
reflectTypeDecl(js::Ring)

reflectTypeImpl(js::Money)
{
    reflectPlumbing();
    reflectFn(parseJson);
    reflectFn(printJson);
    reflectTypeValue(json, json::custom("parseJson", "printJson"));
}
reflectTypeImpl(js::Point)
{
    reflectPlumbing();
    reflectFn(parseJson);
    reflectFn(printJson);
    reflectTypeValue(json, json::custom("parseJson", "printJson"));
}
reflectTypeImpl(js::Leaf)
{
    reflectPlumbing();
    reflectAllocDefaultCons();
    reflectField(i); reflectField(f); reflectField(b); reflectField(s);
}
reflectTypeImpl(js::Node)
{
    reflectPlumbing();
    reflectAllocDefaultCons();
    reflectField(id); reflectField(name); reflectField(nums); reflectField(map); reflectField(next); reflectField(kids);
    reflectField(leaf); reflectField(price); reflectField(at); reflectField(opt); reflectField(optName); reflectField(hidden);
    reflectField(leaves);
    reflectFieldValue(opt, json, json::skipEmpty());
    reflectFieldValue(optName, json, json::alias("a/\"b\"") | json::skipEmpty());
    reflectFieldValue(hidden, json, json::skip());
}
reflectTypeImpl(js::Ping)
{
    reflectPlumbing();
    reflectAllocDefaultCons();
    reflectField(b); reflectField(pong); reflectField(pings);
}
reflectTypeImpl(js::Pong)
{
    reflectPlumbing();
    reflectAllocDefaultCons();
    reflectField(pings); reflectField(ping);
}
reflectTypeImpl(js::Holder)
{
    reflectPlumbing();
    reflectAllocDefaultCons();
    reflectField(leaf); reflectField(inner); reflectField(n);
}
reflectTypeImpl(js::Raw)
{
    reflectPlumbing();
    reflectField(p); reflectField(s); reflectField(n);
}
reflectTypeImpl(js::Nums)
{
    reflectPlumbing();
    reflectField(c); reflectField(sc); reflectField(uc); reflectField(sh); reflectField(us); reflectField(i); reflectField(u);
    reflectField(ul); reflectField(ll); reflectField(ull); reflectField(f); reflectField(ld);
    reflectField(pi); reflectField(shorts); reflectField(floats);
}
reflectTypeImpl(js::Deriv)
{
    reflectParent(js::Leaf);
    reflectPlumbing();
    reflectField(extra); reflectField(leaves);
}
reflectTypeImpl(js::Dup)
{
    reflectPlumbing();
    reflectField(a); reflectField(b);
    reflectFieldValue(b, json, json::alias("a"));
}
reflectTypeImpl(js::NoFn)
{
    reflectPlumbing();
    reflectField(a);
    reflectTypeValue(json, json::custom("nowhere", "nowhere"));
}
reflectTypeImpl(js::Inner)
{
    reflectPlumbing();
    reflectAllocDefaultCons();
    reflectField(leaf); reflectField(self); reflectField(dup);
}
reflectTypeImpl(js::Ring)
{
    reflectPlumbing();
    reflectField(leaf); reflectField(ring); reflectField(inner);
}

namespace js {
const reflect::Type* someType(int k)
{
    switch (k) {
    case 3: return reflect::type<Node>();
    case 4: return reflect::type<Ping>();
    case 5: return reflect::type< std::vector<Leaf> >();
    default: return reflect::type< std::map<std::string, Leaf> >();
    }
}
} // namespace js
