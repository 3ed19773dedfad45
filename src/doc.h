/* Reference model of documents, independent JSON and MessagePack codecs, conversions to and
 * from the library's trees. Nothing in here calls the library's parsers or tools. */
#ifndef DOC_H
#define DOC_H

#include "mc.h"
#include "Srl/Srl.h"
#include "Srl/Lib.h"
#include <cmath>
#include <sstream>

namespace doc {

    typedef std::vector<uint8_t> Buf;
    typedef __int128 I;

    enum Kind { KNull, KBool, KInt, KFloat, KDouble, KStr, KBin };

    struct Val {
        Kind kind = KNull;
        Srl::Type type = Srl::Type::Null;   /* type used when inserting */
        I i = 0;
        double d = 0;
        std::string s;                      /* text (UTF-8) or bytes */

        static Val null()             { return { }; }
        static Val boolean(bool b)    { Val v; v.kind = KBool; v.type = Srl::Type::Bool; v.i = b; return v; }
        static Val integer(I i, Srl::Type t) { Val v; v.kind = KInt; v.type = t; v.i = i; return v; }
        static Val i64(int64_t i)     { return integer(i, Srl::Type::I64); }
        static Val u64(uint64_t i)    { return integer(i, Srl::Type::UI64); }
        static Val i32(int32_t i)     { return integer(i, Srl::Type::I32); }
        static Val fp(float f)        { Val v; v.kind = KFloat; v.type = Srl::Type::FP32; v.d = f; return v; }
        static Val dbl(double f)      { Val v; v.kind = KDouble; v.type = Srl::Type::FP64; v.d = f; return v; }
        static Val str(const std::string& s) { Val v; v.kind = KStr; v.type = Srl::Type::String; v.s = s; return v; }
        static Val bin(const std::string& s) { Val v; v.kind = KBin; v.type = Srl::Type::Binary; v.s = s; return v; }
    };

    struct Doc {
        bool array = false;
        std::vector<std::pair<std::string, Val>> values;
        std::vector<std::pair<std::string, Doc>> nodes;
        Doc(bool array_ = false) : array(array_) { }
        Doc& v(const std::string& n, const Val& x) { values.push_back({ n, x }); return *this; }
        Doc& n(const std::string& n, Doc x) { nodes.emplace_back(n, std::move(x)); return *this; }
    };

    inline std::string i2s(I i)
    {
        bool neg = i < 0; unsigned __int128 u = neg ? -(unsigned __int128)i : (unsigned __int128)i;
        std::string r;
        do { r.insert(r.begin(), '0' + (int)(u % 10)); u /= 10; } while(u);
        return neg ? "-" + r : r;
    }

    inline std::string show(const Val& v)
    {
        char b[64];
        switch(v.kind) {
            case KNull: return "null";
            case KBool: return v.i ? "true" : "false";
            case KInt: return i2s(v.i);
            case KFloat: snprintf(b, sizeof b, "%.9gf", v.d); return b;
            case KDouble: snprintf(b, sizeof b, "%.17g", v.d); return b;
            case KStr: return "\"" + mc::show(v.s, 60) + "\"";
            case KBin: return "bin<" + mc::show(v.s, 60) + ">";
        }
        return "?";
    }

    inline std::string show(const Doc& d, int max = 600)
    {
        std::string r = d.array ? "[" : "{";
        for(auto& v : d.values) { r += (d.array ? "" : mc::show(v.first, 40) + ":") + show(v.second) + ","; if((int)r.size() > max) return r + "..."; }
        for(auto& n : d.nodes)  { r += (d.array ? "" : mc::show(n.first, 40) + ":") + show(n.second, max) + ","; if((int)r.size() > max) return r + "..."; }
        return r + (d.array ? "]" : "}");
    }

    /* base64 by the standard, independent of the library */
    inline std::string base64(const std::string& s)
    {
        static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        std::string r;
        for(size_t i = 0; i < s.size(); i += 3) {
            uint32_t n = (uint8_t)s[i] << 16;
            if(i + 1 < s.size()) n |= (uint8_t)s[i + 1] << 8;
            if(i + 2 < s.size()) n |= (uint8_t)s[i + 2];
            r += t[n >> 18]; r += t[(n >> 12) & 63];
            r += i + 1 < s.size() ? t[(n >> 6) & 63] : '=';
            r += i + 2 < s.size() ? t[n & 63] : '=';
        }
        return r;
    }

    inline void put_utf8(std::string& r, uint32_t c)
    {
        if(c < 0x80) r += (char)c;
        else if(c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
        else if(c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
        else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
    }
    inline std::string utf8(uint32_t c) { std::string r; put_utf8(r, c); return r; }

    /* -> code point or -1, advances i */
    inline int64_t get_utf8(const std::string& s, size_t& i)
    {
        uint8_t c = s[i];
        if(c < 0x80) { i++; return c; }
        int n = c >= 0xF0 && c <= 0xF4 ? 3 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xC2 && c < 0xE0 ? 1 : 0;
        if(!n || i + n >= s.size()) return -1;
        uint32_t v = c & (0x3F >> n);
        for(int k = 1; k <= n; k++) {
            uint8_t d = s[i + k];
            if((d & 0xC0) != 0x80) return -1;
            v = v << 6 | (d & 63);
        }
        if(n == 2 && (v < 0x800 || (v >= 0xD800 && v < 0xE000))) return -1;
        if(n == 3 && (v < 0x10000 || v > 0x10FFFF)) return -1;
        i += n + 1;
        return v;
    }
    inline std::u32string to32(const std::string& s)
    {
        std::u32string r;
        for(size_t i = 0; i < s.size();) { auto c = get_utf8(s, i); if(c < 0) { r += 0xFFFFFFFF; i++; } else r += (char32_t)c; }
        return r;
    }
    inline std::string from32(const std::u32string& s) { std::string r; for(auto c : s) put_utf8(r, c); return r; }
    inline std::u16string to16(const std::u32string& s)
    {
        std::u16string r;
        for(auto c : s) {
            if(c < 0x10000) r += (char16_t)c;
            else { r += (char16_t)(0xD800 + ((c - 0x10000) >> 10)); r += (char16_t)(0xDC00 + ((c - 0x10000) & 0x3FF)); }
        }
        return r;
    }

    /* comparison ********************************************************************************/

    /* A floating point number written as text may be the shortest digits of an integer (2^63 as
     * 9223372036854776000): it is the same number if it is the same after conversion back. */
    inline bool same_num(const Val& e, const Val& g, bool text = false)
    {
        if(e.kind == KInt && g.kind == KInt) return e.i == g.i;
        if(e.kind == KFloat) {
            if(g.kind == KInt) return (float)e.d == (float)g.i && (text || (I)(float)e.d == g.i);
            if(std::isnan(e.d)) return std::isnan(g.d);
            return (float)e.d == (float)g.d;
        }
        if(e.kind == KDouble) {
            if(g.kind == KInt) return (double)g.i == e.d && (text || (std::fabs(e.d) < 1e30 && (I)e.d == g.i));
            if(std::isnan(e.d)) return std::isnan(g.d);
            return e.d == g.d;
        }
        if(e.kind == KInt) return (double)e.i == g.d && std::fabs(g.d) < 1e30 && (I)g.d == e.i;
        return false;
    }

    inline bool is_num(Kind k) { return k == KInt || k == KFloat || k == KDouble; }

    /* text: the document went through JSON */
    inline bool same(const Val& e, const Val& g, bool text)
    {
        if(is_num(e.kind)) return is_num(g.kind) && same_num(e, g, text);
        if(e.kind == KBin && text) return g.kind == KStr && g.s == base64(e.s);
        if(e.kind != g.kind) return false;
        switch(e.kind) {
            case KNull: return true;
            case KBool: return e.i == g.i;
            default: return e.s == g.s;
        }
    }

    /* -> description of the first difference or "" */
    inline std::string diff(const Doc& e, const Doc& g, bool text, bool root = true)
    {
        if(e.array != g.array) return "scope kinds differ";
        if(e.values.size() != g.values.size()) return "expected " + std::to_string(e.values.size()) + " values, got " + std::to_string(g.values.size());
        if(e.nodes.size() != g.nodes.size()) return "expected " + std::to_string(e.nodes.size()) + " scopes, got " + std::to_string(g.nodes.size());
        for(size_t i = 0; i < e.values.size(); i++) {
            auto& a = e.values[i]; auto& b = g.values[i];
            if(!e.array && a.first != b.first) return "value " + std::to_string(i) + ": expected name '" + mc::show(a.first) + "', got '" + mc::show(b.first) + "'";
            if(!same(a.second, b.second, text)) return "value " + std::to_string(i) + " '" + mc::show(a.first) + "': expected " + show(a.second) + ", got " + show(b.second);
        }
        for(size_t i = 0; i < e.nodes.size(); i++) {
            auto& a = e.nodes[i]; auto& b = g.nodes[i];
            if(!e.array && a.first != b.first) return "scope " + std::to_string(i) + ": expected name '" + mc::show(a.first) + "', got '" + mc::show(b.first) + "'";
            auto d = diff(a.second, b.second, text, false);
            if(!d.empty()) return "in scope " + std::to_string(i) + " '" + mc::show(a.first) + "': " + d;
        }
        return "";
    }

    inline uint64_t hash(const Val& v)
    {
        uint64_t h = mc::mix(v.kind, (uint64_t)v.i);
        uint64_t b; memcpy(&b, &v.d, 8);
        return mc::mix(mc::mix(h, b), mc::hash(v.s));
    }
    inline uint64_t hash(const Doc& d)
    {
        uint64_t h = d.array ? 7 : 5;
        for(auto& v : d.values) h = mc::mix(mc::mix(h, mc::hash(v.first)), hash(v.second));
        for(auto& v : d.nodes) h = mc::mix(mc::mix(h, mc::hash(v.first)), hash(v.second) + 3);
        return h;
    }

    /* trees *************************************************************************************/

    inline void insert(Srl::Node& n, const std::string& name, const Val& v)
    {
        switch(v.type) {
            case Srl::Type::Null: n.insert(name, nullptr); break;
            case Srl::Type::Bool: n.insert(name, (bool)v.i); break;
            case Srl::Type::I8:   n.insert(name, (int8_t)v.i); break;
            case Srl::Type::UI8:  n.insert(name, (uint8_t)v.i); break;
            case Srl::Type::I16:  n.insert(name, (int16_t)v.i); break;
            case Srl::Type::UI16: n.insert(name, (uint16_t)v.i); break;
            case Srl::Type::I32:  n.insert(name, (int32_t)v.i); break;
            case Srl::Type::UI32: n.insert(name, (uint32_t)v.i); break;
            case Srl::Type::I64:  n.insert(name, (int64_t)v.i); break;
            case Srl::Type::UI64: n.insert(name, (uint64_t)v.i); break;
            case Srl::Type::FP32: n.insert(name, (float)v.d); break;
            case Srl::Type::FP64: n.insert(name, v.d); break;
            case Srl::Type::String: n.insert(name, v.s); break;
            case Srl::Type::Binary: n.insert(name, Srl::BitWrap((const uint8_t*)v.s.data(), v.s.size())); break;
            default: break;
        }
    }

    inline void build(Srl::Node& n, const Doc& d)
    {
        for(auto& v : d.values) insert(n, v.first, v.second);
        for(auto& c : d.nodes) {
            n.insert(c.first, Srl::ScopeWrap([&c](Srl::Node& m) { build(m, c.second); }, c.second.array ? Srl::Type::Array : Srl::Type::Object));
        }
    }

    inline Val get(const Srl::Value& v)
    {
        switch(v.type()) {
            case Srl::Type::Null: return Val::null();
            case Srl::Type::Bool: return Val::boolean(v.unwrap<bool>());
            case Srl::Type::I8: case Srl::Type::I16: case Srl::Type::I32: case Srl::Type::I64:
                return Val::integer(v.unwrap<int64_t>(), v.type());
            case Srl::Type::UI8: case Srl::Type::UI16: case Srl::Type::UI32: case Srl::Type::UI64:
                return Val::integer(v.unwrap<uint64_t>(), v.type());
            case Srl::Type::FP32: return Val::fp(v.unwrap<float>());
            case Srl::Type::FP64: return Val::dbl(v.unwrap<double>());
            case Srl::Type::String: return Val::str(v.unwrap<std::string>());
            case Srl::Type::Binary: return Val::bin(std::string((const char*)v.data(), v.size()));
            default: throw mc::Violation { "value of invalid type", std::to_string((int)v.type()) };
        }
    }

    inline Doc extract(Srl::Node& n)
    {
        Doc d(n.type() == Srl::Type::Array);
        if(n.type() != Srl::Type::Array && n.type() != Srl::Type::Object)
            throw mc::Violation { "node of invalid type", std::to_string((int)n.type()) };
        n.foreach_value([&](Srl::Value& v) { d.values.push_back({ v.name().unwrap(), get(v) }); });
        n.foreach_node([&](Srl::Node& c) { d.nodes.push_back({ c.name().unwrap(), extract(c) }); });
        return d;
    }

    /* formats ***********************************************************************************/

    enum Fmt { JsonC, JsonS, Msg, SrlF, NumFmt };
    inline const char* fmt_name(int f) { static const char* n[] { "json", "json-spaced", "msgpack", "srl" }; return n[f]; }
    inline bool is_text(int f) { return f == JsonC || f == JsonS; }

    /* call fn(parser) with a new parser of the format */
    template<class F> auto with(int f, F&& fn)
    {
        if(f == JsonC) { Srl::PJson p; return fn(p); }
        if(f == JsonS) { Srl::PJson p(false); return fn(p); }
        if(f == Msg)   { Srl::PMsgPack p; return fn(p); }
        Srl::PSrl p; return fn(p);
    }

    inline Buf write(Srl::Tree& t, int f) { return with(f, [&](auto& p) { return t.to_source(p); }); }

    inline Buf write_stream(Srl::Tree& t, int f)
    {
        std::ostringstream os;
        with(f, [&](auto& p) { t.to_source(os, p); return 0; });
        auto s = os.str();
        return Buf(s.begin(), s.end());
    }
    inline void load(Srl::Tree& t, int f, const Buf& b) { with(f, [&](auto& p) { t.load_source(b.data(), b.size(), p); return 0; }); }
    inline void load(Srl::Tree& t, int f, std::istream& is) { with(f, [&](auto& p) { t.load_source(is, p); return 0; }); }

    /* memory of exactly the size of the data, so that reading past the end is detected */
    struct Exact {
        uint8_t* p; size_t n;
        Exact(const void* d, size_t n_) : p((uint8_t*)malloc(n_ ? n_ : 1)), n(n_) { if(n) memcpy(p, d, n); else { free(p); p = (uint8_t*)malloc(1); } }
        explicit Exact(const Buf& b) : Exact(b.data(), b.size()) { }
        explicit Exact(const std::string& b) : Exact(b.data(), b.size()) { }
        ~Exact() { free(p); }
        Exact(const Exact&) = delete;
        Srl::Lib::In::Source src() const { return Srl::Lib::In::Source(p, n); }
    };

    inline Doc load_doc(int f, const Buf& b)
    {
        Srl::Tree t;
        Exact e(b);
        with(f, [&](auto& p) { t.load_source(e.p, e.n, p); return 0; });
        return extract(t.root());
    }

    /* strict JSON *******************************************************************************/

    struct Json {
        const std::string& s; size_t i = 0; std::string err;
        bool comments = false;
        Json(const std::string& s_) : s(s_) { }

        bool bad(const std::string& m) { if(err.empty()) err = m + " at " + std::to_string(i); return false; }
        void ws()
        {
            while(true) {
                while(i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) i++;
                if(comments && i + 1 < s.size() && s[i] == '/' && s[i + 1] == '*') {
                    auto e = s.find("*/", i + 2);
                    i = e == std::string::npos ? s.size() : e + 2;
                } else if(comments && i + 1 < s.size() && s[i] == '/' && s[i + 1] == '/') {
                    while(i < s.size() && s[i] != '\n' && s[i] != '\r') i++;
                } else return;
            }
        }
        bool hex4(uint32_t& v)
        {
            v = 0;
            for(int k = 0; k < 4; k++, i++) {
                if(i >= s.size() || !isxdigit((unsigned char)s[i])) return bad("hex digit expected");
                v = v * 16 + (s[i] <= '9' ? s[i] - '0' : (s[i] | 32) - 'a' + 10);
            }
            return true;
        }
        bool string(std::string& r)
        {
            if(i >= s.size() || s[i] != '"') return bad("string expected");
            i++;
            while(i < s.size() && s[i] != '"') {
                uint8_t c = s[i];
                if(c < 0x20) return bad("unescaped control character");
                if(c == '\\') {
                    if(++i >= s.size()) return bad("end in escape");
                    char e = s[i++];
                    switch(e) {
                        case '"': case '\\': case '/': r += e; break;
                        case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break;
                        case 'r': r += '\r'; break; case 't': r += '\t'; break;
                        case 'u': {
                            uint32_t u;
                            if(!hex4(u)) return false;
                            if(u >= 0xD800 && u < 0xDC00) {
                                uint32_t l;
                                if(i + 1 >= s.size() || s[i] != '\\' || s[i + 1] != 'u') return bad("lone surrogate");
                                i += 2;
                                if(!hex4(l)) return false;
                                if(l < 0xDC00 || l > 0xDFFF) return bad("lone surrogate");
                                u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                            } else if(u >= 0xDC00 && u < 0xE000) return bad("lone surrogate");
                            put_utf8(r, u);
                            break;
                        }
                        default: return bad("invalid escape");
                    }
                } else {
                    auto cp = get_utf8(s, i);
                    if(cp < 0) return bad("invalid UTF-8");
                    put_utf8(r, cp);
                }
            }
            if(i >= s.size()) return bad("end in string");
            i++;
            return true;
        }
        bool number(Val& v)
        {
            size_t b = i;
            bool frac = false;
            if(s[i] == '-') i++;
            if(i >= s.size() || !isdigit((unsigned char)s[i])) return bad("digit expected");
            if(s[i] == '0') i++;
            else while(i < s.size() && isdigit((unsigned char)s[i])) i++;
            if(i < s.size() && s[i] == '.') {
                frac = true; i++;
                if(i >= s.size() || !isdigit((unsigned char)s[i])) return bad("digit expected");
                while(i < s.size() && isdigit((unsigned char)s[i])) i++;
            }
            if(i < s.size() && (s[i] | 32) == 'e') {
                frac = true; i++;
                if(i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
                if(i >= s.size() || !isdigit((unsigned char)s[i])) return bad("digit expected");
                while(i < s.size() && isdigit((unsigned char)s[i])) i++;
            }
            auto t = s.substr(b, i - b);
            if(!frac && t.size() <= 21) {
                I n = 0; bool neg = t[0] == '-';
                for(size_t k = neg; k < t.size(); k++) n = n * 10 + (t[k] - '0');
                if(neg) n = -n;
                if(n >= (I)INT64_MIN && n <= (I)UINT64_MAX) { v = n < 0 ? Val::i64((int64_t)n) : Val::u64((uint64_t)n); return true; }
            }
            v = Val::dbl(strtod(t.c_str(), nullptr));
            return true;
        }
        bool lit(const char* l) { auto n = strlen(l); if(s.compare(i, n, l)) return bad("literal expected"); i += n; return true; }

        bool item(Doc& d, const std::string& name)
        {
            ws();
            if(i >= s.size()) return bad("value expected");
            char c = s[i];
            if(c == '{' || c == '[') { Doc n; if(!scope(n)) return false; d.n(name, std::move(n)); return true; }
            Val v;
            if(c == '"') { v = Val::str(""); if(!string(v.s)) return false; }
            else if(c == 't') { if(!lit("true")) return false; v = Val::boolean(true); }
            else if(c == 'f') { if(!lit("false")) return false; v = Val::boolean(false); }
            else if(c == 'n') { if(!lit("null")) return false; }
            else if(!number(v)) return false;
            d.v(name, v);
            return true;
        }
        bool scope(Doc& d)
        {
            ws();
            if(i >= s.size() || (s[i] != '{' && s[i] != '[')) return bad("scope expected");
            d.array = s[i] == '[';
            char end = d.array ? ']' : '}';
            i++; ws();
            if(i < s.size() && s[i] == end) { i++; return true; }
            while(true) {
                std::string name;
                if(!d.array) {
                    ws();
                    if(!string(name)) return false;
                    ws();
                    if(i >= s.size() || s[i] != ':') return bad("colon expected");
                    i++;
                }
                if(!item(d, name)) return false;
                ws();
                if(i >= s.size()) return bad("end in scope");
                if(s[i] == end) { i++; return true; }
                if(s[i] != ',') return bad("comma expected");
                i++;
            }
        }
        /* whole document */
        bool parse(Doc& d) { if(!scope(d)) return false; ws(); return i == s.size() ? true : bad("trailing data"); }
    };

    /* MessagePack *******************************************************************************/

    struct MsgDec {
        const Buf& b; size_t i = 0; std::string err;
        MsgDec(const Buf& b_) : b(b_) { }
        bool bad(const std::string& m) { if(err.empty()) err = m + " at " + std::to_string(i); return false; }
        bool num(int n, uint64_t& v)
        {
            if(b.size() - i < (size_t)n) return bad("end of data");
            v = 0;
            while(n--) v = v << 8 | b[i++];
            return true;
        }
        bool bytes(uint64_t n, std::string& s)
        {
            if(b.size() - i < n) return bad("end of data");
            s.assign((const char*)b.data() + i, n); i += n;
            return true;
        }
        bool key(std::string& s)
        {
            Doc tmp(true);
            if(!item(tmp, "")) return false;
            if(tmp.values.size() != 1 || tmp.values[0].second.kind != KStr) return bad("key is not text");
            s = tmp.values[0].second.s;
            return true;
        }
        bool scope(Doc& d, bool array, uint64_t n)
        {
            d.array = array;
            for(uint64_t k = 0; k < n; k++) {
                std::string name;
                if(!array && !key(name)) return false;
                if(!item(d, name)) return false;
            }
            return true;
        }
        bool sub(Doc& d, const std::string& name, bool array, uint64_t n)
        {
            Doc c;
            if(!scope(c, array, n)) return false;
            d.n(name, std::move(c));
            return true;
        }
        bool item(Doc& d, const std::string& name)
        {
            uint64_t p, v;
            std::string s;
            if(!num(1, p)) return false;
            auto put = [&](const Val& x) { d.v(name, x); return true; };
            if(p < 0x80) return put(Val::u64(p));
            if(p < 0x90) return sub(d, name, false, p & 15);
            if(p < 0xA0) return sub(d, name, true, p & 15);
            if(p < 0xC0) return bytes(p & 31, s) && put(Val::str(s));
            if(p >= 0xE0) return put(Val::i64((int8_t)p));
            switch(p) {
                case 0xC0: return put(Val::null());
                case 0xC2: return put(Val::boolean(false));
                case 0xC3: return put(Val::boolean(true));
                case 0xC4: return num(1, v) && bytes(v, s) && put(Val::bin(s));
                case 0xC5: return num(2, v) && bytes(v, s) && put(Val::bin(s));
                case 0xC6: return num(4, v) && bytes(v, s) && put(Val::bin(s));
                case 0xCA: { if(!num(4, v)) return false; uint32_t u = v; float f; memcpy(&f, &u, 4); return put(Val::fp(f)); }
                case 0xCB: { if(!num(8, v)) return false; double f; memcpy(&f, &v, 8); return put(Val::dbl(f)); }
                case 0xCC: return num(1, v) && put(Val::u64(v));
                case 0xCD: return num(2, v) && put(Val::u64(v));
                case 0xCE: return num(4, v) && put(Val::u64(v));
                case 0xCF: return num(8, v) && put(Val::u64(v));
                case 0xD0: return num(1, v) && put(Val::i64((int8_t)v));
                case 0xD1: return num(2, v) && put(Val::i64((int16_t)v));
                case 0xD2: return num(4, v) && put(Val::i64((int32_t)v));
                case 0xD3: return num(8, v) && put(Val::i64((int64_t)v));
                case 0xD9: return num(1, v) && bytes(v, s) && put(Val::str(s));
                case 0xDA: return num(2, v) && bytes(v, s) && put(Val::str(s));
                case 0xDB: return num(4, v) && bytes(v, s) && put(Val::str(s));
                case 0xDC: return num(2, v) && sub(d, name, true, v);
                case 0xDD: return num(4, v) && sub(d, name, true, v);
                case 0xDE: return num(2, v) && sub(d, name, false, v);
                case 0xDF: return num(4, v) && sub(d, name, false, v);
            }
            return bad("unsupported prefix " + std::to_string(p));
        }
        bool parse(Doc& d)
        {
            Doc tmp(true);
            if(!item(tmp, "")) return false;
            if(tmp.nodes.size() != 1) return bad("no scope");
            d = tmp.nodes[0].second;
            return i == b.size() ? true : bad("trailing data");
        }
    };

    inline void be(Buf& b, uint64_t v, int n) { while(n--) b.push_back((uint8_t)(v >> (8 * n))); }

    /* independent encoder; width(kind, minimal, max) lets the caller choose among the legal widths */
    struct MsgEnc {
        std::function<int(int)> pick = [](int) { return 0; };   /* 0 .. n - 1 */
        Buf b;

        void header(uint64_t n, std::vector<std::pair<int, int>> forms /* prefix, bytes */, int fix_prefix, uint64_t fix_max)
        {
            std::vector<std::pair<int, int>> ok;
            if(fix_prefix && n <= fix_max) ok.push_back({ fix_prefix | (int)n, 0 });
            for(auto& f : forms) if(f.second >= 8 || n < (1ull << (8 * f.second))) ok.push_back(f);
            auto f = ok[pick((int)ok.size())];
            b.push_back(f.first);
            be(b, n, f.second);
        }
        void str(const std::string& s) { header(s.size(), { { 0xD9, 1 }, { 0xDA, 2 }, { 0xDB, 4 } }, 0xA0, 31); b.insert(b.end(), s.begin(), s.end()); }
        void val(const Val& v)
        {
            switch(v.kind) {
                case KNull: b.push_back(0xC0); break;
                case KBool: b.push_back(v.i ? 0xC3 : 0xC2); break;
                case KStr: str(v.s); break;
                case KBin: header(v.s.size(), { { 0xC4, 1 }, { 0xC5, 2 }, { 0xC6, 4 } }, 0, 0); b.insert(b.end(), v.s.begin(), v.s.end()); break;
                case KFloat: { float f = v.d; uint32_t u; memcpy(&u, &f, 4); b.push_back(0xCA); be(b, u, 4); break; }
                case KDouble: { uint64_t u; memcpy(&u, &v.d, 8); b.push_back(0xCB); be(b, u, 8); break; }
                case KInt: {
                    struct F { int prefix, n; I lo, hi; };
                    static const F fs[] { { 0xCC, 1, 0, 255 }, { 0xCD, 2, 0, 65535 }, { 0xCE, 4, 0, 0xFFFFFFFFll }, { 0xCF, 8, 0, (I)UINT64_MAX },
                        { 0xD0, 1, -128, 127 }, { 0xD1, 2, -32768, 32767 }, { 0xD2, 4, INT32_MIN, INT32_MAX }, { 0xD3, 8, INT64_MIN, INT64_MAX } };
                    std::vector<F> ok;
                    if(v.i >= -32 && v.i <= 127) ok.push_back({ (int)(uint8_t)(int8_t)(int)v.i, 0, 0, 0 });
                    for(auto& f : fs) if(v.i >= f.lo && v.i <= f.hi) ok.push_back(f);
                    auto& f = ok[pick((int)ok.size())];
                    b.push_back(f.prefix); be(b, (uint64_t)v.i, f.n);
                    break;
                }
            }
        }
        void scope(const Doc& d)
        {
            auto n = d.values.size() + d.nodes.size();
            if(d.array) header(n, { { 0xDC, 2 }, { 0xDD, 4 } }, 0x90, 15);
            else        header(n, { { 0xDE, 2 }, { 0xDF, 4 } }, 0x80, 15);
            for(auto& v : d.values) { if(!d.array) str(v.first); val(v.second); }
            for(auto& c : d.nodes) { if(!d.array) str(c.first); scope(c.second); }
        }
    };

    /* plain JSON text of a document (own writer) */
    inline std::string jquote(const std::string& s)
    {
        std::string r = "\"";
        for(unsigned char c : s) {
            if(c == '"' || c == '\\') { r += '\\'; r += c; }
            else if(c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }
    inline std::string jval(const Val& v)
    {
        char b[64];
        switch(v.kind) {
            case KNull: return "null";
            case KBool: return v.i ? "true" : "false";
            case KInt: return i2s(v.i);
            case KFloat: snprintf(b, sizeof b, "%.9g", v.d); return b;
            case KDouble: snprintf(b, sizeof b, "%.17g", v.d); return b;
            case KStr: return jquote(v.s);
            case KBin: return jquote(base64(v.s));
        }
        return "";
    }
    inline std::string json(const Doc& d)
    {
        std::string r = d.array ? "[" : "{";
        bool first = true;
        for(auto& v : d.values) { if(!first) r += ","; first = false; if(!d.array) r += jquote(v.first) + ":"; r += jval(v.second); }
        for(auto& v : d.nodes)  { if(!first) r += ","; first = false; if(!d.array) r += jquote(v.first) + ":"; r += json(v.second); }
        return r + (d.array ? "]" : "}");
    }

    /* strict reference decoders by format; SrlF has none */
    inline bool reference_decode(int f, const Buf& b, Doc& d, std::string& err)
    {
        if(is_text(f)) {
            std::string s(b.begin(), b.end());
            Json j(s);
            bool ok = j.parse(d); err = j.err;
            return ok;
        }
        MsgDec m(b);
        bool ok = m.parse(d); err = m.err;
        return ok;
    }
}

#endif
