// Independent readers and writers of the three formats, written from their specifications
// (RFC 8259, the MessagePack specification, and for the library's own format its published layout).
#include "model.h"
#include <cmath>
#include <cstdlib>

namespace sim {
using namespace std;
typedef const string& S;

struct Cur {
    S s; size_t p = 0;
    Cur(S s_) : s(s_) { }
    [[noreturn]] void bad(const string& m) { throw DecodeError { m + " at offset " + to_string(p) }; }
    uint8_t u8() { if(p >= s.size()) bad("unexpected end"); return (uint8_t)s[p++]; }
    int peek() { return p < s.size() ? (uint8_t)s[p] : -1; }
    string take(size_t n) { if(n > s.size() - p) bad("unexpected end of block of " + to_string(n)); auto r = s.substr(p, n); p += n; return r; }
    uint64_t be(int n) { uint64_t v = 0; for(int i = 0; i < n; i++) v = v << 8 | u8(); return v; }
    uint64_t le(int n) { uint64_t v = 0; for(int i = 0; i < n; i++) v |= (uint64_t)u8() << (8 * i); return v; }
};

//---------------------------------------------------------------- JSON
static void ws(Cur& c) { while(c.peek() == ' ' || c.peek() == '\n' || c.peek() == '\t' || c.peek() == '\r') c.p++; }
static uint32_t hex4(Cur& c)
{
    uint32_t v = 0;
    for(int i = 0; i < 4; i++) { int d = c.u8(); int x = d >= '0' && d <= '9' ? d - '0' : d >= 'a' && d <= 'f' ? d - 'a' + 10 : d >= 'A' && d <= 'F' ? d - 'A' + 10 : -1; if(x < 0) c.bad("bad \\u escape"); v = v << 4 | x; }
    return v;
}
static string jstring(Cur& c)
{
    if(c.u8() != '"') c.bad("expected string");
    string o;
    while(true) {
        uint8_t b = c.u8();
        if(b == '"') break;
        if(b < 0x20) c.bad("control character in string");
        if(b != '\\') { o += (char)b; continue; }
        b = c.u8();
        switch(b) {
            case '"': case '\\': case '/': o += (char)b; break;
            case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': {
                uint32_t v = hex4(c);
                if(v >= 0xD800 && v < 0xDC00) {
                    if(c.u8() != '\\' || c.u8() != 'u') c.bad("lone surrogate");
                    uint32_t l = hex4(c); if(l < 0xDC00 || l > 0xDFFF) c.bad("lone surrogate");
                    v = 0x10000 + ((v - 0xD800) << 10) + (l - 0xDC00);
                } else if(v >= 0xDC00 && v < 0xE000) c.bad("lone surrogate");
                o += utf32_to_utf8(u32string(1, (char32_t)v));
                break;
            }
            default: c.bad("bad escape");
        }
    }
    if(!valid_utf8(o)) c.bad("string is not UTF-8");
    return o;
}
static MV jvalue(Cur& c, int depth)
{
    ws(c);
    int b = c.peek();
    if(b == '{' || b == '[') {
        bool obj = b == '{';
        MV m(obj ? Type::Object : Type::Array);
        c.p++; ws(c);
        if(c.peek() == (obj ? '}' : ']')) { c.p++; return m; }
        while(true) {
            ws(c);
            string n;
            if(obj) { n = jstring(c); ws(c); if(c.u8() != ':') c.bad("expected colon"); }
            m.items.push_back({ n, jvalue(c, depth + 1) });
            ws(c);
            auto d = c.u8();
            if(d == ',') continue;
            if(d == (obj ? '}' : ']')) return m;
            c.bad("expected , or end of scope");
        }
    }
    if(b == '"') return MV::str(jstring(c));
    auto lit = [&](const char* t) { auto n = strlen(t); if(c.s.compare(c.p, n, t) == 0) { c.p += n; return true; } return false; };
    if(lit("true")) return MV::boolean(true);
    if(lit("false")) return MV::boolean(false);
    if(lit("null")) return MV();
    size_t st = c.p; bool fp = false;
    if(c.peek() == '-') c.p++;
    if(c.peek() == '0') c.p++;
    else if(c.peek() >= '1' && c.peek() <= '9') while(isdigit(c.peek())) c.p++;
    else c.bad("expected value");
    if(c.peek() == '.') { fp = true; c.p++; if(!isdigit(c.peek())) c.bad("bad fraction"); while(isdigit(c.peek())) c.p++; }
    if(c.peek() == 'e' || c.peek() == 'E') { fp = true; c.p++; if(c.peek() == '+' || c.peek() == '-') c.p++; if(!isdigit(c.peek())) c.bad("bad exponent"); while(isdigit(c.peek())) c.p++; }
    auto t = c.s.substr(st, c.p - st);
    if(!fp) {
        errno = 0;
        if(t[0] == '-') { auto v = strtoll(t.c_str(), nullptr, 10); if(!errno) return MV::num(Type::I64, (int64_t)v); }
        else { auto v = strtoull(t.c_str(), nullptr, 10); if(!errno) return MV::num(Type::UI64, (uint64_t)v); }
    }
    return MV::num(Type::FP64, strtod(t.c_str(), nullptr));
}
MV decode_json(S s)
{
    Cur c(s); auto m = jvalue(c, 0); ws(c);
    if(c.p != s.size()) c.bad("trailing bytes");
    return m;
}
static void jenc_ws(string& o, Chooser* ch) { if(!ch) return; if(!ch->chance(1, 3)) return; auto n = ch->range(1, 3); for(uint32_t i = 0; i < n; i++) o += " \n\t\r"[ch->below(4)]; }
static void jenc_str(string& o, S s, Chooser* ch)
{
    o += '"';
    bool lots = ch && ch->chance(1, 4);
    auto esc = [&](uint32_t u) { char b[8]; snprintf(b, sizeof b, ch && ch->chance(1, 2) ? "\\u%04X" : "\\u%04x", u); o += b; };
    auto cps = utf8_to_utf32(s);
    size_t idx = 0;
    for(auto cp : cps) {
        bool e = lots && idx++ < 30 && ch->chance(1, 4);
        if(e) {
            if(cp >= 0x10000) { auto v = cp - 0x10000; esc(0xD800 + (v >> 10)); esc(0xDC00 + (v & 1023)); } else esc(cp);
            continue;
        }
        switch(cp) {
            case '"': o += "\\\""; break; case '\\': o += "\\\\"; break;
            case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break;
            case '/': o += lots ? "\\/" : "/"; break;
            default: if(cp < 0x20) esc(cp); else o += utf32_to_utf8(u32string(1, cp));
        }
    }
    o += '"';
}
static void jenc(string& o, const MV& m, Chooser* ch)
{
    switch(m.tp) {
        case Type::Object: case Type::Array: {
            bool obj = m.tp == Type::Object, first = true;
            o += obj ? '{' : '[';
            for(auto& p : m.items) {
                if(!first) { o += ','; } first = false;
                jenc_ws(o, ch);
                if(obj) { jenc_str(o, p.first, ch); jenc_ws(o, ch); o += ':'; jenc_ws(o, ch); }
                jenc(o, p.second, ch);
                jenc_ws(o, ch);
            }
            if(m.items.empty()) jenc_ws(o, ch);
            o += obj ? '}' : ']';
            break;
        }
        case Type::Null: o += "null"; break;
        case Type::Bool: o += m.b ? "true" : "false"; break;
        case Type::String: jenc_str(o, m.s, ch); break;
        case Type::Binary: jenc_str(o, base64(m.s), ch); break;
        case Type::FP32: case Type::FP64: {
            char b[64];
            switch(ch ? ch->below(4) : 0) {
                case 1: snprintf(b, sizeof b, "%.17e", m.d); break;
                case 2: snprintf(b, sizeof b, "%.17E", m.d); break;
                default: snprintf(b, sizeof b, "%.17g", m.d);
            }
            if(m.tp == Type::FP32) snprintf(b, sizeof b, "%.9g", m.d);
            string t = b;
            if(ch && ch->chance(1, 6)) {
                // as many digits as one likes
                auto n = ch->chance(1, 2) ? ch->range(1, 90) : ch->of(vector<uint32_t> { 10, 30, 250, 1000, 1100 }) + ch->below(6);
                // or a text of a round size
                if(ch->chance(1, 2)) { auto size = (1u << ch->range(5, 10)) - 2 + ch->below(5); if(size > t.size() + 1) n = size - (uint32_t)t.size() - (t.find('.') == string::npos ? ch->below(2) : 0); }
                auto e = t.find_first_of("eE"); auto man = t.substr(0, e), ex = e == string::npos ? "" : t.substr(e);
                if(ch->chance(1, 3) && !ex.empty()) { auto d = ex.find_first_of("0123456789"); ex.insert(d, n, '0'); }
                else { if(man.find('.') == string::npos) man += '.'; man += string(n, '0'); }
                t = man + ex;
            }
            o += t; break;
        }
        default: o += is_uns(m.tp) ? to_string(m.u) : to_string(m.i);
    }
}
string encode_json(const MV& m, Chooser* ch) { string o; jenc_ws(o, ch); jenc(o, m, ch); return o; }

//---------------------------------------------------------------- MessagePack
static double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static float flt(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }
static MV mvalue(Cur& c, int depth)
{
    auto str = [&](size_t n) { auto s = c.take(n); if(!valid_utf8(s)) c.bad("str is not UTF-8"); return MV::str(s); };
    auto scope = [&](Type t, size_t n) {
        MV m(t);
        for(size_t i = 0; i < n; i++) {
            string name;
            if(t == Type::Object) { auto k = mvalue(c, depth + 1); if(k.tp != Type::String) c.bad("key is not a string"); name = k.s; }
            m.items.push_back({ name, mvalue(c, depth + 1) });
        }
        return m;
    };
    if(depth > 2000) c.bad("too deep");
    uint8_t b = c.u8();
    if(b <= 0x7f) return MV::num(Type::UI8, b);
    if(b <= 0x8f) return scope(Type::Object, b & 15);
    if(b <= 0x9f) return scope(Type::Array, b & 15);
    if(b <= 0xbf) return str(b & 31);
    if(b >= 0xe0) return MV::num(Type::I8, (int8_t)b);
    switch(b) {
        case 0xc0: return MV();
        case 0xc2: return MV::boolean(false); case 0xc3: return MV::boolean(true);
        case 0xc4: return MV::bin(c.take(c.be(1))); case 0xc5: return MV::bin(c.take(c.be(2))); case 0xc6: return MV::bin(c.take(c.be(4)));
        case 0xca: return MV::num(Type::FP32, flt((uint32_t)c.be(4))); case 0xcb: return MV::num(Type::FP64, dbl(c.be(8)));
        case 0xcc: return MV::num(Type::UI8, c.be(1)); case 0xcd: return MV::num(Type::UI16, c.be(2)); case 0xce: return MV::num(Type::UI32, c.be(4)); case 0xcf: return MV::num(Type::UI64, c.be(8));
        case 0xd0: return MV::num(Type::I8, (int8_t)c.be(1)); case 0xd1: return MV::num(Type::I16, (int16_t)c.be(2)); case 0xd2: return MV::num(Type::I32, (int32_t)c.be(4)); case 0xd3: return MV::num(Type::I64, (int64_t)c.be(8));
        case 0xd9: return str(c.be(1)); case 0xda: return str(c.be(2)); case 0xdb: return str(c.be(4));
        case 0xdc: return scope(Type::Array, c.be(2)); case 0xdd: return scope(Type::Array, c.be(4));
        case 0xde: return scope(Type::Object, c.be(2)); case 0xdf: return scope(Type::Object, c.be(4));
        default: c.bad("unsupported type byte");
    }
}
MV decode_msgpack(S s)
{
    Cur c(s); auto m = mvalue(c, 0);
    if(c.p != s.size()) c.bad("trailing bytes");
    return m;
}
static void be(string& o, uint64_t v, int n) { for(int i = n - 1; i >= 0; i--) o += (char)(v >> (8 * i)); }
// width: 0 smallest .. 3; a foreign writer may use any that is big enough
static int widen(Chooser* ch, int least, int most) { return ch && ch->chance(1, 3) ? (int)ch->range(least, most) : least; }
static void menc_str(string& o, S s, Chooser* ch)
{
    int w = widen(ch, s.size() <= 31 ? 0 : s.size() <= 255 ? 1 : s.size() <= 65535 ? 2 : 3, 3);
    if(w == 0) o += (char)(0xa0 | s.size());
    else { o += (char)(0xd8 + w); be(o, s.size(), 1 << (w - 1)); }
    o += s;
}
static void menc(string& o, const MV& m, Chooser* ch)
{
    switch(m.tp) {
        case Type::Object: case Type::Array: {
            bool obj = m.tp == Type::Object; auto n = m.items.size();
            int w = widen(ch, n <= 15 ? 0 : n <= 65535 ? 1 : 2, 2);
            if(w == 0) o += (char)((obj ? 0x80 : 0x90) | n);
            else { o += (char)((obj ? 0xde : 0xdc) + (w - 1)); be(o, n, w == 1 ? 2 : 4); }
            for(auto& p : m.items) { if(obj) menc_str(o, p.first, ch); menc(o, p.second, ch); }
            break;
        }
        case Type::Null: o += (char)0xc0; break;
        case Type::Bool: o += (char)(m.b ? 0xc3 : 0xc2); break;
        case Type::String: menc_str(o, m.s, ch); break;
        case Type::Binary: {
            int w = widen(ch, m.s.size() <= 255 ? 0 : m.s.size() <= 65535 ? 1 : 2, 2);
            o += (char)(0xc4 + w); be(o, m.s.size(), 1 << w); o += m.s; break;
        }
        case Type::FP32: { float f = (float)m.d; uint32_t u; memcpy(&u, &f, 4); o += (char)0xca; be(o, u, 4); break; }
        case Type::FP64: { uint64_t u; memcpy(&u, &m.d, 8); o += (char)0xcb; be(o, u, 8); break; }
        default:
            if(!neg(m)) {
                uint64_t v = mag(m);
                if(ch && v <= 0x7fffffffffffffffull && ch->chance(1, 5)) { // signed encoding of a positive number
                    int w = v <= 0x7f ? 0 : v <= 0x7fff ? 1 : v <= 0x7fffffff ? 2 : 3; w = widen(ch, w, 3);
                    o += (char)(0xd0 + w); be(o, v, 1 << w); break;
                }
                int w = widen(ch, v <= 0x7f ? 0 : v <= 0xff ? 1 : v <= 0xffff ? 2 : v <= 0xffffffff ? 3 : 4, 4);
                if(w == 0) o += (char)v; else { o += (char)(0xcc + w - 1); be(o, v, 1 << (w - 1)); }
            } else {
                int64_t v = m.i;
                int w = widen(ch, v >= -32 ? 0 : v >= -128 ? 1 : v >= -32768 ? 2 : v >= -2147483648ll ? 3 : 4, 4);
                if(w == 0) o += (char)v; else { o += (char)(0xd0 + w - 1); be(o, (uint64_t)v, 1 << (w - 1)); }
            }
    }
}
string encode_msgpack(const MV& m, Chooser* ch) { string o; menc(o, m, ch); return o; }

//---------------------------------------------------------------- the library's own format
// flag byte: bit0 number, bit1 named, bit2 name given by index
//   numbers:  bit3 negative, bit4 float, bit5 double, bit6 true, bit7 false
//   others:   bit3 null, bit4 binary, bit5 string, bit6 object, bit7 array; 0: end of scope
// names and sizes as base-128 little endian groups; floating point little endian
static void vlq(string& o, uint64_t v) { while(v >= 128) { o += (char)(v | 128); v >>= 7; } o += (char)v; }
static uint64_t unvlq(Cur& c)
{
    uint64_t v = 0; int sh = 0;
    while(true) { uint8_t b = c.u8(); if(sh > 63) c.bad("integer too long"); v |= (uint64_t)(b & 127) << sh; sh += 7; if(!(b & 128)) return v; }
}
static bool sitem(Cur& c, Type scope, vector<string>& names, string& name, MV& m)
{
    uint8_t f = c.u8(); name.clear();
    if(f & 2 && scope == Type::Object) {
        if(f & 4) { auto i = unvlq(c); if(i >= names.size()) c.bad("bad name index"); name = names[i]; }
        else { name = c.take(unvlq(c)); names.push_back(name); }
    } else if(f & 6) c.bad("name in a scope without names");
    if(f == 0) return false;
    if(f & 1) {
        if(f & 0xC0) m = MV::boolean(f & 0x40);
        else if(f & 0x10) m = MV::num(Type::FP32, flt((uint32_t)c.le(4)));
        else if(f & 0x20) m = MV::num(Type::FP64, dbl(c.le(8)));
        else { auto v = unvlq(c); if(f & 8) m = MV::num(Type::I64, (int64_t)(0 - v)); else m = MV::num(Type::UI64, v); }
        return true;
    }
    if(f & 8) { m = MV(); return true; }
    if(f & 0x10) { m = MV::bin(c.take(unvlq(c))); return true; }
    if(f & 0x20) { m = MV::str(c.take(unvlq(c))); return true; }
    m = MV(f & 0x40 ? Type::Object : Type::Array);
    string n; MV k;
    while(sitem(c, m.tp, names, n, k)) m.items.push_back({ n, k });
    return true;
}
MV decode_psrl(S s)
{
    Cur c(s); vector<string> names; string n; MV m;
    if(!sitem(c, Type::Null, names, n, m) || !m.scope()) c.bad("no root scope");
    if(c.p != s.size()) c.bad("trailing bytes");
    return m;
}
static void senc(string& o, const MV& m, Type scope, S name, map<string, size_t>& idx, size_t& n_names, Chooser* ch)
{
    uint8_t f = 0;
    if(!ch && m.tp == Type::FP64 && (double)(float)m.d == m.d) { MV n(m); n.tp = Type::FP32; senc(o, n, scope, name, idx, n_names, ch); return; }   // the library writes the narrowest type
    switch(m.tp) {
        case Type::Object: f = 0x40; break; case Type::Array: f = 0x80; break; case Type::Null: f = 8; break;
        case Type::Bool: f = 1 | (m.b ? 0x40 : 0x80); break; case Type::String: f = 0x20; break; case Type::Binary: f = 0x10; break;
        case Type::FP32: f = 0x11; break; case Type::FP64: f = 0x21; break;
        default: f = 1 | (neg(m) ? 8 : 0);
    }
    if(scope == Type::Object && !name.empty()) {
        auto it = idx.find(name);
        if(it != idx.end() && !(ch && ch->chance(1, 6))) { o += (char)(f | 6); vlq(o, it->second); }
        else { o += (char)(f | 2); vlq(o, name.size()); o += name; if(it == idx.end()) idx[name] = n_names; n_names++; }
    } else o += (char)f;
    switch(m.tp) {
        case Type::Object: case Type::Array:
            for(auto& p : m.items) senc(o, p.second, m.tp, p.first, idx, n_names, ch);
            o += '\0'; break;
        case Type::Null: case Type::Bool: break;
        case Type::String: case Type::Binary: vlq(o, m.s.size()); o += m.s; break;
        case Type::FP32: { float x = (float)m.d; o.append((char*)&x, 4); break; }
        case Type::FP64: o.append((const char*)&m.d, 8); break;
        default: vlq(o, neg(m) ? 0 - (uint64_t)m.i : mag(m));
    }
}
string encode_psrl(const MV& m, Chooser* ch) { string o; map<string, size_t> idx; size_t n = 0; senc(o, m, Type::Null, "", idx, n, ch); return o; }

MV decode(int fmt, S s) { return fmt == F_SRL ? decode_psrl(s) : fmt == F_MSG ? decode_msgpack(s) : decode_json(s); }
string encode(int fmt, const MV& m, Chooser* ch) { return fmt == F_SRL ? encode_psrl(m, ch) : fmt == F_MSG ? encode_msgpack(m, ch) : encode_json(m, ch); }
}
