#include "model.h"
#include <cmath>
#include <cstdlib>

namespace sim {
using namespace std;

//---------------------------------------------------------------- showing, comparing
static string quote(const string& s, size_t max)
{
    string o = "\"";
    for(size_t i = 0; i < s.size() && i < max; i++) { unsigned char c = s[i]; if(c < 0x20 || c >= 0x7f || c == '"') { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; }
    o += "\""; if(s.size() > max) o += "..(" + to_string(s.size()) + ")";
    return o;
}
static const char* tname(Type t)
{
    static const char* n[] = { "bool","i8","u8","i16","u16","i32","u32","i64","u64","f32","f64","null","str","bin","obj","arr","end" };
    return n[(int)t];
}
string show(const MV& m, size_t max)
{
    string o;
    switch(m.tp) {
        case Type::Null: return "null";
        case Type::Bool: return m.b ? "true" : "false";
        case Type::String: return quote(m.s, 40);
        case Type::Binary: return "bin:" + quote(m.s, 20);
        case Type::FP32: case Type::FP64: { char b[48]; snprintf(b, sizeof b, "%s:%.17g", tname(m.tp), m.d); return b; }
        case Type::Object: case Type::Array:
            o = m.tp == Type::Object ? "{" : "[";
            for(auto& p : m.items) {
                if(o.size() > max) { o += ".."; break; }
                if(o.size() > 1) o += ",";
                if(!p.first.empty()) o += quote(p.first, 24) + ":";
                o += show(p.second, max > o.size() ? max - o.size() : 0);
            }
            return o + (m.tp == Type::Object ? "}" : "]");
        default:
            return string(tname(m.tp)) + ":" + (is_uns(m.tp) ? to_string(m.u) : to_string(m.i));
    }
}
MV split(const MV& m)
{
    if(!m.scope()) return m;
    MV r(m.tp);
    for(auto& p : m.items) if(!p.second.scope()) r.items.push_back(p);
    for(auto& p : m.items) if(p.second.scope()) r.items.push_back({ p.first, split(p.second) });
    return r;
}
static bool fp_same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }

bool mv_equal(const MV& w, const MV& g, int fmt, string& why, const string& path)
{
    bool json = fmt == F_JSON || fmt == F_JSONS;
    auto bad = [&](const string& m) { why = (path.empty() ? "root" : path) + ": " + m + ": want " + show(w) + " got " + show(g); return false; };
    if(w.scope() != g.scope()) return bad("scope/value mismatch");
    if(w.scope()) {
        if(w.tp != g.tp) return bad("scope type");
        if(w.items.size() != g.items.size()) return bad("number of items " + to_string(w.items.size()) + " vs " + to_string(g.items.size()));
        for(size_t i = 0; i < w.items.size(); i++) {
            if(w.tp == Type::Object && w.items[i].first != g.items[i].first) { why = path + ": name want " + quote(w.items[i].first, 60) + " got " + quote(g.items[i].first, 60); return false; }
            if(!mv_equal(w.items[i].second, g.items[i].second, fmt, why, path + "/" + (w.tp == Type::Object ? w.items[i].first.substr(0, 30) : to_string(i)))) return false;
        }
        return true;
    }
    if(is_int(w.tp)) {
        if(is_int(g.tp)) {
            if(fmt < 0 && w.tp != g.tp) return bad("integer type");
            if(neg(w) != neg(g) || mag(w) != mag(g)) return bad("integer value");
            return true;
        }
        return bad("type");
    }
    if(is_fp(w.tp)) {
        if(json) {
            // a number whose text denotes the same value; an integral text may come back as an integer
            double v;
            if(is_fp(g.tp)) v = g.d; else if(is_int(g.tp)) v = neg(g) ? (double)g.i : (double)mag(g); else return bad("type");
            if(w.tp == Type::FP32) { if((float)v != (float)w.d) return bad("float value"); }
            else if(v != w.d) return bad("double value");
            return true;
        }
        if(!is_fp(g.tp)) return bad("type");
        // the narrowest type holding the value is as good; exact types only where asked for
        if(w.tp != g.tp && fmt < 0) return bad("floating point type");
        if(!fp_same(w.d, g.d)) return bad("floating point value");
        return true;
    }
    if(w.tp == Type::Bool) { if(g.tp != Type::Bool || g.b != w.b) return bad("bool"); return true; }
    if(w.tp == Type::Null) { if(g.tp != Type::Null) return bad("null"); return true; }
    if(w.tp == Type::String) { if(g.tp != Type::String || g.s != w.s) return bad("string"); return true; }
    if(w.tp == Type::Binary) {
        if(json) { if(g.tp != Type::String || g.s != base64(w.s)) return bad("base64"); return true; }
        if(g.tp != Type::Binary || g.s != w.s) return bad("binary");
        return true;
    }
    return bad("type");
}
static void digest(const MV& m, uint64_t& h)
{
    uint8_t t = (uint8_t)m.tp; h = fnv(&t, 1, h);
    if(m.scope()) { for(auto& p : m.items) { h = fnv(p.first.data(), p.first.size(), h); digest(p.second, h); } uint8_t e = 99; h = fnv(&e, 1, h); return; }
    h = fnv(&m.i, 8, h); h = fnv(&m.u, 8, h); h = fnv(&m.d, 8, h); h = fnv(&m.b, 1, h); h = fnv(m.s.data(), m.s.size(), h);
}
string mv_digest(const MV& m) { uint64_t h = 1469598103934665603ull; digest(m, h); char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }

//---------------------------------------------------------------- reading the library's tree
MV dump_value(const Srl::Value& v)
{
    auto t = v.type();
    switch(t) {
        case Type::Null:   return MV();
        case Type::Bool:   return MV::boolean(v.unwrap<bool>());
        case Type::I8:     return MV::num(t, v.unwrap<int8_t>());
        case Type::UI8:    return MV::num(t, v.unwrap<uint8_t>());
        case Type::I16:    return MV::num(t, v.unwrap<int16_t>());
        case Type::UI16:   return MV::num(t, v.unwrap<uint16_t>());
        case Type::I32:    return MV::num(t, v.unwrap<int32_t>());
        case Type::UI32:   return MV::num(t, v.unwrap<uint32_t>());
        case Type::I64:    return MV::num(t, v.unwrap<int64_t>());
        case Type::UI64:   return MV::num(t, v.unwrap<uint64_t>());
        case Type::FP32:   return MV::num(t, v.unwrap<float>());
        case Type::FP64:   return MV::num(t, v.unwrap<double>());
        case Type::String: {
            string raw((const char*)v.data(), v.size());
            if(v.encoding() == Srl::Encoding::UTF16) { u16string w(raw.size() / 2, 0); memcpy(&w[0], raw.data(), w.size() * 2); return MV::str(utf16_to_utf8(w)); }
            if(v.encoding() == Srl::Encoding::UTF32) { u32string w(raw.size() / 4, 0); memcpy(&w[0], raw.data(), w.size() * 4); return MV::str(utf32_to_utf8(w)); }
            return MV::str(raw);
        }
        case Type::Binary: return MV::bin(string((const char*)v.data(), v.size()));
        default: fail("bad-value-type", "a value reports type %d", (int)t);
    }
}
static string name_of(const Srl::String& s)
{
    string raw((const char*)s.data(), s.size());
    if(s.encoding() == Srl::Encoding::UTF16) { u16string w(raw.size() / 2, 0); memcpy(&w[0], raw.data(), w.size() * 2); return utf16_to_utf8(w); }
    if(s.encoding() == Srl::Encoding::UTF32) { u32string w(raw.size() / 4, 0); memcpy(&w[0], raw.data(), w.size() * 4); return utf32_to_utf8(w); }
    return raw;
}
MV dump(Srl::Node& n)
{
    MV r(n.type());
    LibScope ls;
    n.foreach_value([&](Srl::Value& v) { HarnessScope hs; r.items.push_back({ name_of(v.name()), dump_value(v) }); });
    n.foreach_node([&](Srl::Node& c) { HarnessScope hs; r.items.push_back({ name_of(c.name()), dump(c) }); });
    return r;
}

//---------------------------------------------------------------- text
static void put8(string& o, uint32_t c)
{
    if(c < 0x80) o += (char)c;
    else if(c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if(c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
string utf32_to_utf8(const u32string& s) { string o; for(auto c : s) put8(o, c); return o; }
string utf16_to_utf8(const u16string& s)
{
    string o;
    for(size_t i = 0; i < s.size(); i++) {
        uint32_t c = s[i];
        if(c >= 0xD800 && c < 0xDC00 && i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000) { c = 0x10000 + ((c - 0xD800) << 10) + (s[i + 1] - 0xDC00); i++; }
        put8(o, c);
    }
    return o;
}
static bool next8(const string& s, size_t& i, uint32_t& c)
{
    unsigned char b = s[i];
    int n = b < 0x80 ? 0 : b >= 0xC2 && b < 0xE0 ? 1 : b >= 0xE0 && b < 0xF0 ? 2 : b >= 0xF0 && b < 0xF5 ? 3 : -1;
    if(n < 0 || i + n >= s.size()) { if(n != 0) return false; }
    c = n == 0 ? b : n == 1 ? b & 31 : n == 2 ? b & 15 : b & 7;
    for(int k = 1; k <= n; k++) { unsigned char x = s[i + k]; if((x & 0xC0) != 0x80) return false; c = c << 6 | (x & 63); }
    if(n == 2 && c < 0x800) return false;
    if(n == 3 && (c < 0x10000 || c > 0x10FFFF)) return false;
    if(c >= 0xD800 && c < 0xE000) return false;
    i += n + 1;
    return true;
}
bool valid_utf8(const string& s) { uint32_t c; for(size_t i = 0; i < s.size();) if(!next8(s, i, c)) return false; return true; }
u32string utf8_to_utf32(const string& s) { u32string o; uint32_t c; for(size_t i = 0; i < s.size();) { if(!next8(s, i, c)) harness_error("bad utf8 in harness"); o += (char32_t)c; } return o; }
u16string utf8_to_utf16(const string& s)
{
    u16string o; uint32_t c;
    for(size_t i = 0; i < s.size();) {
        if(!next8(s, i, c)) harness_error("bad utf8 in harness");
        if(c < 0x10000) o += (char16_t)c; else { c -= 0x10000; o += (char16_t)(0xD800 + (c >> 10)); o += (char16_t)(0xDC00 + (c & 1023)); }
    }
    return o;
}
string base64(const string& b)
{
    static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    string o; size_t i = 0;
    auto B = [&](size_t k) { return (uint32_t)(unsigned char)b[k]; };
    for(; i + 3 <= b.size(); i += 3) { uint32_t v = B(i) << 16 | B(i + 1) << 8 | B(i + 2); o += t[v >> 18]; o += t[v >> 12 & 63]; o += t[v >> 6 & 63]; o += t[v & 63]; }
    if(b.size() - i == 1) { uint32_t v = B(i) << 16; o += t[v >> 18]; o += t[v >> 12 & 63]; o += "=="; }
    if(b.size() - i == 2) { uint32_t v = B(i) << 16 | B(i + 1) << 8; o += t[v >> 18]; o += t[v >> 12 & 63]; o += t[v >> 6 & 63]; o += '='; }
    return o;
}

//---------------------------------------------------------------- random data
uint32_t gen_len(Chooser& ch, bool big)
{
    switch(ch.pick({ 60, 40, 16, 8, 6, 4, 2, 1 })) {
        case 0: return ch.range(0, 6);
        case 1: return ch.range(0, 20);
        case 2: return ch.range(28, 36);
        case 3: return ch.range(250, 260);
        case 4: return big ? ch.range(960, 1060) : ch.range(60, 70);
        case 5: return big ? ch.range(1, 2200) : ch.range(1, 100);
        case 6: return big ? ch.range(2040, 2060) : ch.range(120, 130);
        default: return big ? (ch.chance(1, 6) ? ch.range(65530, 65540) : ch.range(4000, 4200)) : 300;
    }
}
static uint32_t gen_cp(Chooser& ch, int mode, bool ctl)
{
    switch(mode) {
        case 0: return 'a' + ch.below(26);
        case 1: { static const char sp[] = "\"\\/:,{}[]<> \t\n\r'0-1+.eEnutf"; return (unsigned char)sp[ch.below(sizeof sp - 1)]; }
        case 2: return ctl ? ch.below(0x20) : 'x';
        case 3: return ch.range(0x20, 0x7f);
        case 4: return ch.range(0x80, 0x7ff);
        case 5: { auto c = ch.range(0x800, 0xffff); return c >= 0xD800 && c < 0xE000 ? 0x20ac : c; }
        default: return ch.range(0x10000, 0x10ffff);
    }
}
string gen_text(Chooser& ch, bool big, bool ctl)
{
    return gen_text_of(ch, gen_len(ch, big), ctl);
}
string gen_text_of(Chooser& ch, uint32_t n, bool ctl)
{
    string o;
    if(n > 40) {
        // long: a short random motif repeated, then filled to the exact length
        string motif; auto k = ch.range(1, 6); auto mode = ch.below(8);
        for(uint32_t i = 0; i < k; i++) put8(motif, gen_cp(ch, mode == 7 ? ch.below(7) : mode, ctl));
        uint32_t lead = ch.below(4);
        for(uint32_t i = 0; i < lead; i++) o += 'p';
        while(o.size() + motif.size() <= n) o += motif;
        while(o.size() < n) o += '.';
        return o;
    }
    auto mode = ch.below(9);
    for(uint32_t i = 0; i < n; i++) put8(o, gen_cp(ch, mode >= 7 ? ch.below(7) : mode, ctl));
    return o;
}
string gen_bytes(Chooser& ch, bool big)
{
    return gen_bytes_of(ch, gen_len(ch, big));
}
string gen_bytes_of(Chooser& ch, uint32_t n)
{
    string o;
    if(n > 40) { uint32_t x = ch.below(256), st = ch.below(256); for(uint32_t i = 0; i < n; i++) o += (char)(x + i * st); return o; }
    for(uint32_t i = 0; i < n; i++) o += (char)ch.below(256);
    return o;
}
// different names with the same 64 bit FNV-1a hash, in pairs
const vector<string> alike_names { "7mohtcOFVz", "c1E51sSEyx", "6a5x-VbtXk", "f_2k7GG-4v", "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ" };
string gen_name(Chooser& ch)
{
    switch(ch.pick({ 20, 6, 3, 1, 2 })) {
        case 4: { auto i = ch.below(2) ? ch.below(2) : ch.below(6); if(i & 1) count("names.alike"); return alike_names[i]; }
        case 0: { string s; auto n = ch.range(1, 6); for(uint32_t i = 0; i < n; i++) s += (char)('a' + ch.below(26)); return s; }
        case 1: { auto t = gen_text(ch, false, false); return t.empty() ? "n" : t; }
        case 2: { auto t = gen_text(ch, false, true); return t.empty() ? "n" : t; }
        default: { auto t = gen_text(ch, true, false); if(t.size() > 3000) t = "long" + to_string(t.size()) + string(2500, 'q'); return t.empty() ? "n" : t; }
    }
}
string gen_name(Chooser& ch, const set<string>& used)
{
    for(size_t i = 0; i < alike_names.size(); i++) {
        auto& n = alike_names[i ^ 1];
        if(used.count(alike_names[i]) && !used.count(n) && ch.chance(1, 2)) { count("names.alike"); return n; }
    }
    return gen_name(ch);
}
static int64_t gen_int(Chooser& ch)
{
    switch(ch.pick({ 10, 6, 6, 3 })) {
        case 0: return ch.below(20);
        case 1: return -(int64_t)ch.below(200);
        case 2: { // around powers of two
            int k = ch.below(64); int64_t d = (int64_t)ch.below(5) - 2; uint64_t v = (1ull << k) + (uint64_t)d; return ch.chance(1, 2) ? (int64_t)v : (int64_t)(0 - v); }
        default: return (int64_t)ch.u64();
    }
}
MV gen_scalar(Chooser& ch, const DocOpts& o)
{
    switch(o.only >= 0 && (o.only != 5 || o.binary) ? (uint32_t)o.only : ch.pick({ 8, 8, 2, 3, 3, o.binary ? 3u : 0u, 2 })) {
        case 0: {
            int64_t v = gen_int(ch);
            switch(ch.below(8)) {
                case 0: return MV::num(Type::I8, (int8_t)v);   case 1: return MV::num(Type::UI8, (uint8_t)v);
                case 2: return MV::num(Type::I16, (int16_t)v); case 3: return MV::num(Type::UI16, (uint16_t)v);
                case 4: return MV::num(Type::I32, (int32_t)v); case 5: return MV::num(Type::UI32, (uint32_t)v);
                case 6: return MV::num(Type::I64, (int64_t)v); default: return MV::num(Type::UI64, (uint64_t)v);
            }
        }
        case 1: return MV::str(gen_text(ch, o.big, o.ctl));
        case 2: return MV::boolean(ch.chance(1, 2));
        case 3: {
            double d;
            switch(ch.below(o.special_fp ? 6 : 5)) {
                case 0: d = (double)ch.below(100) / 4; break;
                case 1: d = (double)gen_int(ch); break;
                case 2: d = std::ldexp((double)(int64_t)ch.u64(), (int)ch.below(400) - 200); break;
                case 3: { uint64_t b = ch.u64(); memcpy(&d, &b, 8); if(!std::isfinite(d)) d = 1.5; break; }
                case 4: { static const double v[] = { 0.0, 0.1, 1e21, 1e-7, 123456789.125, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e15, 1e16, 1e17, 4503599627370497.5 }; d = v[ch.below(12)]; break; }
                default: { static const double v[] = { INFINITY, -INFINITY, NAN, -0.0 }; d = v[ch.below(4)]; }
            }
            if(d == 0 && !o.special_fp) d = 0.0;
            return MV::num(Type::FP64, d);
        }
        case 4: {
            float f;
            switch(ch.below(3)) { case 0: f = (float)ch.below(1000) / 8; break; case 1: f = (float)gen_int(ch); break;
                default: { uint32_t b = (uint32_t)ch.u64(); memcpy(&f, &b, 4); if(!std::isfinite(f)) f = 2.5f; } }
            if(f == 0 && !o.special_fp) f = 0.0f;
            return MV::num(Type::FP32, f);
        }
        case 5: return MV::bin(gen_bytes(ch, o.big));
        default: return MV();
    }
}
MV gen_doc(Chooser& ch, const DocOpts& o, int depth)
{
    MV m(ch.chance(1, 3) ? Type::Array : Type::Object);
    auto n = ch.below((uint32_t)(depth == 0 ? o.max_items + 3 : o.max_items) + 1);
    set<string> names;
    for(uint32_t i = 0; i < n; i++) {
        SpanScope sp(ch);
        string name;
        if(m.tp == Type::Object) {
            name = o.empty_names && ch.chance(1, 12) ? "" : gen_name(ch, names);
            if(!o.dup_names) while(names.count(name)) name += "_";
            names.insert(name);
        }
        if(depth < o.max_depth && ch.chance(1, 4)) m.items.push_back({ name, gen_doc(ch, o, depth + 1) });
        else m.items.push_back({ name, gen_scalar(ch, o) });
    }
    return m;
}
// sizes around those where a format writes them differently
MV gen_large_doc(Chooser& ch, const DocOpts& o)
{
    static const vector<uint32_t> marks { 15, 31, 127, 255, 1023, 2047, 16383, 32767, 65535, 70000 };
    auto n = marks[ch.below(marks.size())] + ch.below(5) - 2;
    Chooser priv; priv.init_private(ch.u64());
    DocOpts few = o; few.big = false;
    MV m;
    switch(ch.below(o.binary ? 4 : 3)) {
        case 0: case 1: {
            m = MV(ch.chance(1, 2) ? Type::Array : Type::Object);
            bool mixed = ch.chance(1, 4); auto one = gen_scalar(priv, few);
            if(n > 2000 && one.s.size() > 40) one = one.tp == Type::Binary ? MV::bin(one.s.substr(0, 20)) : MV::num(Type::UI8, 7);
            for(uint32_t i = 0; i < n; i++) {
                string name; if(m.tp == Type::Object) name = to_string(i * 7919u % 1000003u);
                m.items.push_back({ name, mixed && i % 16 == 0 ? MV(i % 32 ? Type::Array : Type::Object) : i % 8 == 0 ? gen_scalar(priv, few) : one });
            }
            break;
        }
        case 2: m = MV::str(gen_text_of(priv, n, o.ctl)); break;
        default: m = MV::bin(gen_bytes_of(priv, n)); break;
    }
    if(ch.chance(1, 2) || (m.tp != Type::Array && m.tp != Type::Object)) {
        MV w(ch.chance(1, 2) ? Type::Array : Type::Object);
        w.items.push_back({ w.tp == Type::Object ? "a" : "", gen_scalar(priv, few) });
        w.items.push_back({ w.tp == Type::Object ? "b" : "", m });
        w.items.push_back({ w.tp == Type::Object ? "c" : "", gen_scalar(priv, few) });
        m = w;
    }
    count("doc.large");
    return m;
}
}
