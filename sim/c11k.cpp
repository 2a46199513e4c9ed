// C11: what a member gets from a value of another kind: the same number or text, or a refusal.
#include "cases.h"
#include <charconv>
#include <cmath>
#include <cstring>
namespace sim {
using namespace std;
typedef __int128 I;
struct Want { enum { VALUE, REFUSED, ANY } k = ANY; };
struct Num { bool fp = false; I i = 0; double d = 0; };     // exact value of a source
static bool number_text(const string& s, Num& n)
{
    size_t a = s.find_first_not_of(" \t\n\r"), b = s.find_last_not_of(" \t\n\r");
    if(a == string::npos) return false;
    string t = s.substr(a, b - a + 1);
    if(t == "true" || t == "false") { n.i = t == "true"; return true; }
    bool digits = t.size() > (t[0] == '-'); for(size_t i = t[0] == '-'; i < t.size(); i++) digits &= t[i] >= '0' && t[i] <= '9';
    if(digits && t.size() < 30) {
        I v = 0; for(size_t i = t[0] == '-'; i < t.size(); i++) v = v * 10 + (t[i] - '0');
        if(t[0] == '-') v = -v;
        if(v >= -((I)1 << 63) && v < ((I)1 << 64)) { n.i = v; return true; }
    }
    auto r = from_chars(t.data(), t.data() + t.size(), n.d);
    if(r.ec == errc::result_out_of_range) n.d = INFINITY;      // neither asked for nor ruled out
    if((r.ec != errc() && r.ec != errc::result_out_of_range) || r.ptr != t.data() + t.size()) return false;
    n.fp = true;
    return true;
}
struct Target {
    virtual ~Target() { }
    virtual void resolve(Srl::Context& c, const string& name) = 0;
    virtual void unwrap(Node& n, const string& name, int way) = 0;
    virtual bool can(const MV& v, int fmt, string& want) = 0;      // whether it can be had
    virtual bool any(const MV& v, int fmt) = 0;                    // neither asked for nor ruled out
    virtual string show() = 0;
    virtual const char* what() = 0;
};
template<class T> static T unwrap_of(Node& n, const string& name, int way)
{
    Srl::String s(name);
    switch(way) {
        case 0: return n.unwrap_field<T>(s);
        case 1: return n.value(s).unwrap<T>();
        case 2: return n.get(s).unwrap<T>();
        default: { T t {}; n.paste_field(s, t); return t; }
    }
}
template<class T> struct NumTarget : Target {
    T v = 0;
    void resolve(Srl::Context& c, const string& name) override { c(Srl::String(name), v); }
    void unwrap(Node& n, const string& name, int way) override { v = unwrap_of<T>(n, name, way); }
    bool source(const MV& m, Num& n)
    {
        if(m.tp == Type::Bool) n.i = m.b;
        else if(is_int(m.tp)) n.i = is_uns(m.tp) ? (I)m.u : (I)m.i;
        else if(is_fp(m.tp)) { n.fp = true; n.d = m.tp == Type::FP32 ? (float)m.d : m.d; }
        else if(m.tp == Type::String) return number_text(m.s, n);
        else return false;
        return true;
    }
    bool any(const MV& m, int fmt) override { Num n; return (m.tp == Type::Binary && fmt >= F_JSON) || (source(m, n) && n.fp && (std::isnan(n.d) || std::isinf(n.d))); }
    bool can(const MV& m, int, string& want) override
    {
        Num n;
        if(!source(m, n)) return false;
        T w;
        if constexpr(is_floating_point<T>::value) {
            if(n.fp && (n.d > (double)numeric_limits<T>::max() || n.d < (double)numeric_limits<T>::lowest())) return false;
            w = n.fp ? (T)n.d : n.i >= 0 ? (T)(uint64_t)n.i : (T)(int64_t)n.i;
        } else {
            if(n.fp) {
                // fractions are cut off
                if(is_same<T, bool>::value) { if(n.d < 0 || n.d > 1) return false; w = n.d != 0; want = text(w); return true; }
                if(!is_signed<T>::value && n.d < 0) return false;
                auto t = trunc(n.d);
                if(n.d < (double)numeric_limits<T>::min() || t >= ldexp(1.0, numeric_limits<T>::digits)) return false;
                if(n.d > (double)numeric_limits<T>::max()) return false;
                n.i = (I)t;
            }
            if(n.i < (I)numeric_limits<T>::min() || n.i > (I)numeric_limits<T>::max()) return false;
            w = (T)n.i;
        }
        want = text(w);
        return true;
    }
    static string text(T x) { char b[64]; if(is_floating_point<T>::value) snprintf(b, sizeof b, "%.21g", (double)x + 0.0 == 0 ? 0.0 : (double)x); else if(is_signed<T>::value) snprintf(b, sizeof b, "%lld", (long long)x); else snprintf(b, sizeof b, "%llu", (unsigned long long)x); return b; }
    string show() override { return text(v); }
    const char* what() override
    {
        static string s = string(is_same<T, bool>::value ? "bool" : is_floating_point<T>::value ? "fp" : is_signed<T>::value ? "int" : "unsigned") + to_string(8 * sizeof(T));
        return s.c_str();
    }
};
template<class C> struct TextTarget : Target {
    basic_string<C> v;
    void resolve(Srl::Context& c, const string& name) override { c(Srl::String(name), v); }
    void unwrap(Node& n, const string& name, int way) override { v = unwrap_of<basic_string<C>>(n, name, way); }
    bool any(const MV& m, int fmt) override { return m.tp == Type::Binary && fmt >= F_JSON; }
    static string utf8(const string& s) { return s; }
    static string utf8(const u16string& s) { return utf16_to_utf8(s); }
    static string utf8(const u32string& s) { return utf32_to_utf8(s); }
    bool can(const MV& m, int, string& want) override
    {
        if(m.tp == Type::String) want = m.s;
        else if(m.tp == Type::Bool) want = m.b ? "true" : "false";
        else if(is_int(m.tp)) { char b[32]; if(is_uns(m.tp)) snprintf(b, sizeof b, "%llu", (unsigned long long)m.u); else snprintf(b, sizeof b, "%lld", (long long)m.i); want = b; }
        else if(is_fp(m.tp)) want = "=" + NumTarget<double>::text(m.tp == Type::FP32 ? (float)m.d : m.d);
        else return false;
        return true;
    }
    string show() override { return utf8(v); }
    const char* what() override { return sizeof(C) == 1 ? "text" : sizeof(C) == 2 ? "text16" : "text32"; }
};
struct BytesTarget : Target {
    vector<uint8_t> v;
    void resolve(Srl::Context& c, const string& name) override { Srl::VecWrap<uint8_t> w(v); c(Srl::String(name), w); }
    void unwrap(Node& n, const string& name, int) override { Srl::VecWrap<uint8_t> w(v); n.paste_field(Srl::String(name), w); }
    bool any(const MV& m, int) override { return m.tp == Type::String; }
    bool can(const MV& m, int, string& want) override { want = m.s; return m.tp == Type::Binary; }
    string show() override { return string(v.begin(), v.end()); }
    const char* what() override { return "bytes"; }
};
static unique_ptr<Target> gen_target(Chooser& ch)
{
    switch(ch.below(15)) {
        case 0: return make_unique<NumTarget<int8_t>>();   case 1: return make_unique<NumTarget<uint8_t>>();
        case 2: return make_unique<NumTarget<int16_t>>();  case 3: return make_unique<NumTarget<uint16_t>>();
        case 4: return make_unique<NumTarget<int32_t>>();  case 5: return make_unique<NumTarget<uint32_t>>();
        case 6: return make_unique<NumTarget<int64_t>>();  case 7: return make_unique<NumTarget<uint64_t>>();
        case 8: return make_unique<NumTarget<float>>();    case 9: return make_unique<NumTarget<double>>();
        case 10: return make_unique<NumTarget<bool>>();    case 11: return make_unique<TextTarget<char>>();
        case 12: return make_unique<TextTarget<char16_t>>(); case 13: return make_unique<TextTarget<char32_t>>();
        default: return make_unique<BytesTarget>();
    }
}
// around the limits of the types
static I gen_number(Chooser& ch)
{
    if(ch.chance(1, 3)) return (I)ch.below(300) - 150;
    static const int bits[] = { 7, 8, 15, 16, 31, 32, 53, 63, 64 };
    I v = ((I)1 << bits[ch.below(9)]) + (I)ch.below(7) - 3;
    if(ch.chance(1, 2)) v = -v;
    return v;
}
static MV gen_source(Chooser& ch, int fmt)
{
    switch(ch.pick({ 6, 1, 4, 6, fmt < F_JSON ? 1u : 0u })) {
        case 0: {
            auto v = gen_number(ch);
            static const Type ts[] = { Type::I8, Type::UI8, Type::I16, Type::UI16, Type::I32, Type::UI32, Type::I64, Type::UI64 };
            Type fit = Type::UI64;
            if(v < -((I)1 << 63)) v = -((I)1 << 63);
            if(v >= ((I)1 << 64)) v = ((I)1 << 64) - 1;
            auto from = ch.below(8);
            for(uint32_t k = 0; k < 8; k++) { auto t = ts[(from + k) % 8]; int b = 8 << ((from + k) % 8 / 2); bool u = (from + k) % 2; if(u ? v >= 0 && v < ((I)1 << b) : v >= -((I)1 << (b - 1)) && v < ((I)1 << (b - 1))) { fit = t; break; } }
            return is_uns(fit) ? MV::num(fit, (uint64_t)v) : MV::num(fit, (int64_t)v);
        }
        case 1: return MV::boolean(ch.chance(1, 2));
        case 2: {
            double d = (double)gen_number(ch);
            switch(ch.below(4)) { case 0: d += 0.5; break; case 1: d = nextafter(d, ch.chance(1, 2) ? INFINITY : -INFINITY); break; case 2: d = ldexp(1.0 + ch.below(100), (int)ch.below(1000) - 500); break; default: break; }
            bool f = fmt < F_JSON && ch.chance(1, 3);
            return f ? MV::num(Type::FP32, (float)d) : MV::num(Type::FP64, d);
        }
        case 3: {
            string s;
            static const char* odd[] = { "", " ", "x", "12x", "x12", "1e", "--1", "-", "+-1", "tru", "truex", "1 2", "1.2.3", ".", "e5", "18446744073709551616", "-9223372036854775809", "99999999999999999999999", "1e400", "-", "\xC3\xA9" "1" };
            switch(ch.below(4)) {
                case 0: s = odd[ch.below(sizeof odd / sizeof *odd)]; break;
                case 1: { char b[64]; snprintf(b, sizeof b, "%.17g", (double)gen_number(ch) + (ch.chance(1, 2) ? 0.25 : 0)); s = b; break; }
                case 2: s = ch.chance(1, 2) ? "true" : "false"; break;
                default: { auto v = gen_number(ch); bool neg = v < 0; if(neg) v = -v; do { s.insert(0, 1, (char)('0' + (int)(v % 10))); v /= 10; } while(v); if(ch.chance(1, 8)) s.insert(0, ch.below(6), '0'); if(neg) s.insert(0, 1, '-'); }
            }
            if(ch.chance(1, 5)) s = " " + s; if(ch.chance(1, 5)) s += "\t";
            return MV::str(s);
        }
        default: { string s; auto n = ch.below(12); for(uint32_t i = 0; i < n; i++) s += (char)ch.below(256); if(n && s[0] == '=') s[0] = 'x'; return MV::bin(s); }   // '=' marks a number in what is wanted
    }
}
static void build(Node& n, const MV& m)
{
    for(auto& i : m.items) {
        auto& v = i.second; Srl::String name(i.first);
        switch(v.tp) {
            case Type::Bool: n.insert(name, v.b); break;
            case Type::I8: n.insert(name, (int8_t)v.i); break;
            case Type::UI8: n.insert(name, (uint8_t)v.u); break;
            case Type::I16: n.insert(name, (int16_t)v.i); break;
            case Type::UI16: n.insert(name, (uint16_t)v.u); break;
            case Type::I32: n.insert(name, (int32_t)v.i); break;
            case Type::UI32: n.insert(name, (uint32_t)v.u); break;
            case Type::I64: n.insert(name, v.i); break;
            case Type::UI64: n.insert(name, v.u); break;
            case Type::FP32: n.insert(name, (float)v.d); break;
            case Type::FP64: n.insert(name, v.d); break;
            case Type::Binary: n.insert(name, Srl::BitWrap((const uint8_t*)v.s.data(), v.s.size())); break;
            default: n.insert(name, v.s); break;
        }
    }
}
struct Targets {
    vector<unique_ptr<Target>> t;
    void srl_resolve(Srl::Context& c) { for(size_t i = 0; i < t.size(); i++) t[i]->resolve(c, "f" + to_string(i)); }
};
static bool right(Target& t, const string& want)
{
    auto got = t.show();
    if(want.size() && want[0] == '=') { double d = 0; auto r = from_chars(got.data(), got.data() + got.size(), d); return r.ec == errc() && r.ptr == got.data() + got.size() && NumTarget<double>::text(d) == want.substr(1); }
    return got == want;
}
static void kinds(Chooser& ch)
{
    auto fmt = gen_format(ch);
    Targets o; MV m(Type::Object);
    vector<string> want; vector<int> can;     // 0 refused, 1 had, 2 either
    auto n = ch.chance(1, 2) ? 1 : ch.range(1, 4); bool all = true, some_any = false;
    for(uint32_t i = 0; i < n; i++) {
        SpanScope sp(ch);
        o.t.push_back(gen_target(ch));
        MV v = gen_source(ch, fmt);
        if(v.tp == Type::String && v.s.size() && v.s[0] == '=') v.s = "x";
        // the kinds a format does not keep apart
        string w; auto& t = *o.t.back();
        int c = t.any(v, fmt) ? 2 : t.can(v, fmt, w) ? 1 : 0;
        if(v.tp == Type::Binary && fmt >= F_JSON) c = 2;
        trace("%s from %s: %s", t.what(), show(v, 80).c_str(), c == 2 ? "either" : c ? w.c_str() : "refused");
        want.push_back(w); can.push_back(c);
        all &= c == 1; some_any |= c == 2;
        m.items.push_back({ "f" + to_string(i), v });
    }
    auto way = ch.below(6); bool built = way && ch.chance(1, 3);
    auto d = encode(built ? F_SRL : fmt, m, !built && ch.chance(1, 2) ? &ch : nullptr);
    auto r = gen_read_plan(ch);
    trace("%s from %s, way %u%s", fmt_name(fmt), show(r).c_str(), way, built ? ", a tree built by hand" : "");
    steps_begin((100u << 20) + 1000 * d.size());
    Tree t; auto p = make_parser(fmt);
    // either a document or what the user inserted
    auto load = [&](Srl::Lib::In::Source s) { if(built) build(t.root(), m); else t.load_source(s, *p); };
    if(way < 2) {
        auto g = with_source(d, r, [&](Srl::Lib::In::Source s) { if(way == 0) t.restore(o, s, *p); else { load(s); t.root().paste(o); } });
        R->evals++;
        if(g.ok()) {
            for(size_t i = 0; i < o.t.size(); i++) {
                if(can[i] == 0) fail("unconvertible-accepted", "%s from %s gives %s", o.t[i]->what(), show(m.items[i].second, 80).c_str(), o.t[i]->show().c_str());
                if(can[i] == 1 && !right(*o.t[i], want[i])) fail("another-value", "%s from %s gives %s instead of %s", o.t[i]->what(), show(m.items[i].second, 80).c_str(), o.t[i]->show().c_str(), want[i].c_str());
            }
        } else if(all) fail("convertible-refused", "%s", g.msg.c_str());
        else if(g.v != V_SRL) fail("wrong-error", "%s: %s", verdict_name(g.v), g.msg.c_str());
    } else {
        auto g = with_source(d, r, load);
        if(!g.ok()) fail("convertible-refused", "%s", g.msg.c_str());
        for(size_t i = 0; i < o.t.size(); i++) {
            string name = "f" + to_string(i);
            g = guarded([&] { o.t[i]->unwrap(t.root(), name, way - 2); });
            R->evals++;
            if(g.ok() ? can[i] == 0 : can[i] == 1) fail(g.ok() ? "unconvertible-accepted" : "convertible-refused", "%s from %s: %s %s", o.t[i]->what(), show(m.items[i].second, 80).c_str(), g.msg.c_str(), o.t[i]->show().c_str());
            if(!g.ok() && g.v != V_SRL) fail("wrong-error", "%s: %s", verdict_name(g.v), g.msg.c_str());
            if(g.ok() && can[i] == 1 && !right(*o.t[i], want[i])) fail("another-value", "%s from %s gives %s instead of %s", o.t[i]->what(), show(m.items[i].second, 80).c_str(), o.t[i]->show().c_str(), want[i].c_str());
        }
    }
    steps_end();
    count(all ? "kinds.converted" : "kinds.some-refused");
    state(fnv(d.data(), d.size()));
}
static Register r1("C11", "kinds", 4, kinds);
}
