// C05: hostile bytes are contained.
#include "cases.h"
namespace sim {
using namespace std;
static MV usable_doc()
{
    MV m(Type::Object);
    m.items.push_back({ "a", MV::num(Type::I32, -7) }); m.items.push_back({ "b", MV::str("text") });
    MV k(Type::Array); k.items.push_back({ "", MV::boolean(true) }); k.items.push_back({ "", MV() });
    m.items.push_back({ "c", k });
    return m;
}
// a valid document is still loaded correctly by the same tree and parser
static void still_usable(Chooser& ch, Tree& t, Srl::Parser& p, int fmt)
{
    static const auto m = usable_doc();
    auto d = encode(fmt, m, nullptr);
    ReadPlan r = gen_read_plan(ch);
    auto g = with_source(d, r, [&](Srl::Lib::In::Source s) { t.load_source(s, p); });
    if(!g.ok()) fail("unusable-afterwards", "a valid document was refused after a damaged one: %s", g.msg.c_str());
    string why;
    if(!mv_equal(m, dump(t.root()), fmt, why)) fail("wrong-afterwards", "%s", why.c_str());
}
static void bounds(size_t n) { steps_begin(3000000 + 4000ull * n); A.limit = A.live + (6u << 20) + 1500ull * n; }
static string bytes(Chooser& ch, int fmt, const string& valid)
{
    string d;
    switch(ch.pick({ 5, 4, 2, 1 })) {
        case 0: d = valid.empty() ? gen_document(ch, fmt, -1, true) : valid; if(fmt >= F_JSON && ch.chance(1, 5)) d = align_json(ch, d, true);
            d = damage(ch, d, ch.chance(1, 4) ? gen_document(ch, fmt) : valid); break;
        case 1: d = hostile(ch, fmt); if(ch.chance(1, 3)) d = damage(ch, d, valid); break;
        case 2: d = damage(ch, gen_document(ch, ch.below(3)), valid); break;   // possibly of another format
        default: { auto n = ch.below(ch.chance(1, 4) ? 3000 : 60); for(uint32_t i = 0; i < n; i++) d += (char)ch.below(256); }
    }
    return d;
}
static void as_tree(Chooser& ch)
{
    auto fmt = gen_format(ch);
    Tree t; auto p = make_parser(fmt);
    auto n = ch.range(1, 3);
    for(uint32_t k = 0; k < n; k++) {
        SpanScope sp(ch);
        auto d = bytes(ch, fmt, "");
        auto r = gen_read_plan(ch);
        trace("%s: %zu bytes from %s", fmt_name(fmt), d.size(), show(r).c_str());
        trace_bytes("document", d.data(), d.size());
        bounds(d.size());
        auto g = with_source(d, r, [&](Srl::Lib::In::Source s) { t.load_source(s, *p); });
        steps_end(); A.limit = 256u << 20;
        R->evals++;
        trace("-> %s", verdict_name(g.v));
        count(g.ok() ? "hostile.accepted" : "hostile.refused");
        if(g.ok()) {
            steps_begin(400u << 20);
            auto m = dump(t.root());
            trace("tree %s", mv_digest(m).c_str());
            // what was accepted can be saved; in the binary format exactly
            vector<uint8_t> v; auto p2 = make_parser(F_SRL);
            auto g2 = guarded([&] { t.to_source(v, *p2); });
            if(!g2.ok()) fail("accepted-not-savable", "%s", g2.msg.c_str());
            ReadPlan r2; r2.stream = false; Tree t2; auto p3 = make_parser(F_SRL);
            g2 = with_source(string(v.begin(), v.end()), r2, [&](Srl::Lib::In::Source s) { t2.load_source(s, *p3); });
            string why;
            if(!g2.ok()) fail("accepted-not-reloadable", "%s", g2.msg.c_str());
            if(!mv_equal(m, dump(t2.root()), F_SRL, why)) fail("accepted-differs", "%s", why.c_str());
            steps_end();
        }
        if(ch.chance(1, 2)) still_usable(ch, t, *p, fmt);
    }
}
static Register r1("C05", "as-tree", 10, as_tree);
static void as_object(Chooser& ch)
{
    auto c = gen_case(ch, -1, ch.chance(1, 3));
    trace("case %s", show_case(*c).c_str());
    string valid;
    { Tree t; auto p = make_parser(c->fmt); WritePlan w; w.stream = false; valid = store_doc(*c, t, *p, w, ch.chance(1, 4)); }
    Tree t; auto p = make_parser(c->fmt);
    auto n = ch.range(1, 3);
    for(uint32_t k = 0; k < n; k++) {
        SpanScope sp(ch);
        auto d = bytes(ch, c->fmt, valid);
        auto r = gen_read_plan(ch); bool via = ch.chance(1, 4);
        trace("%zu bytes from %s%s", d.size(), show(r).c_str(), via ? " by way of a tree" : "");
        trace_bytes("document", d.data(), d.size());
        auto got = fresh_got(*c);
        bounds(d.size());
        A.limit += 4u << 20;
        auto g = read_doc(*c, got, t, *p, d, r, via);
        steps_end(); A.limit = 256u << 20;
        R->evals++;
        trace("-> %s", verdict_name(g.v));
        count(g.ok() ? "hostile.accepted" : "hostile.refused");
        if(ch.chance(1, 2)) still_usable(ch, t, *p, c->fmt);
    }
}
static Register r2("C05", "as-object", 12, as_object);
// nesting
static void nesting(Chooser& ch)
{
    auto fmt = gen_format(ch);
    auto depth = ch.of(vector<uint32_t> { 2, 60, 120, 127, 128, 131, 140, 200, 1000, 5000, 100000 }) + (ch.chance(1, 3) ? ch.below(3) : 0);
    bool known = depth <= 128, refused = depth >= 131;
    MV leaf = ch.chance(1, 2) ? MV::num(Type::I32, 5) : MV(Type::Array);
    // encoded without recursion
    string open, close, d; bool obj = ch.chance(1, 2), named = obj && ch.chance(1, 2);
    if(fmt >= F_JSON) { open = obj ? "{\"k\":" : "["; close = obj ? "}" : "]"; }
    else if(fmt == F_MSG) open = obj ? "\x81\xa1k" : "\x91";
    else { open = obj ? "\x40" : "\x80"; close = string(1, '\0'); }
    if(fmt == F_SRL && named) open = "\x42\1k";
    auto pad = ch.below(4);
    for(uint32_t i = 0; i < depth; i++) d += i == 0 && fmt == F_SRL && named ? "\x40" : open;
    d += fmt >= F_JSON ? "1" : fmt == F_MSG ? "\x01" : string("\x01\x01", 2);
    for(uint32_t i = 0; i < depth; i++) d += close;
    auto r = gen_read_plan(ch);
    trace("%s nested %u deep%s, from %s", fmt_name(fmt), depth, obj ? " objects" : " arrays", show(r).c_str());
    (void)pad;
    Tree t; auto p = make_parser(fmt);
    bounds(d.size());
    auto g = with_source(d, r, [&](Srl::Lib::In::Source s) { t.load_source(s, *p); });
    steps_end(); A.limit = 256u << 20;
    R->evals++;
    trace("-> %s", verdict_name(g.v));
    if(known && !g.ok()) fail("moderate-nesting-refused", "depth %u: %s", depth, g.msg.c_str());
    if(refused && g.ok()) fail("deep-nesting-accepted", "depth %u", depth);
    still_usable(ch, t, *p, fmt);
    // a deep part that an object does not know
    string inner = d, whole;
    if(fmt >= F_JSON) whole = "{\"x\":" + inner + ",\"a\":7}";
    else if(fmt == F_MSG) whole = "\x82\xa1x" + inner + "\xa1" "a\x07";
    else if(obj && !named) whole = "\x40" + ("\x42\1x" + inner.substr(1)) + "\x03\1a\x07" + string(1, '\0');
    else return;
    int a = 0; auto r2 = gen_read_plan(ch); bool uns = ch.chance(1, 2);
    bounds(whole.size());
    auto g2 = with_source(whole, r2, [&](Srl::Lib::In::Source s) {
        if(uns) { t.unpack(s, *p, "a", a); } else { struct X { int a; void srl_resolve(Context& c) { c("a", a); } } x { 0 }; t.restore(x, s, *p); a = x.a; }
    });
    steps_end(); A.limit = 256u << 20;
    R->evals++;
    trace("-> %s %d", verdict_name(g2.v), a);
    if(g2.ok() && a != 7) fail("nested-unknown-wrong", "restored %d", a);
    if(depth <= 126 && !g2.ok()) fail("moderate-nesting-refused", "unknown part of depth %u: %s", depth, g2.msg.c_str());
    if(refused && g2.ok()) count("hostile.deep-skipped");
}
static Register r3("C05", "nesting", 3, nesting);
}
// places of a fixed size between guards
namespace sim {
namespace {
template<class T> struct Slot
{
    uint64_t before[2]; T v; uint64_t after[2];
    static constexpr uint64_t mark = 0x5AC35AC35AC35AC3ull;
    Slot() { before[0] = before[1] = after[0] = after[1] = mark; memset((void*)&v, 0x3C, sizeof v); }
    bool intact() const { return before[0] == mark && before[1] == mark && after[0] == mark && after[1] == mark; }
};
struct Place
{
    virtual ~Place() { }
    virtual const char* what() = 0;
    virtual bool text() = 0;
    virtual size_t room(const string& s) = 0;    // units which the text would take
    virtual size_t units() = 0;                  // which there is room for (text) or which must be given (elements)
    virtual bool intact() = 0;
    virtual bool holds(const MV& m) = 0;
    virtual void resolve(Srl::Context& c, const Srl::String& name) = 0;
    virtual void paste(Srl::Node& n, const Srl::String& name) = 0;
};
template<class C> static size_t units_of(const string& s)
{
    if(sizeof(C) == 1) return s.size();
    auto n16 = utf8_to_utf16(s).size(); auto n32 = utf8_to_utf32(s).size();
    return sizeof(C) == 2 ? n16 : n32;
}
template<class C> static string to_utf8(const C* p, size_t n)
{
    if(sizeof(C) == 1) return string((const char*)p, n);
    if(sizeof(C) == 2) return utf16_to_utf8(u16string(p, p + n));
    return utf32_to_utf8(u32string(p, p + n));
}
template<class C, size_t N> struct TextPlace : Place
{
    Slot<C[N]> s;
    const char* what() override { return sizeof(C) == 1 ? "char[]" : sizeof(C) == 2 ? "char16_t[]" : is_same<C, wchar_t>::value ? "wchar_t[]" : "char32_t[]"; }
    bool text() override { return true; }
    size_t room(const string& t) override { return units_of<C>(t); }
    size_t units() override { return N - 1; }
    bool intact() override { return s.intact(); }
    bool holds(const MV& m) override
    {
        auto n = units_of<C>(m.s);
        return n < N && s.v[n] == 0 && to_utf8<C>(s.v, n) == m.s;
    }
    void resolve(Srl::Context& c, const Srl::String& name) override { c(name, s.v); }
    void paste(Srl::Node& n, const Srl::String& name) override { n.paste_field(name, s.v); }
};
template<class C> struct OnePlace : Place      // a single character
{
    Slot<C> s;
    const char* what() override { return sizeof(C) == 1 ? "char" : sizeof(C) == 2 ? "char16_t" : "char32_t"; }
    bool text() override { return true; }
    size_t room(const string& t) override { auto n = units_of<C>(t); return n == 1 ? 0 : 9; }
    size_t units() override { return 0; }
    bool intact() override { return s.intact(); }
    bool holds(const MV& m) override { return to_utf8<C>(&s.v, 1) == m.s; }
    void resolve(Srl::Context& c, const Srl::String& name) override { c(name, s.v); }
    void paste(Srl::Node& n, const Srl::String& name) override { n.paste_field(name, s.v); }
};
template<class A, size_t N> struct ElemPlace : Place
{
    Slot<A> s;
    const char* what() override { return "elements"; }
    bool text() override { return false; }
    size_t room(const string&) override { return 0; }
    size_t units() override { return N; }
    bool intact() override { return s.intact(); }
    bool holds(const MV& m) override
    {
        if(m.items.size() != N) return false;
        for(size_t i = 0; i < N; i++) if((int64_t)s.v[i] != m.items[i].second.i) return false;
        return true;
    }
    void resolve(Srl::Context& c, const Srl::String& name) override { c(name, s.v); }
    void paste(Srl::Node& n, const Srl::String& name) override { n.paste_field(name, s.v); }
};
struct Places
{
    vector<unique_ptr<Place>> p; vector<string> names;
    void srl_resolve(Srl::Context& c) { for(size_t i = 0; i < p.size(); i++) p[i]->resolve(c, names[i]); }
};
}
static unique_ptr<Place> gen_place(Chooser& ch)
{
    switch(ch.below(18)) {
        case 0: return unique_ptr<Place>(new TextPlace<char, 2>);
        case 1: return unique_ptr<Place>(new TextPlace<char, 5>);
        case 2: return unique_ptr<Place>(new TextPlace<char, 33>);
        case 3: return unique_ptr<Place>(new TextPlace<char16_t, 2>);
        case 4: return unique_ptr<Place>(new TextPlace<char16_t, 5>);
        case 5: return unique_ptr<Place>(new TextPlace<char16_t, 33>);
        case 6: return unique_ptr<Place>(new TextPlace<char32_t, 2>);
        case 7: return unique_ptr<Place>(new TextPlace<char32_t, 5>);
        case 8: return unique_ptr<Place>(new TextPlace<wchar_t, 9>);
        case 9: return unique_ptr<Place>(new OnePlace<char>);
        case 10: return unique_ptr<Place>(new OnePlace<char16_t>);
        case 11: return unique_ptr<Place>(new OnePlace<char32_t>);
        case 12: return unique_ptr<Place>(new ElemPlace<int[1], 1>);
        case 13: return unique_ptr<Place>(new ElemPlace<short[4], 4>);
        case 14: return unique_ptr<Place>(new ElemPlace<int64_t[7], 7>);
        case 15: return unique_ptr<Place>(new ElemPlace<double[3], 3>);
        case 16: return unique_ptr<Place>(new ElemPlace<signed char[6], 6>);
        default: return unique_ptr<Place>(new TextPlace<char, 1>);
    }
}
static string text_of(Chooser& ch, size_t n)
{
    static const vector<string> cs { "x", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "y", "z" };
    string s; bool mixed = ch.chance(1, 2);
    for(size_t i = 0; i < n; i++) s += mixed ? ch.of(cs) : "x";
    return s;
}
static void fixed_size(Chooser& ch)
{
    auto fmt = gen_format(ch);
    Places o; MV m(Type::Object); bool fits = true;
    auto n = ch.range(1, 4);
    for(uint32_t i = 0; i < n; i++) {
        o.p.push_back(gen_place(ch)); o.names.push_back("f" + to_string(i));
        auto& p = *o.p.back(); MV v;
        size_t len = p.units();
        switch(ch.pick({ 4, 2, 2, 1 })) { case 1: len++; break; case 2: if(len) len--; break; case 3: len = ch.below(70); break; default: break; }
        if(p.text()) {
            if(dynamic_cast<OnePlace<char>*>(&p) || dynamic_cast<OnePlace<char16_t>*>(&p) || dynamic_cast<OnePlace<char32_t>*>(&p)) len++;
            v = MV::str(text_of(ch, len));
            // one character more or less where that matters
            while(ch.chance(1, 3) && v.s.size() && p.room(v.s) > p.units()) { auto k = v.s.size() - 1; while(k && ((uint8_t)v.s[k] & 0xC0) == 0x80) k--; v.s.resize(k); }
            if(p.room(v.s) > p.units()) fits = false;
        } else {
            v = MV(Type::Array);
            for(size_t k = 0; k < len; k++) v.items.push_back({ "", MV::num(Type::I8, (int)ch.below(200) - 100) });
            if(len != p.units()) fits = false;
        }
        trace("%s of %zu given %s", p.what(), p.units(), show(v, 80).c_str());
        m.items.push_back({ o.names.back(), v });
    }
    Tree t; auto ps = make_parser(fmt); Guard g;
    auto way = ch.below(3);
    if(way < 2) {
        auto d = encode(fmt, m, ch.chance(1, 2) ? &ch : nullptr);
        auto r = gen_read_plan(ch);
        trace("%s from %s", fmt_name(fmt), show(r).c_str());
        bounds(d.size());
        g = with_source(d, r, [&](Srl::Lib::In::Source s) {
            if(way == 0) t.restore(o, s, *ps);
            else { t.load_source(s, *ps); t.root().paste(o); }
        });
    } else {
        // values of a tree in other encodings
        bounds(4096);
        vector<u16string> k16; vector<u32string> k32;
        auto wide = ch.below(3);
        trace("from a tree, encoding %u", wide);
        g = guarded([&] {
            for(auto& it : m.items) {
                if(it.second.tp == Type::String) {
                    if(wide == 1) t.root().insert(it.first, utf8_to_utf16(it.second.s));
                    else if(wide == 2) t.root().insert(it.first, utf8_to_utf32(it.second.s));
                    else t.root().insert(it.first, it.second.s);
                } else {
                    vector<int> v; for(auto& e : it.second.items) v.push_back((int)e.second.i);
                    t.root().insert(it.first, v);
                }
            }
            if(ch.chance(1, 2)) t.root().paste(o); else for(size_t i = 0; i < o.p.size(); i++) o.p[i]->paste(t.root(), o.names[i]);
        });
    }
    steps_end(); A.limit = 256u << 20;
    R->evals++;
    trace("-> %s", verdict_name(g.v));
    count(fits ? "places.fit" : "places.too-much");
    for(auto& p : o.p) if(!p->intact()) fail("outside-of-the-place", "what lies around %s of %zu was changed (%s)", p->what(), p->units(), verdict_name(g.v));
    if(fits && !g.ok()) fail("fitting-refused", "%s", g.msg.c_str());
    if(!fits && g.ok()) fail("too-much-accepted", "%s", show(m).c_str());
    if(fits) for(size_t i = 0; i < o.p.size(); i++) if(!o.p[i]->holds(m.items[i].second)) fail("place-differs", "%s of %zu was given %s", o.p[i]->what(), o.p[i]->units(), show(m.items[i].second).c_str());
}
static Register r4("C05", "fixed-size", 3, fixed_size);
}
namespace sim {
// known finding: objects of recursive user types are restored to any depth, on the stack
static bool recursion_unlimited()
{
    static char* top; static size_t used;
    struct L { int n = 0; std::vector<L> kids; void srl_resolve(Srl::Context& c) { char here; if(size_t(top - &here) > used && &here < top) used = size_t(top - &here); c("kids", kids); } };
    string d; const int depth = 1000;
    for(int i = 0; i < depth; i++) d += "{\"kids\":[";
    for(int i = 0; i < depth; i++) d += "]}";
    char here; top = &here; used = 0;
    L l; Tree t; auto p = make_parser(F_JSON);
    auto g = guarded([&] { t.restore(l, (const uint8_t*)d.data(), d.size(), *p); });
    return g.ok() && used > depth * 100;
}
static RegisterFinding f1("C05", "recursion", recursion_unlimited, "recursive user types");
}
