// C11: a user type which asks for its items by name, in any order and in any way, while the document is being read.
#include "cases.h"
namespace sim {
using namespace std;
struct Ask { enum { HAS_VALUE, HAS_NODE, UNION, OPT_VALUE, OPT_NODE, ABSENT, ABSENT_NODE, NUMBER, NODE } k; string name; shared_ptr<vector<Ask>> sub; const MV* item; };
typedef vector<Ask> Plan;
static const MV* find(const MV& m, const string& n) { for(auto& i : m.items) if(i.first == n) return &i.second; return nullptr; }
struct Asker {
    const Plan* plan = nullptr; int fmt = 0;
    void srl_resolve(Srl::Context& c)
    {
        if(c.mode() == Srl::Mode::Insert) return;
        auto& n = c.node();
        for(auto& a : *plan) {
            Srl::String name(a.name);
            auto wrong = [&](const char* what, bool got) { HarnessScope hs; if(got != (a.item != nullptr)) fail("wrong-lookup", "%s \"%s\" gives %d", what, a.name.c_str(), got); };
            auto same = [&](const MV& got) { HarnessScope hs; string why; MV w = *a.item; if(!mv_equal(split(w), split(got), fmt, why)) fail("wrong-item", "item \"%s\": %s", a.name.c_str(), why.c_str()); };
            switch(a.k) {
                case Ask::HAS_VALUE: wrong("has_value", n.has_value(name)); break;
                case Ask::HAS_NODE: wrong("has_node", n.has_node(name)); break;
                case Ask::UNION: { Srl::Union u; n.paste_field(name, u); HarnessScope hs; if(u.is_node() != a.item->scope()) fail("wrong-item", "item \"%s\" is of the other sort", a.name.c_str()); same(u.is_node() ? dump(*u.node()) : dump_value(*u.value())); } break;
                case Ask::OPT_VALUE: { bool b = true; int8_t x = 77; int64_t y = 77; string s = "untouched";
                    if(!a.item) { c(name, x, Srl::CtxFlags::Optional); c(name, s, Srl::CtxFlags::Optional); HarnessScope hs; if(x != 77 || s != "untouched") fail("invented", "an absent item \"%s\" is restored", a.name.c_str()); }
                    else if(a.item->tp == Type::String) { c(name, s, Srl::CtxFlags::Optional); HarnessScope hs; if(s != a.item->s) fail("wrong-item", "item \"%s\" reads as %s", a.name.c_str(), show_text(s).c_str()); }
                    else if(a.item->tp == Type::Bool) { c(name, b, Srl::CtxFlags::Optional); if(b != a.item->b) fail("wrong-item", "item \"%s\" reads as %d", a.name.c_str(), b); }
                    else { c(name, y, Srl::CtxFlags::Optional); if(is_uns(a.item->tp) ? (uint64_t)y != a.item->u : y != a.item->i) fail("wrong-item", "item \"%s\" reads as %lld", a.name.c_str(), (long long)y); }
                } break;
                case Ask::OPT_NODE: { Asker x { a.sub.get(), fmt }; static const Plan none; if(!x.plan) x.plan = &none; c(name, x, Srl::CtxFlags::Optional); } break;
                case Ask::NODE: { Asker x { a.sub.get(), fmt }; if(a.name.size()) c(name, x); else n.paste_field(name, x); } break;
                case Ask::NUMBER: { auto s = n.unwrap_field<string>(name); HarnessScope hs; if(s != a.item->s) fail("wrong-item", "item \"%s\" reads as %s", a.name.c_str(), show_text(s).c_str()); } break;
                default: {
                    bool threw = false; int64_t x = 5; vector<int> v { 5 };
                    try { if(a.k == Ask::ABSENT) n.paste_field(name, x); else n.paste_field(name, v); } catch(Srl::Exception&) { threw = true; }
                    if(!threw) fail("invented", "an absent item \"%s\" is restored", a.name.c_str());
                    if(x != 5 || v.size() != 1) fail("invented", "an absent item \"%s\" changed the member", a.name.c_str());
                }
            }
        }
    }
};
static MV gen_asked(Chooser& ch, int fmt, int depth)
{
    MV m(Type::Object); DocOpts o; o.special_fp = fmt < F_JSON; o.binary = fmt < F_JSON; o.max_depth = 2; o.max_items = 4;
    auto n = ch.below(7); set<string> used;
    for(uint32_t i = 0; i < n; i++) {
        SpanScope sp(ch);
        string name = ch.chance(1, 12) ? "" : gen_name(ch, used);
        if(!used.insert(name).second) continue;
        MV v;
        switch(ch.pick({ 6, depth < 3 ? 3u : 0u, 1, 2 })) {
            case 0: v = gen_scalar(ch, o); break;
            case 1: v = gen_asked(ch, fmt, depth + 1); break;
            case 2: v = gen_doc(ch, o); break;
            default: v = MV::num(Type::I32, (int32_t)ch.below(1000) - 500);
        }
        m.items.push_back({ name, v });
    }
    return m;
}
static shared_ptr<Plan> gen_plan(Chooser& ch, const MV& m, int depth, const string& path)
{
    auto p = make_shared<Plan>();
    set<string> used, taken; vector<string> names; for(auto& i : m.items) used.insert(i.first), names.push_back(i.first);
    auto n = ch.below(10);
    for(uint32_t k = 0; k < n; k++) {
        SpanScope sp(ch);
        Ask a; string name = names.size() && ch.chance(2, 3) ? names[ch.below((uint32_t)names.size())] : ch.chance(1, 6) ? "" : gen_name(ch, used);
        if(taken.count(name)) continue;     // what was taken is not asked for again
        auto* v = find(m, name); a.name = name; a.item = nullptr;
        switch(ch.below(5)) {
            case 0: a.k = Ask::HAS_VALUE; a.item = v && !v->scope() ? v : nullptr; break;
            case 1: a.k = Ask::HAS_NODE; a.item = v && v->scope() ? v : nullptr; break;
            case 2: if(v) a.k = Ask::UNION, a.item = v; else a.k = ch.chance(1, 2) ? Ask::ABSENT : Ask::ABSENT_NODE; break;
            default:
                if(v && v->tp == Type::Object) { a.item = v; a.sub = gen_plan(ch, *v, depth + 1, path + "/" + name); a.k = name.size() && ch.chance(1, 2) ? Ask::OPT_NODE : Ask::NODE; taken.insert(name); }
                else if(v && v->tp == Type::Array) { a.k = Ask::UNION; a.item = v; }
                else if(v && v->tp == Type::String && ch.chance(1, 2)) { a.k = Ask::NUMBER; a.item = v; taken.insert(name); }
                else if(v && name.size() && (v->tp == Type::String || v->tp == Type::Bool || (is_int(v->tp) && !(is_uns(v->tp) && v->u > (uint64_t)INT64_MAX)))) { a.k = Ask::OPT_VALUE; a.item = v; taken.insert(name); }
                else if(v) { a.k = Ask::UNION; a.item = v; }
                else if(name.size()) a.k = ch.chance(1, 2) ? Ask::OPT_VALUE : Ask::OPT_NODE;
                else a.k = Ask::HAS_VALUE;
        }
        static const char* const K[] = { "has_value", "has_node", "union", "optional value", "optional node", "absent value", "absent node", "text", "node" };
        trace("%s: %s \"%s\"%s", path.c_str(), K[a.k], show_text(name).c_str(), a.item ? "" : " (not there)");
        p->push_back(a);
    }
    return p;
}
static void ask(Chooser& ch)
{
    auto fmt = gen_format(ch);
    MV m = gen_asked(ch, fmt, 0);
    auto plan = gen_plan(ch, m, 0, "root");
    auto d = encode(fmt, m, ch.chance(1, 2) ? &ch : nullptr);
    auto r = gen_read_plan(ch); bool tree = ch.chance(1, 4);
    trace("%s from %s%s: %s", fmt_name(fmt), show(r).c_str(), tree ? ", from a tree" : "", show(m, 300).c_str());
    steps_begin((100u << 20) + 1000 * d.size());
    Tree t; auto p = make_parser(fmt); Asker o { plan.get(), fmt };
    auto g = with_source(d, r, [&](Srl::Lib::In::Source s) { if(tree) { t.load_source(s, *p); t.root().paste(o); } else t.restore(o, s, *p); });
    if(!g.ok()) fail("document-refused", "%s: %s", verdict_name(g.v), g.msg.c_str());
    steps_end();
    R->evals += 1 + plan->size();
    count("asked", plan->size());
    state(fnv(d.data(), d.size()));
}
static Register r1("C11", "ask", 5, ask);

// items found by their place, between ones found by name which may be absent
struct Placed {
    struct Part { int k = 0; string name; bool there = true, opt = false; int64_t i = 0; string s; vector<int> v; shared_ptr<Placed> o; };
    vector<Part> parts; bool lookups = false;
    enum { INT, TEXT, VEC, OBJ };
    template<class T> void one(Srl::Context& c, Part& p, T& o)
    {
        if(c.mode() == Srl::Mode::Insert) { if(p.there) { if(p.name.empty()) c(o); else c(Srl::String(p.name), o); } }
        else if(p.name.empty()) c(o);
        else if(!p.opt) c(Srl::String(p.name), o);
        else if(lookups) { if(p.k < VEC ? c.node().has_value(Srl::String(p.name)) : c.node().has_node(Srl::String(p.name))) c(Srl::String(p.name), o); }
        else c(Srl::String(p.name), o, Srl::CtxFlags::Optional);
    }
    void srl_resolve(Srl::Context& c)
    {
        for(auto& p : parts) switch(p.k) {
            case INT: one(c, p, p.i); break;
            case TEXT: one(c, p, p.s); break;
            case VEC: one(c, p, p.v); break;
            default: one(c, p, *p.o);
        }
    }
    static shared_ptr<Placed> gen(Chooser& ch, int depth, string& show)
    {
        auto r = make_shared<Placed>(); r->lookups = ch.chance(1, 4);
        auto n = ch.range(1, 7); show += "{";
        set<string> used;
        for(uint32_t k = 0; k < n; k++) {
            SpanScope sp(ch);
            Part p; p.k = (int)ch.pick({ 6, 3, 4, depth < 3 ? 3u : 0u });
            if(ch.chance(1, 2)) { p.name = gen_name(ch, used); if(p.name.empty() || !used.insert(p.name).second) p.name = "n" + to_string(k); used.insert(p.name); p.opt = ch.chance(2, 3); if(p.opt) p.there = ch.chance(1, 2); }
            p.i = ch.below(1000); auto m = ch.below(4); p.s = string(m, (char)('a' + ch.below(26))); for(uint32_t i = 0; i < m; i++) p.v.push_back((int)ch.below(100));
            show += string(" ") + (const char*[]) { "int", "text", "vector", "object" }[p.k] + (p.name.empty() ? " by place" : p.opt ? p.there ? " optional" : " absent" : " by name");
            if(p.k == OBJ) p.o = gen(ch, depth + 1, show);
            r->parts.push_back(p);
        }
        show += " }";
        return r;
    }
    // the same parts with other contents
    shared_ptr<Placed> blank() const
    {
        auto r = make_shared<Placed>(); r->lookups = lookups;
        for(auto& p : parts) { Part q = p; q.i = -1; q.s = "-"; q.v = { -1 }; if(p.o) q.o = p.o->blank(); r->parts.push_back(q); }
        return r;
    }
    bool same(const Placed& x, bool absent, string& why) const
    {
        for(size_t i = 0; i < parts.size(); i++) {
            auto& p = parts[i]; auto& q = x.parts[i]; bool no = absent || !p.there;
            if(p.k == INT && q.i != (no ? -1 : p.i)) { why = "part " + to_string(i) + " is " + to_string(q.i); return false; }
            if(p.k == TEXT && q.s != (no ? "-" : p.s)) { why = "part " + to_string(i) + " is " + q.s; return false; }
            if(p.k == VEC && q.v != (no ? vector<int>{ -1 } : p.v)) { why = "part " + to_string(i) + " is a vector of " + to_string(q.v.size()); return false; }
            if(p.k == OBJ && !p.o->same(*q.o, no, why)) { why = "part " + to_string(i) + ": " + why; return false; }
        }
        return true;
    }
};
static void places(Chooser& ch)
{
    auto fmt = gen_format(ch); auto r = gen_read_plan(ch); string show_it;
    auto o = Placed::gen(ch, 0, show_it); auto x = o->blank();
    bool via = ch.chance(1, 3), tree = ch.chance(1, 3);
    trace("%s from %s%s%s: %s", fmt_name(fmt), show(r).c_str(), via ? ", saved from a tree" : "", tree ? ", from a tree" : "", show_it.c_str());
    steps_begin(100u << 20);
    Tree t, u; auto p = make_parser(fmt); vector<uint8_t> v;
    auto g = guarded([&] { if(via) { t.root().insert("o", *o); t.root().node("o").to_source(v, *p); } else t.store(*o, v, *p); });
    if(!g.ok()) fail("healthy-refused", "%s", g.msg.c_str());
    string d(v.begin(), v.end());
    g = with_source(d, r, [&](Srl::Lib::In::Source s) { if(tree) { u.load_source(s, *p); u.root().paste(*x); } else u.restore(*x, s, *p); });
    if(!g.ok()) fail("healthy-refused", "%s", g.msg.c_str());
    string why;
    if(!o->same(*x, false, why)) fail("another-value", "%s", why.c_str());
    steps_end();
    R->evals++;
    count("placed", o->parts.size());
    state(fnv(d.data(), d.size()));
}
static Register r2("C11", "places", 4, places);
}
