// C11: restoring tolerates reordered, extra and absent fields.
#include "ops.h"
namespace sim {
using namespace std;
struct Plan {
    Chooser& ch; int fmt; bool shuffle, extra, prune_opt, prune_mand;
    bool wrong = false; int shuffled = 0, added = 0, opt = 0, mand = 0; set<const void*> unset;
};
static bool has_shared(const MV& m) { for(auto& i : m.items) if(i.first == "srl_shared_value" || has_shared(i.second)) return true; return false; }
static MV extra_item(Plan& p)
{
    DocOpts d; d.max_depth = p.ch.range(1, 4); d.max_items = 4; d.big = p.ch.chance(1, 10); d.binary = true;
    if(p.ch.chance(1, 2)) return gen_doc(p.ch, d);
    auto m = gen_scalar(p.ch, d); m.kind = 0; return m;
}
static void names_of(const MV& m, vector<string>& out) { for(auto& i : m.items) { if(m.tp == Type::Object && !i.first.empty()) out.push_back(i.first); names_of(i.second, out); } }
// scopes whose values and nodes are found by their order: the two orders are kept, how they are merged does not matter.
// More values behind the last one and more nodes behind the last one are not known, nor are nodes among values only, and values among nodes only.
static void merge(MV& m, Plan& p)
{
    auto& v = m.items;
    if(p.shuffle && m.kind == K_POS && v.size() > 1) {
        vector<pair<string, MV>> a, b, r;
        for(auto& i : v) (i.second.scope() ? b : a).push_back(i);
        size_t x = 0, y = 0;
        while(x < a.size() || y < b.size()) { bool first = y == b.size() || (x < a.size() && p.ch.chance(1, 2)); r.push_back(first ? a[x++] : b[y++]); }
        for(size_t i = 0; i < v.size(); i++) p.shuffled += v[i].second.scope() != r[i].second.scope();
        v = r;
    }
    if(!p.extra || !p.ch.chance(1, 3)) return;
    set<string> own; for(auto& i : v) own.insert(i.first);
    auto n = p.ch.range(1, 3);
    for(uint32_t i = 0; i < n; i++) {
        auto e = extra_item(p);
        size_t from = 0;
        if(m.kind == K_VALS && !e.scope()) { MV o(Type::Array); o.items.push_back({ "", e }); e = o; }
        if(m.kind == K_NODES && e.scope()) e = MV::str("extra");
        if(m.kind == K_POS) for(size_t k = 0; k < v.size(); k++) if(v[k].second.scope() == e.scope()) from = k + 1;
        string name;
        if(m.tp == Type::Object && p.ch.chance(1, 2)) { name = gen_name(p.ch, own); while(own.count(name)) name += "_"; }
        else if(m.tp == Type::Object && m.kind != K_POS) { name = "x"; while(own.count(name)) name += "_"; }
        own.insert(name);
        v.insert(v.begin() + from + p.ch.below((uint32_t)(v.size() - from) + 1), { name, e }); p.added++;
    }
}
// in document order
static void change(MV& m, Plan& p, vector<string>& known)
{
    SpanScope sp(p.ch);
    set<string> own; for(auto& i : m.items) own.insert(i.first);
    if(m.kind >= K_DYN) {
        auto& s = schemas[m.kind - K_DYN]; auto& f = *(vector<unique_ptr<FieldBase>>*)m.origin;
        for(size_t i = 0; i < s.f.size(); i++) {
            vector<size_t> at;
            for(size_t k = 0; k < m.items.size(); k++) if(m.items[k].first == s.f[i].name || m.items[k].first == "w" + s.f[i].name) at.push_back(k);
            bool shared = false; for(auto k : at) shared |= m.items[k].first == "srl_shared_value" || has_shared(m.items[k].second);
            if(s.f[i].optional && p.prune_opt && !shared && p.ch.chance(1, 2)) {
                for(size_t k = at.size(); k-- > 0; ) m.items.erase(m.items.begin() + at[k]);
                // the expected object has the value such a member starts with
                f[i].reset(s.f[i].type->make()); p.opt++; p.unset.insert(f[i].get());
            } else if(!s.f[i].optional && p.prune_mand && !p.mand && p.ch.chance(1, 4)) {
                bool null = false; for(auto k : at) null |= m.items[k].second.tp == Type::Null;
                p.mand++;
                if(!at.empty() && !null && p.ch.chance(1, 3)) {
                    // there is something by that name, of another kind
                    for(auto k : at) { auto& o = m.items[k].second; DocOpts d; d.max_depth = 1; d.big = false; if(!o.scope()) o = gen_doc(p.ch, d); else { d.only = p.ch.below(3); o = gen_scalar(p.ch, d); } o.kind = 0; }
                    count("doc.mandatory_other_kind"); p.wrong = true;
                } else for(size_t k = at.size(); k-- > 0; ) m.items.erase(m.items.begin() + at[k]);
            }
        }
    }
    for(auto& i : m.items) change(i.second, p, known);
    if(m.kind == K_ANY) return;
    if(m.kind == K_POS || m.kind == K_VALS || m.kind == K_NODES) { merge(m, p); return; }
    if(p.shuffle) {
        auto& v = m.items;
        for(size_t i = v.size(); i > 1; i--) { auto j = p.ch.below((uint32_t)i); if(i - 1 - j != i - 1) { swap(v[i - 1], v[i - 1 - j]); p.shuffled++; } }
    }
    if(p.extra && p.ch.chance(1, 2)) {
        auto n = p.ch.range(1, 3);
        for(uint32_t i = 0; i < n; i++) {
            string name = !known.empty() && p.ch.chance(1, 2) ? known[p.ch.below((uint32_t)known.size())] : gen_name(p.ch, own);
            while(own.count(name)) name += "_";
            own.insert(name);
            auto e = extra_item(p);
            // sometimes it looks like something that is known, one level further down
            if(p.ch.chance(1, 4)) { MV o(Type::Object); for(auto& k : m.items) o.items.push_back(k); e = o; }
            m.items.insert(m.items.begin() + p.ch.below((uint32_t)m.items.size() + 1), { name, e }); p.added++;
        }
    }
}
static void tolerance(Chooser& ch)
{
    steps_begin(300u << 20);
    auto c = gen_case(ch, -1, ch.chance(1, 8));
    c->use();
    for(auto& s : c->own) if(!s.nameless) for(auto& f : s.f) f.optional = ch.chance(1, 3);
    Plan p { ch, c->fmt, ch.chance(2, 3), ch.chance(2, 3), ch.chance(1, 2), ch.chance(1, 5) };
    auto m = model_case(*c, false);
    if(c->pair) m.kind = K_FIELDS;
    else if(!c->f->is_scope()) m.kind = K_POS;
    vector<string> known; if(ch.chance(1, 2)) names_of(m, known);
    // set elements, map keys and the like are parts of the object's identity: no members are unset there
    change(m, p, known);
    auto doc = encode(c->fmt, m, ch.chance(1, 2) ? &ch : nullptr);
    trace("%s: %d moved, %d added, %d optional absent, %d mandatory absent, %zu bytes", show_case(*c).c_str(), p.shuffled, p.added, p.opt, p.mand, doc.size());
    if(p.shuffled) count("doc.shuffled"); if(p.added) count("doc.extra_fields", p.added); if(p.opt) count("doc.optional_absent", p.opt); if(p.mand) count("doc.mandatory_absent");
    Env e;
    auto n = ch.range(1, 3);
    for(uint32_t k = 0; k < n; k++) {
        SpanScope sp(ch);
        auto r = gen_read_plan(ch); bool via = ch.chance(1, 3);
        auto got = fresh_got(*c);
        auto g = read_doc(*c, got, *e.t, *e.p[c->fmt], doc, r, via);
        R->evals++;
        trace("%s%s -> %s %s", show(r).c_str(), via ? " by way of a tree" : "", verdict_name(g.v), g.msg.c_str());
        if(p.mand) {
            if(g.ok()) fail("absent-accepted", "a mandatory field is %s, and restoring succeeded", p.wrong ? "of another kind" : "absent");
            if(g.v != V_SRL) fail("absent-other-error", "a mandatory field is absent: %s", verdict_name(g.v));
            if(g.msg.empty()) fail("absent-unnamed", "a mandatory field is absent, and the error says nothing");
        } else {
            if(!g.ok()) fail("refused", "%s from %s: %s", via ? "by way of a tree" : "directly", show(r).c_str(), g.msg.c_str());
            string why; if(!equal_case(*c, got, why)) fail("wrong-object", "%s from %s: %s", via ? "by way of a tree" : "directly", show(r).c_str(), why.c_str());
        }
    }
    state(fnv(doc.data(), min<size_t>(doc.size(), 64)));
    steps_end();
}
// absent optional fields leave the members of an object in use as they were
static void keeps(Chooser& ch)
{
    steps_begin(300u << 20);
    unique_ptr<Case> c;
    for(int k = 0; k < 4; k++) { c = gen_case(ch, -1, false); if(!strcmp(c->f->type_name(), "Dyn1") && !c->own[1].nameless) break; }
    c->use();
    auto m = model_case(*c, false);
    MV* o = c->pair ? &m.items[0].second : &m;
    if(o->kind != K_DYN + 1) return;
    auto& s = c->own[1];
    for(auto& f : s.f) f.optional = ch.chance(3, 4);
    auto got = fresh_got(*c);
    { SpanScope sp(ch); Gx g2 { ch, c->fmt }; g2.big = false; got.f->gen(g2); }
    Mx mx; auto before = got.f->root_model(mx);      // (a pair's object is the same as a root)
    if(before.kind != K_DYN + 1) return;
    auto field = [&](const MV& x, size_t i) { MV r(Type::Object); Mx q; (*(vector<unique_ptr<FieldBase>>*)x.origin)[i]->model(r, "f", q); return mv_digest(r); };
    vector<string> old; for(size_t i = 0; i < s.f.size(); i++) old.push_back(field(before, i));
    // drop some of the optional fields; a field which brings a shared object to the others stays
    vector<bool> gone(s.f.size());
    for(size_t i = 0; i < s.f.size(); i++) {
        if(!s.f[i].optional || !ch.chance(1, 2)) continue;
        bool shared = false; for(auto& x : o->items) if(x.first == s.f[i].name || x.first == "w" + s.f[i].name) shared |= has_shared(x.second);
        if(shared) continue;
        for(size_t k = o->items.size(); k-- > 0; ) if(o->items[k].first == s.f[i].name || o->items[k].first == "w" + s.f[i].name) o->items.erase(o->items.begin() + k);
        gone[i] = true; count("doc.optional_absent");
    }
    if(ch.chance(1, 2)) { auto& v = o->items; for(size_t i = v.size(); i > 1; i--) swap(v[i - 1], v[ch.below((uint32_t)i)]); }
    auto doc = encode(c->fmt, m, ch.chance(1, 2) ? &ch : nullptr);
    Env e;
    auto r = gen_read_plan(ch); bool via = ch.chance(1, 3); r.value = false;
    trace("%s, %s%s", show_case(*c).c_str(), show(r).c_str(), via ? " by way of a tree" : "");
    auto g = read_doc(*c, got, *e.t, *e.p[c->fmt], doc, r, via);
    if(!g.ok()) fail("refused", "%s from %s: %s", via ? "by way of a tree" : "directly", show(r).c_str(), g.msg.c_str());
    Mx m2, m3; auto now = got.f->root_model(m2), want = c->f->root_model(m3);
    Ex x;
    for(size_t i = 0; i < s.f.size(); i++) {
        R->evals++;
        if(gone[i]) { if(field(now, i) != old[i]) fail("member-changed", "the field <%s> %s is absent, and the member changed", show_text(s.f[i].name).c_str(), s.f[i].type->name); }
        else if(!(*(vector<unique_ptr<FieldBase>>*)want.origin)[i]->eq(*(*(vector<unique_ptr<FieldBase>>*)now.origin)[i], x)) fail("wrong-object", "<%s> %s: %s", show_text(s.f[i].name).c_str(), s.f[i].type->name, x.why.c_str());
    }
    steps_end();
}
static Register r1("C11", "tolerance", 10, tolerance), r2("C11", "keeps", 4, keeps);
}
