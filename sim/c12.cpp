// C12: shared references keep their sharing.
#include "ops.h"
#include <unordered_map>
#include <unordered_set>
namespace sim {
using namespace std;
// An acyclic graph: a node refers to nodes of higher rank only.
struct GNode : Tracked {
    int32_t id = 0; string text;
    vector<shared_ptr<GNode>> kids; shared_ptr<GNode> one; weak_ptr<GNode> watch; vector<weak_ptr<GNode>> watches;
    map<string, shared_ptr<GNode>> named; pair<int, shared_ptr<GNode>> pr; unique_ptr<shared_ptr<string>> ups; tuple<shared_ptr<string>, int> tp;
    shared_ptr<Base> poly; shared_ptr<PolyA> polya; weak_ptr<Base> wpoly; shared_ptr<vector<shared_ptr<int>>> nums; deque<shared_ptr<int>> ints;
    bool weak_first = false;
    GNode() { user_point("constructor"); }
    void srl_resolve(Context& c)
    {
        user_point("srl_resolve");
        c("id", id)("weak_first", weak_first)("text", text);
        if(weak_first) c("watch", watch)("wpoly", wpoly);
        c("one", one)("kids", kids)("named", named)("watches", watches);
        c("poly", poly)("polya", polya)("nums", nums)("ints", ints);
        has(c, "pr", pr, pr.second != nullptr); has(c, "ups", ups, ups != nullptr); has(c, "tp", tp, get<0>(tp) != nullptr);
        if(!weak_first) c("watch", watch)("wpoly", wpoly);
    }
    // null pointers are kept in named fields only
    template<class T> void has(Context& c, const char* n, T& v, bool there)
    {
        string f = string("has_") + n; bool h = there;
        c(f.c_str(), h);
        if(h) { mk(v); c(n, v); }
    }
    template<class T> static void mk(T&) { }
    static void mk(unique_ptr<shared_ptr<string>>& p) { HarnessScope hs; if(!p) p.reset(new shared_ptr<string>()); }
};
struct Graph {
    vector<shared_ptr<GNode>> nodes; vector<shared_ptr<Base>> poly; vector<shared_ptr<PolyA>> polya; vector<shared_ptr<string>> strs; vector<shared_ptr<int>> ints; vector<shared_ptr<vector<shared_ptr<int>>>> nums;
};
template<class T> static shared_ptr<T> any(Chooser& ch, const vector<shared_ptr<T>>& v, bool null) { if(v.empty() || (null && ch.chance(1, 3))) return nullptr; return v[ch.below((uint32_t)v.size())]; }
static Graph gen_graph(Chooser& ch)
{
    Graph g; Gx gx { ch, F_JSON }; gx.big = false; gx.depth = 3;
    auto n = ch.range(1, ch.chance(1, 6) ? 24 : 6);
    for(uint32_t i = 0, k = ch.below(3); i < k; i++) g.ints.push_back(make_shared<int>((int)ch.below(1000)));
    for(uint32_t i = 0, k = ch.below(3); i < k; i++) g.strs.push_back(make_shared<string>(gen_text(ch, false, false)));
    for(uint32_t i = 0, k = ch.below(3); i < k; i++) { g.polya.push_back(make_shared<PolyA>()); g.polya.back()->n = (int)i; g.poly.push_back(g.polya.back()); }
    for(uint32_t i = 0, k = ch.below(3); i < k; i++) { Base* b = make_poly(gx); g.poly.push_back(shared_ptr<Base>(b)); }
    for(uint32_t i = 0, k = g.ints.empty() ? 0 : ch.below(2); i < k; i++) { g.nums.push_back(make_shared<vector<shared_ptr<int>>>()); for(uint32_t j = 0, m = ch.below(4); j < m; j++) g.nums.back()->push_back(any(ch, g.ints, false)); }
    // built from the highest rank downwards
    vector<shared_ptr<GNode>> hi;
    for(uint32_t i = 0; i < n; i++) {
        SpanScope sp(ch);
        auto x = make_shared<GNode>(); x->id = (int)i; x->text = gen_text(ch, false, false);
        if(ch.chance(1, 2)) x->one = any(ch, hi, true);
        for(uint32_t k = 0, m = hi.empty() ? 0 : ch.below(4); k < m; k++) x->kids.push_back(any(ch, hi, false));
        for(uint32_t k = 0, m = hi.empty() ? 0 : ch.below(3); k < m; k++) x->named["n" + to_string(ch.below(5))] = any(ch, hi, false);
        if(ch.chance(1, 3)) x->watch = any(ch, hi, true);
        for(uint32_t k = 0, m = hi.empty() ? 0 : ch.below(3); k < m; k++) x->watches.push_back(any(ch, hi, false));
        if(ch.chance(1, 3)) x->pr = { (int)i, any(ch, hi, true) };
        if(ch.chance(1, 3) && !g.strs.empty()) x->ups.reset(new shared_ptr<string>(any(ch, g.strs, false)));
        if(ch.chance(1, 3)) get<0>(x->tp) = any(ch, g.strs, true);
        if(ch.chance(1, 3)) x->poly = any(ch, g.poly, true);
        if(ch.chance(1, 3)) x->polya = any(ch, g.polya, true);
        if(ch.chance(1, 4)) x->wpoly = any(ch, g.poly, true);
        if(ch.chance(1, 4)) x->nums = any(ch, g.nums, true);
        for(uint32_t k = 0, m = g.ints.empty() ? 0 : ch.below(3); k < m; k++) x->ints.push_back(any(ch, g.ints, false));
        x->weak_first = ch.chance(1, 3);
        if(ch.chance(1, 12)) x->watch = make_shared<GNode>();      // expired
        hi.push_back(x);
        if(hi.size() > 6) hi.erase(hi.begin() + ch.below((uint32_t)hi.size()));
        g.nodes.push_back(x);
    }
    return g;
}
// walks two graphs in step; addresses have to be related one to one
struct Walk {
    Ex x; map<const void*, long> owners;         // owning references to each restored object
    set<const void*> stored;                     // distinct objects in the stored graph
    set<const void*> weak_only;
    static const void* id(const Base* b) { return b ? dynamic_cast<const void*>(b) : nullptr; }
    template<class T> static const void* id(const T* p) { return p; }
    template<class T> bool ref(const shared_ptr<T>& a, const shared_ptr<T>& b, const char* what, bool weak = false)
    {
        if(!a != !b) return x.bad(string(what) + (a ? ": lost" : ": not null"));
        if(!a) return true;
        stored.insert(id(a.get()));
        bool first = !x.known(id(a.get()));
        if(!x.pair(id(a.get()), id(b.get()))) return x.bad(string(what) + ": sharing differs");
        if(!weak) { owners[id(b.get())]++; }
        return !first || visit(*a, *b) || x.bad(what);
    }
    bool visit(const string& a, const string& b) { return a == b || x.bad("shared string"); }
    bool visit(const int& a, const int& b) { return a == b || x.bad("shared int"); }
    bool visit(const Base& a, const Base& b) { return Tr<Base>::eq(a, b, x); }
    template<class C> bool seq(const C& a, const C& b, const char* w)
    {
        if(a.size() != b.size()) return x.bad(string(w) + ": size");
        auto j = b.begin(); for(auto i = a.begin(); i != a.end(); ++i, ++j) if(!ref(*i, *j, w)) return false;
        return true;
    }
    bool visit(const vector<shared_ptr<int>>& a, const vector<shared_ptr<int>>& b) { return seq(a, b, "nums"); }
    bool visit(const GNode& a, const GNode& b)
    {
        if(a.id != b.id || a.text != b.text || a.weak_first != b.weak_first) return x.bad("content of a node");
        if(!ref(a.one, b.one, "one") || !seq(a.kids, b.kids, "kids") || !seq(a.ints, b.ints, "ints")) return false;
        if(a.named.size() != b.named.size()) return x.bad("named: size");
        for(auto i = a.named.begin(), j = b.named.begin(); i != a.named.end(); ++i, ++j) if(i->first != j->first || !ref(i->second, j->second, "named")) return x.bad("named");
        if(a.watches.size() != b.watches.size()) return x.bad("watches: size");
        if(!ref(a.pr.second, b.pr.second, "pr") || (a.pr.second && a.pr.first != b.pr.first)) return x.bad("pr");
        if(!a.ups != !b.ups) return x.bad("ups"); if(a.ups && !ref(*a.ups, *b.ups, "ups")) return false;
        if(!ref(get<0>(a.tp), get<0>(b.tp), "tp") || !ref(a.poly, b.poly, "poly") || !ref(a.polya, b.polya, "polya") || !ref(a.nums, b.nums, "nums")) return false;
        later.push_back({ &a, &b });
        return true;
    }
    vector<pair<const GNode*, const GNode*>> later;
    // weak references last: held marks whether something that is not part of the document keeps the object alive
    bool weaks(bool held)
    {
        for(size_t k = 0; k < later.size(); k++) {
            auto& a = *later[k].first; auto& b = *later[k].second;
            auto one = [&](auto wa, auto wb, const char* w) {
                auto p = wa.lock(), q = wb.lock();
                if(!p) return !q || x.bad(string(w) + ": not expired");
                stored.insert(id(p.get()));
                if(!x.known(id(p.get()))) { weak_only.insert(id(p.get())); if(!held) return !q || x.bad(string(w) + ": nothing owns the object, but it is alive"); return true; }
                return ref(p, q, w, true);
            };
            if(!one(a.watch, b.watch, "watch") || !one(a.wpoly, b.wpoly, "wpoly")) return false;
            for(size_t i = 0; i < a.watches.size(); i++) if(!one(a.watches[i], b.watches[i], "watches")) return false;
        }
        return true;
    }
};
static void tally(const MV& m, map<uint64_t, uint64_t>& values, map<uint64_t, uint64_t>& refs)
{
    if(m.tp == Type::Object && !m.items.empty() && m.items[0].first == "srl_shared_key") {
        auto& k = m.items[0].second;
        uint64_t key = k.tp == Type::String ? strtoull(k.s.c_str(), nullptr, 10) : is_fp(k.tp) ? (uint64_t)k.d : mag(k);
        refs[key]++;
        for(size_t i = 1; i < m.items.size(); i++) if(m.items[i].first == "srl_shared_value") { values[key]++; tally(m.items[i].second, values, refs); }
        return;
    }
    for(auto& i : m.items) tally(i.second, values, refs);
}
static void sharing(Chooser& ch)
{
    steps_begin(300u << 20);
    auto base = tracked_live();
    {
        Graph g = gen_graph(ch);
        Env e;
        auto n = ch.range(1, 4);
        for(uint32_t k = 0; k < n; k++) {
            SpanScope sp(ch);
            // what is stored: some of the nodes, which have parts in common
            vector<shared_ptr<GNode>> roots; vector<shared_ptr<Base>> proots;
            for(uint32_t i = 0, m = ch.range(1, 4); i < m; i++) roots.push_back(any(ch, g.nodes, false));
            auto fmt = gen_format(ch); auto& p = *e.p[fmt];
            int way = ch.below(5);                 // 0 object, 1 packed items, 2 loaded, 3 inserted one by one, 4 one reference
            if(way == 4) roots.resize(1);
            auto w = gen_write_plan(ch);
            auto second = roots.size() > 1 ? roots[1] : roots[0];
            auto emit = [&](Tree& t, Srl::Parser& p, Srl::Lib::Out::Source o) {
                switch(way) {
                    case 0: t.store(roots, o, p); break;
                    case 1: t.pack(o, p, Srl::String("a"), roots[0], Srl::String("all"), roots, Srl::String("b"), second); break;
                    case 2: t.load_object(roots); t.to_source(o, p); break;
                    case 3: {
                        t = Tree(); t.root().insert("a", roots[0]); t.root().insert("all", roots); t.root().insert("b", second); t.to_source(o, p); break;
                    }
                    default: t.pack(o, p, Srl::String("one"), roots[0]); break;
                }
            };
            auto put = [&](Tree& t, Srl::Parser& p, const WritePlan& w, string& doc) {
                if(!w.stream) { vector<uint8_t> v; auto r = guarded([&] { emit(t, p, v); }); doc.assign(v.begin(), v.end()); return r; }
                SimFile f; OutStream os(f, w.area, w.pieces); os.write(w.prefix.data(), w.prefix.size());
                auto r = guarded([&] { emit(t, p, os); }); doc = f.content.substr(min(f.content.size(), w.prefix.size())); return r;
            };
            // an attempt may fail midway before
            if(ch.chance(1, 5)) {
                string junk; UF.at = 1 + ch.below(12); UF.seen = 0; auto r = put(*e.t, p, w, junk); UF = UserFaults();
                trace("storing fails midway: %s", verdict_name(r.v));
            } else if(ch.chance(1, 5)) {
                string junk; alloc_arm(1 + ch.below(60), ch.chance(1, 3)); auto r = put(*e.t, p, w, junk); if(auto c = alloc_disarm()) count("fault.alloc_fail", c);
                trace("storing fails midway: %s", verdict_name(r.v));
            }
            string doc, ref;
            auto r = put(*e.t, p, w, doc);
            trace("%s way %d, %zu roots to %s -> %s %s, %zu bytes", fmt_name(fmt), way, roots.size(), show(w).c_str(), verdict_name(r.v), r.msg.c_str(), doc.size());
            if(!r.ok()) fail("store-failed", "%s", r.msg.c_str());
            { Env f; WritePlan m; m.stream = false; put(*f.t, *f.p[fmt], m, ref); }
            R->evals++;
            if(doc != ref) fail("depends-on-earlier", "step %u: the document differs from the one of a fresh tree", k);
            // each object's content is there once, before it is referred to
            MV model; try { model = decode(fmt, doc); } catch(DecodeError& d) { fail("malformed", "%s", d.msg.c_str()); }
            map<uint64_t, uint64_t> values, refs; tally(model, values, refs);
            for(auto& v : refs) { R->evals++; if(values[v.first] != 1) fail("stored-not-once", "the content of shared object %llu is stored %llu times", (unsigned long long)v.first, (unsigned long long)values[v.first]); }
            // restoring
            auto m = ch.range(1, 2);
            for(uint32_t q = 0; q < m; q++) {
                auto rp = gen_read_plan(ch); bool via = ch.chance(1, 3);
                vector<shared_ptr<GNode>> all; shared_ptr<GNode> a, b;
                if(ch.chance(1, 6)) {          // a failing attempt
                    alloc_arm(1 + ch.below(100), false); vector<shared_ptr<GNode>> x;
                    with_source(doc, rp, [&](Srl::Lib::In::Source s) { if(way == 0 || way == 2) e.t->restore(x, s, p); else e.t->load_source(s, p); });
                    if(auto c = alloc_disarm()) count("fault.alloc_fail", c);
                }
                auto rr = with_source(doc, rp, [&](Srl::Lib::In::Source s) {
                    if(way == 0 || way == 2) { if(via) { e.t->load_source(s, p); e.t->root().paste(all); } else e.t->restore(all, s, p); }
                    else if(way == 4) {
                        const char* no = "one"; if(via) { e.t->load_source(s, p); a = e.t->root().node("one").unwrap<shared_ptr<GNode>>(); } else e.t->unpack(s, p, no, a);
                    } else {
                        if(via) { e.t->load_source(s, p); e.t->root().paste_field("a", a); e.t->root().paste_field("all", all); e.t->root().paste_field("b", b); }
                        else { const char* na = "a"; const char* nall = "all"; const char* nb = "b"; e.t->unpack(s, p, na, a, nall, all, nb, b); }
                    }
                });
                trace("restore from %s%s -> %s %s", show(rp).c_str(), via ? " by way of a tree" : "", verdict_name(rr.v), rr.msg.c_str());
                if(!rr.ok()) fail("restore-failed", "%s", rr.msg.c_str());
                Walk wk; bool ok = true;
                if(way == 4) ok = wk.ref(roots[0], a, "root");
                else { if(way == 1 || way == 3) ok = wk.ref(roots[0], a, "a"); ok = ok && wk.seq(roots, all, "all"); if(ok && (way == 1 || way == 3)) ok = wk.ref(second, b, "b"); }
                bool gone = ch.chance(1, 2);
                if(gone) e.t->clear();
                ok = ok && wk.weaks(!gone);
                R->evals++;
                if(!ok) fail("sharing-lost", "%s", wk.x.why.c_str());
                if(wk.stored.size() > refs.size()) fail("stored-not-once", "%zu shared objects, but only %zu in the document", wk.stored.size(), refs.size());
                if(gone) {
                    // only the restored references own the restored objects
                    auto uses = [&](auto& sp) { if(sp && sp.use_count() != wk.owners[Walk::id(sp.get())]) fail("ownership", "a restored object has %ld owners, but %ld references own it", sp.use_count(), wk.owners[Walk::id(sp.get())]); };
                    for(auto& lp : wk.later) { auto& x = *lp.second; uses(x.one); for(auto& y : x.kids) uses(y); uses(x.poly); uses(x.polya); uses(x.nums); for(auto& y : x.ints) uses(y); }
                }
                state(wk.stored.size() * 1000 + wk.owners.size() * 7 + wk.weak_only.size());
            }
            // the graph changes
            if(ch.chance(1, 2)) { auto x = any(g.nodes.empty() ? ch : ch, g.nodes, false); x->text = gen_text(ch, false, false); if(ch.chance(1, 2)) x->one = nullptr; }
        }
    }
    if(tracked_live() != base) fail("objects-left", "%lld objects more than at the start are alive", (long long)(tracked_live() - base));
    steps_end();
}
// as many objects as there are: numbers of them around powers of two, referred to in any order
static void many(Chooser& ch)
{
    static const uint32_t sizes[] = { 16, 128, 256, 1024, 4096, 65536 };
    static const uint32_t devs[] = { 0, 1, 2, 3, 40 };
    auto n = sizes[ch.pick({ 6, 10, 20, 6, 3, 1 })]; n = n + devs[ch.below(5)] - (ch.chance(1, 3) ? 2 : 0);
    steps_begin(8000ull << 20);
    vector<shared_ptr<int>> a, b, c; vector<weak_ptr<int>> w;
    uint64_t x = ch.below(0x7fffffff); auto rnd = [&](uint64_t m) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % m; };
    for(uint32_t i = 0; i < n; i++) a.push_back(make_shared<int>((int)rnd(50)));
    auto order = ch.below(4);        // of the later references: same, reverse, any, few
    for(uint32_t i = 0; i < (order == 3 ? 10 : n); i++) b.push_back(order == 0 ? a[i] : order == 1 ? a[n - 1 - i] : a[rnd(n)]);
    if(ch.chance(1, 2)) for(uint32_t i = 0; i < n; i += 1 + (uint32_t)rnd(5)) w.push_back(b[rnd(b.size())]);
    auto fmt = gen_format(ch); auto wp = gen_write_plan(ch); auto rp = gen_read_plan(ch); auto via = ch.chance(1, 3);
    Env e; auto& p = *e.p[fmt];
    trace("%u objects in %s, later references %u, %zu weak ones; %s; %s%s", n, fmt_name(fmt), order, w.size(), show(wp).c_str(), show(rp).c_str(), via ? " by way of a tree" : "");
    auto rounds = n < 2000 ? ch.range(1, 3) : 1;
    for(uint32_t k = 0; k < rounds; k++) {
        string doc;
        auto emit = [&](Srl::Lib::Out::Source o) { e.t->pack(o, p, Srl::String("a"), a, Srl::String("w"), w, Srl::String("b"), b); };
        Guard r;
        if(!wp.stream) { vector<uint8_t> v; r = guarded([&] { emit(v); }); doc.assign(v.begin(), v.end()); }
        else { SimFile f; OutStream os(f, wp.area, wp.pieces); os.write(wp.prefix.data(), wp.prefix.size()); r = guarded([&] { emit(os); }); doc = f.content.substr(min(f.content.size(), wp.prefix.size())); }
        if(!r.ok()) fail("store-failed", "%s", r.msg.c_str());
        vector<shared_ptr<int>> ga, gb; vector<weak_ptr<int>> gw;
        r = with_source(doc, rp, [&](Srl::Lib::In::Source s) {
            if(via) { e.t->load_source(s, p); auto& t = e.t->root(); t.paste_field("a", ga); t.paste_field("w", gw); t.paste_field("b", gb); }
            else { const char* na = "a"; const char* nw = "w"; const char* nb = "b"; e.t->unpack(s, p, na, ga, nw, gw, nb, gb); }
        });
        if(!r.ok()) fail("restore-failed", "%s", r.msg.c_str());
        HarnessScope hs;
        R->evals++;
        if(ga.size() != a.size() || gb.size() != b.size() || gw.size() != w.size()) fail("sharing-lost", "%zu of %zu, %zu of %zu, %zu of %zu references", ga.size(), a.size(), gb.size(), b.size(), gw.size(), w.size());
        unordered_map<const int*, const int*> to; unordered_set<const int*> used;
        for(uint32_t i = 0; i < n; i++) {
            if(!ga[i] || *ga[i] != *a[i]) fail("sharing-lost", "object %u of %u has another content", i, n);
            if(!used.insert(ga[i].get()).second) fail("sharing-lost", "object %u of %u is shared with an earlier one", i, n);
            to[a[i].get()] = ga[i].get();
        }
        for(size_t i = 0; i < b.size(); i++) if(gb[i].get() != to[b[i].get()]) fail("sharing-lost", "later reference %zu refers to another object", i);
        for(size_t i = 0; i < w.size(); i++) if(gw[i].lock().get() != to[w[i].lock().get()]) fail("sharing-lost", "weak reference %zu refers to another object", i);
        if(k + 1 < rounds) { a.push_back(make_shared<int>(7)); n++; b.push_back(a.back()); }
    }
    count("objects_shared", n);
    state(n * 8 + order);
    steps_end();
}
static Register r1("C12", "sharing", 100, sharing);
static Register r2("C12", "many", 4, many);
}
