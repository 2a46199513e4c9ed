// C18: using a tree, format object or hash table again and again does not make it hold more and more memory.
#include "ops.h"
#include <Srl/Hash.hpp>
namespace sim {
using namespace std;
static const uint32_t CYCLES = 18, WATCHED = 7, LONGER = 600, MANY = 30000;
// memory held after each cycle: it may grow while buffers find their size, but not on and on
struct Held
{
    vector<uint64_t> v; uint32_t cycles = CYCLES, longer = 0;
    bool more(uint32_t c) { return c < max(cycles, longer); }
    void strictly(uint32_t n)
    {
        auto q = [&](size_t i) { return v[i * n / 5 - 1]; };
        for(size_t i = 2; i <= 5; i++) if(q(i) <= q(i - 1)) return;
        fail("memory-grows", "memory held after %u repetitions and four more times as many: %llu %llu %llu %llu %llu", n / 5, (unsigned long long)q(1), (unsigned long long)q(2), (unsigned long long)q(3), (unsigned long long)q(4), (unsigned long long)q(5));
    }
    void note()
    {
        v.push_back(A.live);
        R->evals++;
        if(cycles > CYCLES) {
            // little by little: what is taken in ever larger pieces shows only from far away
            if(v.size() == cycles) {
                strictly(cycles);
                if(v.back() > v[cycles * 3 / 10]) longer = MANY, count("watched-longer");
            }
            if(longer && v.size() == longer) strictly(longer);
            return;
        }
        if(v.size() == CYCLES) {
            for(size_t i = v.size() - WATCHED; i < v.size(); i++) if(v[i] <= v[i - 1]) return;
            // loads which fail a little later each time may also grow for a while: see whether it ends
            longer = LONGER; count("watched-longer");
        }
        if(v.size() <= CYCLES || v.size() % (LONGER / 10)) return;
        if(v.back() <= v[v.size() - LONGER / 10]) { longer = 0; return; }
        if(v.size() < LONGER) return;
        string s; for(size_t i = 0; i < v.size(); i += i < CYCLES ? 1 : LONGER / 10) s += " " + to_string(v[i]);
        fail("memory-grows", "memory held after the first %u, then every %u of %u repetitions:%s", CYCLES, LONGER / 10, LONGER, s.c_str());
    }
};
struct Step { Op op; Fault f; int kind; vector<pair<string, shared_ptr<Case>>> items; vector<uint32_t> drop; };
static void repeat(Chooser& ch)
{
    Env e;
    bool lengthy = ch.chance(1, 4); auto n = ch.range(1, lengthy ? 2 : 4); bool faults = ch.chance(1, 2);
    vector<Step> steps;
    for(uint32_t k = 0; k < n; k++) {
        SpanScope sp(ch);
        Step s; s.kind = ch.pick({ 12, 1, lengthy ? 0u : 3u });
        if(s.kind == 0) {
            s.op = gen_op(ch, !lengthy && ch.chance(1, 6));
            uint64_t na = 0;
            { steps_begin(300u << 20); Env f; run_op(s.op, *f.t, f.p, nullptr, &na); if(steps_end() > 6000) lengthy = false; }
            if(faults && ch.chance(1, 2)) s.f = gen_fault(ch, s.op, na);
            if(s.f.k == Fault::ALLOC && (s.f.sticky || s.f.every)) s.f.sticky = false, s.f.every = 0;
            trace("%s with %s", s.op.show().c_str(), show(s.f).c_str());
        } else if(s.kind == 2) {
            s.op.fmt = gen_format(ch); s.op.w = gen_write_plan(ch);
            auto m = ch.range(1, 4);
            for(uint32_t i = 0; i < m; i++) { shared_ptr<Case> c(gen_case(ch, s.op.fmt, ch.chance(1, 4)).release()); c->pair = false; if(c->f->packable()) s.items.push_back({ gen_name(ch) + to_string(i), c }); }
            for(uint32_t i = 0; i < s.items.size(); i++) if(ch.chance(1, 2)) s.drop.push_back(i);
            trace("clear, insert %zu, remove %zu, save as %s to %s", s.items.size(), s.drop.size(), fmt_name(s.op.fmt), show(s.op.w).c_str());
        } else trace("clear");
        steps.push_back(move(s));
    }
    Held h; if(lengthy) h.cycles = 1000;
    for(uint32_t c = 0; h.more(c); c++) {
        steps_begin(400u << 20);
        for(auto& s : steps) {
            if(s.kind == 0) { auto o = run_op(s.op, *e.t, e.p, s.f.k ? &s.f : nullptr); if(c == 0) trace("-> %s", o.key().c_str()); continue; }
            auto g = guarded([&] { e.t->clear(); });
            if(s.kind == 1) continue;
            for(auto& i : s.items) { i.second->use(); g = guarded([&] { i.second->f->insert(e.t->root(), i.first); }); }
            for(auto i : s.drop) { auto& name = s.items[i].first; g = guarded([&] { e.t->root().remove_node(name); e.t->root().remove_value(name); }); }
            if(s.op.w.stream) { SimFile f; OutStream os(f, s.op.w.area, s.op.w.pieces); os.write(s.op.w.prefix.data(), s.op.w.prefix.size()); g = guarded([&] { e.t->to_source(os, *e.p[s.op.fmt]); }); }
            else { vector<uint8_t> v; g = guarded([&] { e.t->to_source(v, *e.p[s.op.fmt]); }); }
        }
        h.note();
    }
    steps_end();
    trace("held %llu", (unsigned long long)h.v.back());
    count("repetitions", h.cycles);
}
static Register r1("C18", "repeat", 30, repeat);

// steps that fail in the middle of a scope, many times
struct Deep {
    uint32_t d; bool array;
    void srl_resolve(Srl::Context& c)
    {
        if(d == 0) throw UserError { 3 };
        int a = 1; c("a", a);
        Deep x { d - 1, array };
        if(array) { vector<Deep> v { x }; c("x", v); } else c("x", x);
    }
    Deep(uint32_t k = 0, bool a = false) : d(k), array(a) { }
};
static void failing(Chooser& ch)
{
    struct F { int fmt; string doc; int way; Deep o; };
    vector<F> fs; auto n = ch.range(1, 3);
    for(uint32_t k = 0; k < n; k++) {
        SpanScope sp(ch);
        F f; f.fmt = gen_format(ch); f.way = ch.below(4);
        uint32_t depth = ch.range(2, 20); f.o = Deep(ch.range(2, 20), ch.chance(1, 2));
        if(f.way < 3) {
            MV m(Type::Object); m.items.push_back({ "a", MV::num(Type::I8, 1) });
            for(uint32_t i = 0; i < depth; i++) { MV w(ch.chance(1, 3) ? Type::Array : Type::Object); bool o = w.tp == Type::Object; if(ch.chance(1, 3)) w.items.push_back({ o ? "a" : "", MV::num(Type::I16, (int)i) }); w.items.push_back({ o ? "x" : "", m }); m = w; }
            if(m.tp == Type::Array) { MV w(Type::Object); w.items.push_back({ "x", m }); m = w; }
            f.doc = encode(f.fmt, m, nullptr);
            if(ch.chance(3, 4)) f.doc.resize(ch.below((uint32_t)f.doc.size()));
            else { auto b = ch.below((uint32_t)f.doc.size()); f.doc[b] = (char)ch.below(256); }
        }
        trace("%s %s, nested %u", (const char*[]) { "load", "restore", "load and convert", "store" }[f.way], fmt_name(f.fmt), f.way < 3 ? depth : f.o.d);
        fs.push_back(f);
    }
    Env e; Held h; h.cycles = 1000;
    for(uint32_t c = 0; h.more(c); c++) {
        steps_begin(100u << 20);
        for(auto& f : fs) {
            auto& p = *e.p[f.fmt]; vector<uint8_t> v;
            auto g = guarded([&] {
                Srl::Lib::In::Source s((const uint8_t*)f.doc.data(), f.doc.size());
                switch(f.way) {
                    case 0: e.t->load_source(s, p); break;
                    case 1: { Deep x(30, f.o.array); e.t->restore(x, s, p); break; }
                    case 2: e.t->load_source(s, p); e.t->to_source(v, p); break;
                    default: e.t->store(f.o, v, p); break;
                }
            });
            if(c == 0) trace("-> %s", verdict_name(g.v));
        }
        h.note();
    }
    steps_end();
    count("repetitions", h.cycles);
}
static Register r4("C18", "failing", 8, failing);

// large values
static void repeat_large(Chooser& ch)
{
    struct L { int fmt; string doc; ReadPlan r; size_t grow; bool save; };
    vector<L> ls; auto n = ch.range(1, 2);
    for(uint32_t k = 0; k < n; k++) {
        SpanScope sp(ch);
        L l; l.fmt = gen_format(ch); l.r = gen_read_plan(ch); if(!l.r.in.pieces.empty()) l.r.in.pieces = { ch.range(1000, 50000) };
        auto m = ch.range(1, 4); string show;
        auto size = [&] { size_t base = (size_t)1 << (ch.chance(2, 3) ? ch.range(6, 12) : ch.range(13, l.fmt < F_JSON ? 18 : 14)); return base + ch.below((uint32_t)base) ; };
        Tree t; auto p = make_parser(l.fmt); vector<uint8_t> v;
        auto g = guarded([&] {
            for(uint32_t i = 0; i < m; i++) {
                HarnessScope hs; auto z = size(); string s(z, (char)('a' + i)); show += " " + to_string(z);
                in_harness--; t.root().insert("v" + to_string(i), s); in_harness++;
            }
            t.to_source(v, *p);
        });
        if(!g.ok()) fail("healthy-refused", "%s", g.msg.c_str());
        l.doc.assign(v.begin(), v.end()); l.grow = ch.chance(1, 2) ? size() : 0; l.save = ch.chance(1, 3);
        trace("load %s document with values of%s bytes, insert %zu%s", fmt_name(l.fmt), show.c_str(), l.grow, l.save ? ", save" : "");
        ls.push_back(l);
    }
    Tree t; unique_ptr<Srl::Parser> ps[4]; for(int f = 0; f < 4; f++) ps[f] = make_parser(f);
    Held h;
    for(uint32_t c = 0; h.more(c); c++) {
        SpanScope sp(ch);
        steps_begin(2000u << 20);
        for(auto& l : ls) {
            auto g = with_source(l.doc, l.r, [&](Srl::Lib::In::Source s) { t.load_source(s, *ps[l.fmt]); });
            string x(l.grow, 'z'); vector<uint8_t> v;
            if(g.ok()) g = guarded([&] { if(l.grow) t.root().insert("more", x); if(l.save) t.to_source(v, *ps[l.fmt]); });
            if(!g.ok()) fail("healthy-refused", "%s", g.msg.c_str());
        }
        h.note();
    }
    steps_end();
    count("repetitions", CYCLES);
}
static Register r3("C18", "repeat-large", 1, repeat_large);

// entries come and go, their number stays
struct SV : Tracked {
    string v;
    SV(const string& x) { user_point("value constructor"); HarnessScope h; v = x; }
    SV(const SV& o) : Tracked(o) { user_point("value copy"); HarnessScope h; v = o.v; }
    SV(SV&& o) : Tracked(o) { user_point("value move"); HarnessScope h; v = o.v; }
    ~SV() { HarnessScope h; string().swap(v); }
};
template<class V> static void table_of(Chooser& ch, const char* what)
{
    typedef Srl::Lib::HTable<string, V> T;
    unique_ptr<T> t;
    size_t b = ch.chance(1, 2) ? 64 : ch.range(1, 300); bool fresh_keys = ch.chance(1, 2); const uint32_t cycles = 400;
    guarded([&] { t.reset(new T(b)); });
    struct Act { uint32_t k, id, n; };
    vector<Act> acts;
    auto n = ch.range(1, 6);
    for(uint32_t i = 0; i < n; i++) { SpanScope sp(ch); acts.push_back({ ch.pick({ 8, 4, 4, 2, 2, 1, 1 }), ch.below(20), ch.range(1, ch.chance(1, 4) ? 20 : 4) }); }
    uint64_t fault = ch.chance(1, 2) ? ch.range(1, ch.chance(1, 2) ? 4 : 60) : 0;
    trace("table of %zu buckets with %s%s, user fault at %llu", b, what, fresh_keys ? ", other keys each time" : "", (unsigned long long)fault);
    for(auto& a : acts) trace("%s %u, %u", (const char*[]) { "insert", "upsert", "remove", "extract", "remove if", "clear", "move" }[a.k], a.id, a.n);
    string text(20, 'v');
    vector<uint64_t> held;
    steps_begin(2000u << 20);
    for(uint32_t c = 0; c < cycles; c++) {
        auto key = [&](uint32_t i) { HarnessScope hs; return "key " + to_string(i + (fresh_keys ? c * 1000 : 0)); };
        UF = UserFaults(); UF.at = fault;
        auto g = guarded([&] {
            for(auto& a : acts) for(uint32_t i = a.id; i < a.id + (a.k < 4 ? a.n : 1); i++) {
                auto k = key(i);
                switch(a.k) {
                    case 0: t->insert(k, text); break;
                    case 1: t->upsert(k, text); break;
                    case 2: t->remove(k); break;
                    case 3: t->extract(k); break;
                    case 4: t->remove_if([&](const string& x, V&) { user_point("predicate"); return x.back() == (char)('0' + a.n % 10); }); break;
                    case 5: if(c % 10 == 9) t->clear(); break;
                    default: if(c % 10 == 5) { T u(std::move(*t)); *t = std::move(u); }
                }
            }
        });
        UF = UserFaults();
        if(!g.ok() && !fault) fail("table-failed", "%s", g.msg.c_str());
        // what is left goes one by one
        g = guarded([&] {
            vector<string> left;
            t->foreach([&](const string& k, V&) { HarnessScope hs; left.push_back(k); });
            for(auto& k : left) t->remove(k);
            HarnessScope hs; vector<string>().swap(left);
        });
        if(!g.ok()) fail("table-failed", "%s", g.msg.c_str());
        if(t->num_entries()) fail("entries-left", "%zu entries are left after removing all of them", t->num_entries());
        if(c == cycles / 4 || c == cycles / 2 || c == cycles - 1) held.push_back(A.live);
    }
    R->evals++;
    if(held[0] < held[1] && held[1] < held[2]) fail("memory-grows", "memory held after %u, %u and %u repetitions: %llu, %llu and %llu", cycles / 4, cycles / 2, cycles, (unsigned long long)held[0], (unsigned long long)held[1], (unsigned long long)held[2]);
    guarded([&] { t.reset(); });
    steps_end();
    count("repetitions", cycles);
}
static void table(Chooser& ch) { if(ch.chance(1, 2)) table_of<string>(ch, "strings"); else table_of<SV>(ch, "values which may throw"); }
static Register r2("C18", "table", 8, table);
// known finding: the place of what is removed from a document is not used again before the document is cleared
static bool edits_grow()
{
    Tree t; uint64_t q[3] = { 0, 0, 0 };
    for(int i = 0; i < 30000; i++) {
        auto g = guarded([&] { t.root().insert("x", 1); t.root().remove_value("x"); });
        if(!g.ok()) return false;
        if(i % 10000 == 9999) q[i / 10000] = A.live;
    }
    return q[0] < q[1] && q[1] < q[2];
}
static RegisterFinding f1("C18", "edits", edits_grow, "editing one document without ever clearing it");
}
