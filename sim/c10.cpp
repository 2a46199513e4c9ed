// C10: the hash table refines a finite map.
#include "ops.h"
#include <Srl/Hash.hpp>
namespace sim {
using namespace std;
static int hash_kind; static bool hash_throws;
struct TK : Tracked {
    uint32_t id; string pad;
    TK(uint32_t i) : id(i) { user_point("key constructor"); HarnessScope h; if(i % 3 == 0) pad = string(30, 'p'); }
    TK(const TK& o) : Tracked(o), id(o.id) { user_point("key copy"); HarnessScope h; pad = o.pad; }
    TK(TK&& o) : Tracked(o), id(o.id) { user_point("key move"); HarnessScope h; pad = o.pad; }
    bool operator==(const TK& o) const { user_point("key comparison"); if(!tracked_is(this) || !tracked_is(&o)) fail("dead-object-used", "a key that is not alive is compared"); return id == o.id; }
};
struct TKHash {
    uint64_t operator()(const TK& k) const
    {
        user_point("hash");
        if(!tracked_is(&k)) fail("dead-object-used", "a key that is not alive is hashed");
        switch(hash_kind) { case 0: return k.id; case 1: return k.id % 3; case 2: return 0; case 3: return (uint64_t)k.id << 32; case 4: return ~(uint64_t)k.id; default: return k.id * 0x9E3779B97F4A7C15ull; }
    }
};
struct TV : Tracked {
    uint64_t v; bool moved = false;
    TV(uint64_t x) : v(x) { user_point("value constructor"); }
    TV(const TV& o) : Tracked(o), v(o.v) { user_point("value copy"); }
    TV(TV&& o) : Tracked(o), v(o.v) { user_point("value move"); o.moved = true; }
};
struct NV : Tracked {                      // neither copied nor moved
    uint64_t v;
    NV(uint64_t x) : v(x) { user_point("value constructor"); }
    NV(const NV&) = delete; NV(NV&&) = delete;
};
struct alignas(64) AV { uint64_t v; AV(uint64_t x) : v(x) { if((uintptr_t)this % 64) fail("misaligned", "an over-aligned value is misaligned"); } };
static uint64_t val(const TV& v) { if(!tracked_is(&v)) fail("dead-object-used", "a value that is not alive is handed out"); if(v.moved) fail("entry-lost", "a value in the table was moved from"); return v.v; }
static uint64_t val(const NV& v) { if(!tracked_is(&v)) fail("dead-object-used", "a value that is not alive is handed out"); return v.v; }
static uint64_t val(const AV& v) { return v.v; }
static uint64_t val(const uint64_t& v) { return v; }
static uint64_t val(const string& v) { return strtoull(v.c_str(), nullptr, 10); }
static uint64_t val(const unique_ptr<uint64_t>& v) { if(!v) fail("entry-lost", "a value in the table was moved from"); return *v; }
static uint32_t key(const TK& k) { return k.id; }
static uint32_t key(const uint64_t& k) { return (uint32_t)k; }
static uint32_t key(const string& k) { return (uint32_t)strtoul(k.c_str() + 3, nullptr, 10); }
template<class K> static K mk(uint32_t i);
template<> TK mk<TK>(uint32_t i) { return TK(i); }
template<> uint64_t mk<uint64_t>(uint32_t i) { return i; }
template<> string mk<string>(uint32_t i) { return string("key") + to_string(i) + (i % 2 ? string(40, '.') : ""); }

struct Entry { uint64_t v; const void* at; };
typedef map<uint32_t, Entry> Model;
template<class K, class V, class H> struct Run {
    typedef Srl::Lib::HTable<K, V, H> T;
    Chooser& ch; unique_ptr<T> t; Model m; uint64_t next = 1;
    Run(Chooser& c) : ch(c) { }
    unique_ptr<T> fresh()
    {
        unique_ptr<T> n;
        static const double lf[] = { 1.0, 0.5, 4.0, 0.0, 100.0, 0.1 };
        size_t b = ch.chance(1, 2) ? 64 : ch.chance(1, 2) ? ch.below(4) : ch.range(1, 600);
        double l = lf[ch.pick({ 6, 1, 1, 1, 1, 1 })];
        auto g = guarded([&] { n.reset(ch.chance(1, 3) ? new T() : new T(b, l)); });
        if(!g.ok()) fail("construct-failed", "%s", g.msg.c_str());
        return n;
    }
    static Guard clean(function<void()> f) { return guarded(f); }
    void verify(const char* after, bool all)
    {
        R->evals++;
        if(t->num_entries() != m.size()) fail("wrong-count", "after %s the table counts %zu entries instead of %zu", after, t->num_entries(), m.size());
        if(!all) return;
        uint32_t way = ch.below(3);
        map<uint32_t, int> seen;
        auto look = [&](const K& k, const V& v) {
            HarnessScope hs;
            auto i = m.find(key(k));
            if(i == m.end()) fail("ghost-entry", "after %s iterating visits key %u, which is not there", after, key(k));
            if(seen[key(k)]++) fail("visited-twice", "after %s iterating visits key %u twice", after, key(k));
            if(val(v) != i->second.v) fail("wrong-value", "after %s key %u has value %llu instead of %llu", after, key(k), (unsigned long long)val(v), (unsigned long long)i->second.v);
            if(&v != i->second.at) fail("moved-entry", "after %s the value of key %u is at another address", after, key(k));
        };
        auto g = clean([&] {
            if(way == 0) t->foreach([&](const K& k, V& v) { look(k, v); });
            else if(way == 1) for(auto it = t->begin(); it != t->end(); ++it) { auto p = *it; look(p.first, p.second); }
            else { size_t stop = ch.chance(1, 2) ? m.size() + 1 : ch.below((uint32_t)m.size() + 1), n = 0; t->foreach_break([&](const K& k, V& v) { look(k, v); return ++n >= stop; }); if(stop <= m.size() && n != max<size_t>(1, stop) && !m.empty()) fail("break-ignored", "iterating visited %zu instead of %zu entries", n, stop); if(stop <= m.size()) { way = 9; } }
        });
        if(!g.ok()) fail("iterate-failed", "%s", g.msg.c_str());
        if(way != 9 && seen.size() != m.size()) fail("entry-missed", "after %s iterating visits %zu of %zu entries", after, seen.size(), m.size());
        for(auto& e : m) check(e.first, after);
    }
    void check(uint32_t k, const char* after)
    {
        V* v = nullptr; in_harness++; { K kk = mk<K>(k); in_harness--; auto g = clean([&] { v = t->get(kk); }); in_harness++; if(!g.ok()) { in_harness--; fail("get-failed", "%s", g.msg.c_str()); } } in_harness--;
        auto i = m.find(k);
        R->evals++;
        if(i == m.end()) { if(v) fail("ghost-entry", "after %s key %u is found, but is not there", after, k); return; }
        if(!v) fail("entry-lost", "after %s key %u is not found", after, k);
        if(val(*v) != i->second.v) fail("wrong-value", "after %s key %u has value %llu instead of %llu", after, k, (unsigned long long)val(*v), (unsigned long long)i->second.v);
        if(v != i->second.at) fail("moved-entry", "after %s the value of key %u is at another address", after, k);
    }
    template<class Q> pair<bool, V*> put(bool up, Q&& k, uint64_t x)
    {
        if constexpr(is_same_v<V, string>) { in_harness++; string s = to_string(x) + (x % 2 ? string(40, ' ') : ""); in_harness--; return up ? t->upsert(forward<Q>(k), s) : t->insert(forward<Q>(k), s); }
        else if constexpr(is_same_v<V, unique_ptr<uint64_t>>) { in_harness++; unique_ptr<uint64_t> p(new uint64_t(x)); in_harness--; return up ? t->upsert(forward<Q>(k), move(p)) : t->insert(forward<Q>(k), move(p)); }
        else if constexpr(is_same_v<V, TV>) { if(ch.chance(1, 3)) { in_harness++; TV tmp(x); in_harness--; return up ? t->upsert(forward<Q>(k), tmp) : t->insert(forward<Q>(k), tmp); } return up ? t->upsert(forward<Q>(k), x) : t->insert(forward<Q>(k), x); }
        else return up ? t->upsert(forward<Q>(k), x) : t->insert(forward<Q>(k), x);
    }
    void run()
    {
        auto live0 = tracked_live();
        t = fresh();
        uint32_t space = ch.chance(1, 3) ? 6 : ch.chance(1, 2) ? 40 : 4000;
        auto n = ch.range(3, ch.chance(1, 5) ? 600 : 40);
        bool faults = ch.chance(2, 3);
        for(uint32_t s = 0; s < n; s++) {
            SpanScope sp(ch);
            auto k = ch.below(space); bool armed = false, user = false;
            auto arm = [&] {
                if(!faults || !ch.chance(1, 5)) return;
                armed = true; user = ch.chance(1, 2);
                if(user) { UF.at = 1 + ch.below(6); UF.seen = UF.fired = 0; } else alloc_arm(1 + ch.below(3), ch.chance(1, 3));
            };
            uint64_t fired = 0;
            auto disarm = [&] { fired = 0; if(!armed) return; if(user) { fired = UF.fired; UF = UserFaults(); } else { fired = alloc_disarm(); if(fired) count("fault.alloc_fail", fired); } };
            auto threw = [&](const Guard& g, const char* what) { if(!g.ok() && !fired) fail("failed-without-fault", "%s: %s", what, g.msg.c_str()); return !g.ok(); };
            uint32_t op = ch.pick({ 8, 4, 4, 4, 2, 2, 2, 1, 1, 2 });
            const char* what = "";
            switch(op) {
                case 0: case 1: {                 // insert, upsert
                    bool up = op == 1; what = up ? "upsert" : "insert";
                    auto x = next++; pair<bool, V*> r;
                    in_harness++; K kk = mk<K>(k); in_harness--;
                    bool lv = ch.chance(1, 2);
                    arm(); auto g = guarded([&] { r = lv ? put(up, (const K&)kk, x) : put(up, move(kk), x); }); disarm();
                    trace("%s %u=%llu -> %s", what, k, (unsigned long long)x, verdict_name(g.v));
                    bool had = m.count(k);
                    if(!threw(g, what)) {
                        if(r.first != had) fail("wrong-answer", "%s of key %u says %d", what, k, r.first);
                        if(!r.second) fail("wrong-answer", "%s of key %u returns no entry", what, k);
                        if(!had) m[k] = { x, r.second };
                        else { if(up) { m[k].v = x; if(!is_nothrow_move_constructible_v<V>) m[k].at = r.second; } if(r.second != m[k].at) fail("moved-entry", "%s of key %u returns another entry", what, k); }
                    }
                    check(k, what);
                    break;
                }
                case 2: what = "get"; check(k, what); break;
                case 3: {                         // remove
                    what = "remove"; in_harness++; K kk = mk<K>(k); in_harness--;
                    arm(); auto g = guarded([&] { t->remove(kk); }); disarm();
                    trace("remove %u -> %s", k, verdict_name(g.v));
                    if(!threw(g, what)) m.erase(k);
                    check(k, what);
                    break;
                }
                case 4: {                         // extract
                    if constexpr(is_move_constructible_v<V>) {
                        what = "extract"; in_harness++; K kk = mk<K>(k); in_harness--;
                        optional<uint64_t> got; arm(); auto g = guarded([&] { auto r = t->extract(kk); if(r) { HarnessScope h; got = val(*r); } }); disarm();
                        trace("extract %u -> %s", k, verdict_name(g.v));
                        bool had = m.count(k);
                        if(!threw(g, what)) {
                            if(got.has_value() != had) fail("wrong-answer", "extract of key %u gives %s", k, got ? "something" : "nothing");
                            if(had && *got != m[k].v) fail("wrong-value", "extract of key %u gives %llu instead of %llu", k, (unsigned long long)*got, (unsigned long long)m[k].v);
                            m.erase(k);
                        }
                        check(k, what);
                    }
                    break;
                }
                case 5: {                         // remove_if
                    what = "remove_if"; uint32_t mod = ch.range(1, 5), rem = ch.below(mod); vector<uint32_t> gone; map<uint32_t, int> asked;
                    arm(); auto g = guarded([&] { t->remove_if([&](const K& kk, V& v) { user_point("predicate"); HarnessScope h; (void)val(v); if(asked[key(kk)]++) fail("visited-twice", "remove_if asks twice about key %u", key(kk)); bool r = key(kk) % mod == rem; if(r) gone.push_back(key(kk)); return r; }); }); disarm();
                    trace("remove_if %%%u==%u -> %s, %zu gone", mod, rem, verdict_name(g.v), gone.size());
                    if(!threw(g, what)) { if(asked.size() != m.size()) fail("entry-missed", "remove_if asked about %zu of %zu entries", asked.size(), m.size()); }
                    for(auto q : gone) { if(!m.count(q)) fail("ghost-entry", "remove_if visits key %u", q); m.erase(q); }
                    verify(what, true);
                    break;
                }
                case 6: {
                    what = "clear"; if(!ch.chance(1, 2)) break;
                    arm(); auto g = guarded([&] { t->clear(); }); disarm();
                    trace("clear -> %s", verdict_name(g.v)); threw(g, what);
                    m.clear(); verify(what, true);
                    break;
                }
                case 7: {                         // moves
                    what = "move"; bool assign = ch.chance(1, 2); unique_ptr<T> to;
                    if(assign) { Model keep; swap(keep, m); auto from = move(t); t = fresh(); for(uint32_t q = 0, c = ch.below(6); q < c; q++) { in_harness++; K kk = mk<K>(q); in_harness--; guarded([&] { put(false, kk, 7); }); } to = move(t); t = move(from); swap(keep, m); }
                    arm(); auto g = guarded([&] { if(assign) *to = move(*t); else to.reset(new T(move(*t))); }); disarm();
                    trace("move %s -> %s", assign ? "assign" : "construct", verdict_name(g.v));
                    if(threw(g, what)) { verify(what, true); break; }
                    auto from = move(t); t = move(to);
                    verify(what, true);
                    // the one moved from is empty and usable
                    if(ch.chance(1, 2)) {
                        Model keep; swap(keep, m); swap(from, t);
                        verify("having been moved from", true);
                        for(uint32_t q = 0, c = ch.below(20); q < c; q++) { in_harness++; K kk = mk<K>(q); in_harness--; pair<bool, V*> r; auto g2 = guarded([&] { r = put(false, kk, q); }); if(!g2.ok() || r.first) fail("moved-from", "insert into a table moved from: %s", g2.msg.c_str()); m[q] = { q, r.second }; }
                        verify("use after having been moved from", true);
                        swap(from, t); swap(keep, m);
                        if(ch.chance(1, 2)) from.reset();
                        verify(what, true);
                    }
                    break;
                }
                case 8: {                         // many at once, so that it grows
                    what = "growth"; auto c = ch.range(10, 700);
                    for(uint32_t q = 0; q < c; q++) { auto kk = k + q; auto x = next++; in_harness++; K kx = mk<K>(kk); in_harness--; pair<bool, V*> r; auto g = guarded([&] { r = put(false, kx, x); }); if(!g.ok()) fail("failed-without-fault", "insert: %s", g.msg.c_str()); if(r.first != (bool)m.count(kk)) fail("wrong-answer", "insert of key %u says %d", kk, r.first); if(!r.first) m[kk] = { x, r.second }; }
                    trace("%u more keys from %u", c, k);
                    verify(what, true);
                    break;
                }
                default: what = "iterating"; verify(what, true);
            }
            verify(what, ch.chance(1, 8));
            state(m.size() * 31 + op);
        }
        verify("everything", true);
        if(ch.chance(1, 2)) { t->clear(); m.clear(); verify("clear", true); }
        t.reset();
        if(tracked_live() != live0) fail("objects-left", "%lld keys and values are left when the table is gone", (long long)(tracked_live() - live0));
    }
};
static void table(Chooser& ch)
{
    steps_begin(300u << 20);
    hash_kind = ch.below(6);
    switch(ch.pick({ 6, 3, 2, 2, 2, 1, 1 })) {
        case 0: Run<TK, TV, TKHash>(ch).run(); break;
        case 1: Run<TK, NV, TKHash>(ch).run(); break;
        case 2: Run<string, string, Srl::Lib::HashSrl<string>>(ch).run(); break;
        case 3: Run<uint64_t, uint64_t, Srl::Lib::HashSrl<uint64_t>>(ch).run(); break;
        case 4: Run<string, unique_ptr<uint64_t>, Srl::Lib::HashSrl<string>>(ch).run(); break;
        case 5: Run<uint64_t, AV, Srl::Lib::HashSrl<uint64_t>>(ch).run(); break;
        default: Run<uint64_t, TV, Srl::Lib::HashSrl<uint64_t>>(ch).run(); break;
    }
    steps_end();
}
// as large as tables get here: more entries and buckets than 16 bits count
template<class K, class H> static void big_of(Chooser& ch)
{
    typedef Srl::Lib::HTable<K, uint64_t, H> T;
    static const uint32_t marks[] = { 1000, 4096, 16384, 32768, 65536, 100000 };
    uint32_t n = marks[ch.pick({ 3, 3, 3, 2, 4, 1 })] + ch.below(7);
    static const uint32_t bs[] = { 64, 1, 1000, 65535, 65536, 65537, 100000, 300000 };
    static const double lf[] = { 1.0, 0.5, 2.0 };
    auto b = bs[ch.below(8)]; auto l = lf[ch.pick({ 4, 1, 1 })];
    uint64_t x = ch.below(0x7fffffff); auto rnd = [&](uint64_t m) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % m; };
    auto stride = ch.chance(1, 2) ? 1u : ch.chance(1, 2) ? 2u : 65536u / 4;
    trace("%u entries, %u buckets, load factor %g, keys %u apart", n, b, l, stride);
    T t(b, l); vector<uint64_t> want(n, 0); vector<uint64_t*> at(n, nullptr); size_t live = 0;
    auto mkk = [&](uint32_t i) { HarnessScope h; return mk<K>(i * stride); };
    auto verify = [&](const char* after) {
        R->evals++;
        if(t.num_entries() != live) fail("wrong-count", "after %s the table counts %zu entries instead of %zu", after, t.num_entries(), live);
        vector<uint8_t> met(n, 0); size_t visits = 0; auto it = ch.chance(1, 2);
        auto look = [&](const K& k, uint64_t& v) {
            auto i = key(k) / stride; visits++;
            if(i >= n || !want[i]) fail("ghost", "after %s iterating visits key %u, which is not in the table", after, i);
            if(met[i]++) fail("visited-twice", "after %s iterating visits key %u twice", after, i);
            if(v != want[i]) fail("wrong-value", "after %s key %u has value %llu instead of %llu", after, i, (unsigned long long)v, (unsigned long long)want[i]);
            if(&v != at[i]) fail("moved-entry", "after %s the value of key %u is elsewhere", after, i);
        };
        if(it) for(auto e = t.begin(); e != t.end(); ++e) { auto p = *e; look(p.first, p.second); }
        else t.foreach([&](const K& k, uint64_t& v) { look(k, v); });
        if(visits != live) fail("entry-missed", "after %s iterating visits %zu of %zu entries", after, visits, live);
        for(uint32_t q = 0; q < 2000 + n / 4; q++) {
            auto i = q < 2000 ? n - 1 - q % n : (uint32_t)rnd(n); auto* v = t.get(mkk(i));
            if(!v != !want[i]) fail("wrong-answer", "after %s key %u is %s", after, i, v ? "found, but was removed" : "lost");
            if(v && (*v != want[i] || v != at[i])) fail("wrong-value", "after %s key %u has another value or place", after, i);
        }
    };
    auto fill = [&] {
        for(uint32_t i = 0; i < n; i++) {
            auto r = t.insert(mkk(i), (uint64_t)i + 1);
            if(r.first != (want[i] != 0)) fail("wrong-answer", "insert of key %u says it was %s", i, r.first ? "there" : "new");
            if(!want[i]) { want[i] = (uint64_t)i + 1; at[i] = r.second; live++; }
            else if(r.second != at[i]) fail("moved-entry", "insert of key %u gives another place", i);
        }
    };
    fill(); verify("inserting");
    for(uint32_t k = 0, rounds = ch.range(1, 3); k < rounds; k++) switch(ch.below(5)) {
        case 0: for(uint32_t i = 0; i < n; i++) if(rnd(2)) { t.remove(mkk(i)); if(want[i]) { want[i] = 0; live--; } } verify("removing"); break;
        case 1: { auto m = 2 + rnd(3); t.remove_if([&](const K& k, uint64_t&) { return (key(k) / stride) % m == 0; }); for(uint32_t i = 0; i < n; i++) if(i % m == 0 && want[i]) { want[i] = 0; live--; } verify("remove_if"); break; }
        case 2: t.clear(); fill_n(want.begin(), n, 0); live = 0; verify("clear"); break;
        case 3: for(uint32_t i = 0; i < n; i++) if(rnd(3) == 0) { auto v = t.extract(mkk(i)); if(v.has_value() != (want[i] != 0) || (v && *v != want[i])) fail("wrong-answer", "extracting key %u", i); if(want[i]) { want[i] = 0; live--; } } verify("extracting"); break;
        default: fill(); verify("inserting again"); break;
    }
    state(n * 64ull + b % 61);
}
static void big(Chooser& ch)
{
    steps_begin(8000ull << 20);
    if(ch.chance(1, 2)) big_of<uint64_t, Srl::Lib::HashSrl<uint64_t>>(ch); else big_of<string, Srl::Lib::HashSrl<string>>(ch);
    steps_end();
}
static Register r2("C10", "big", 4, big);
static Register r1("C10", "table", 400, table);
}
