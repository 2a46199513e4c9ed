// C13: restored objects are owned and destroyed exactly once.
#include "ops.h"
namespace sim {
using namespace std;
// Case with a user type holding something, so that there is something to own
static unique_ptr<Case> owning_case(Chooser& ch)
{
    unique_ptr<Case> c;
    for(int k = 0; k < 6; k++) {
        c = gen_case(ch, -1, ch.chance(1, 6));
        auto n = string(c->f->type_name()); auto all = n;
        for(auto& s : c->own) for(auto& f : s.f) all += string(" ") + f.type->name;
        if(all.find("shared") != string::npos || all.find('*') != string::npos || all.find("unique") != string::npos || all.find("Watched") != string::npos || all.find("Rec") != string::npos) break;
    }
    return c;
}
// the object the caller holds: default, or with values
static Got existing(Chooser& ch, Case& c, Gx& g)
{
    auto got = fresh_got(c);
    if(ch.chance(2, 3)) { SpanScope sp(ch); got.f->gen(g); got.extra = gen_text(ch, false); }
    return got;
}
static void ownership(Chooser& ch)
{
    steps_begin(300u << 20);
    auto base = tracked_live();
    {
        auto c = owning_case(ch);
        trace("%s", show_case(*c).c_str());
        Env e;
        auto plain = [&] { WritePlan w; w.stream = false; return w; };
        // documents of several objects of the type
        vector<string> doc; vector<unique_ptr<FieldBase>> obj; vector<string> extra;
        obj.emplace_back(); swap(obj[0], c->f); extra.push_back(c->extra);
        auto n = ch.range(1, 3);
        for(uint32_t i = 1; i < n; i++) { SpanScope sp(ch); obj.emplace_back(obj[0]->fresh()); c->use(); obj[i]->gen(c->g); extra.push_back(gen_text(ch, false)); }
        unique_ptr<FieldBase> blank;
        auto with = [&](size_t i, auto fn) { blank = move(c->f); c->f = move(obj[i]); c->extra = extra[i]; fn(); obj[i] = move(c->f); c->f = move(blank); };
        for(size_t i = 0; i < obj.size(); i++) with(i, [&] { doc.push_back(store_doc(*c, *e.t, *e.p[c->fmt], plain(), ch.chance(1, 4))); });
        c->use(); c->f.reset(obj[0]->fresh());
        Gx g2 { ch, c->fmt }; g2.big = false;                // shared objects in here are held by the caller, too
        bool keep = ch.chance(1, 2);
        auto before = tracked_live();
        auto got = existing(ch, *c, g2);
        auto m = ch.range(1, 6);
        for(uint32_t k = 0; k < m; k++) {
            SpanScope sp(ch);
            if(ch.chance(1, 3)) { got = Got(); g2.pool.clear(); e.t->clear(); /* a tree may share objects until it is cleared or used again */ if(tracked_live() != before) fail("objects-left", "%lld objects more than before are alive after the restored object is gone", (long long)(tracked_live() - before)); got = existing(ch, *c, g2); }
            auto i = ch.below((uint32_t)doc.size());
            auto d = doc[i]; bool valid = true;
            auto r = gen_read_plan(ch); bool via = ch.chance(1, 3);
            Fault f;
            switch(ch.below(6)) {
                case 0: break;
                case 1: valid = false; d = ch.chance(1, 5) ? hostile(ch, c->fmt) : damage(ch, d, doc[ch.below((uint32_t)doc.size())]); break;
                case 2: valid = false; d.resize(ch.below((uint32_t)d.size())); break;
                case 3: if(r.stream) { r.in.error_at = ch.below((uint32_t)d.size() + 1); r.in.error_throws = ch.chance(1, 2); f.k = Fault::IN; } break;
                case 4: f.k = Fault::USER; f.at = 1 + ch.below(ch.chance(1, 2) ? 8 : 60); break;
                default: f.k = Fault::ALLOC; f.at = 1 + ch.below(ch.chance(1, 2) ? 12 : 300); f.sticky = ch.chance(1, 4); break;
            }
            if(f.k == Fault::USER) { UF.at = f.at; UF.seen = 0; UF.fired = 0; }
            if(f.k == Fault::ALLOC) alloc_arm(f.at, f.sticky);
            auto o = read_doc(*c, got, *e.t, *e.p[c->fmt], d, r, via);
            uint64_t fired = 0;
            if(f.k == Fault::ALLOC) { fired = alloc_disarm(); if(fired) count("fault.alloc_fail", fired); }
            if(f.k == Fault::USER) { fired = UF.fired; UF = UserFaults(); }
            if(f.k == Fault::IN) fired = r.in.fired;
            trace("object %u%s%s %s%s -> %s %s%s", i, valid ? "" : " damaged", via ? " by way of a tree" : "", show(r).c_str(), f.k ? (" " + show(f)).c_str() : "", verdict_name(o.v), o.msg.c_str(), fired ? " (fault)" : "");
            R->evals++;
            if(!o.ok()) count("outcome.restore_failed");
            if(valid && !fired && !o.ok()) fail("healthy-refused", "restoring a healthy document failed: %s", o.msg.c_str());
            if(valid && o.ok()) with(i, [&] {
                string why;
                if(!equal_case(*c, got, why)) fail("wrong-object", "restored into %s: %s", k ? "a used object" : "an object", why.c_str());
            });
            // what the caller holds can be used: walk all of it
            if(!o.ok() || !valid) { Mx mx; c->use(); MV all(Type::Object); got.f->model(all, "x", mx); state(fnv(&mx, 0, mx.keys.size() + 31 * (uint64_t)o.v)); }
            if(keep && ch.chance(1, 5)) e.t->clear();
            // restored objects live on without the tree
            if(ch.chance(1, 8)) e = Env();
        }
        if(ch.chance(1, 2)) e = Env();
        got = Got(); g2.pool.clear();
        e.t->clear();
        if(tracked_live() != before) fail("objects-left", "%lld objects more than before are alive at the end", (long long)(tracked_live() - before));
        R->evals++;
    }
    if(tracked_live() != base) fail("objects-left", "%lld objects more than at the start are alive", (long long)(tracked_live() - base));
    steps_end();
}
static Register r1("C13", "ownership", 10, ownership);
}
