// C02: memory and streams are interchangeable.
#include "cases.h"
namespace sim {
using namespace std;
static void same_bytes_of(Chooser& ch, unique_ptr<Case> c)
{
    trace("case %s", show_case(*c).c_str());
    steps_begin(600u << 20);
    string doc[2]; bool have[2] = { false, false };
    Tree shared_tree; auto shared_parser = make_parser(c->fmt);
    auto n = ch.range(2, 5);
    for(uint32_t k = 0; k < n; k++) {
        SpanScope sp(ch);
        steps_begin(600u << 20);
        auto w = gen_write_plan(ch);
        if(k == 0) w = WritePlan(), w.stream = false;
        bool via = ch.chance(1, 3), reuse = ch.chance(1, 2);
        trace("write to %s%s%s", show(w).c_str(), via ? " by way of a tree" : "", reuse ? " with the used tree" : "");
        string d;
        if(reuse) d = store_doc(*c, shared_tree, *shared_parser, w, via);
        else { Tree t; auto p = make_parser(c->fmt); d = store_doc(*c, t, *p, w, via); }
        R->evals++;
        trace_bytes("document", d.data(), d.size());
        if(!have[via]) { doc[via] = d; have[via] = true; }
        else if(doc[via] != d) {
            size_t i = 0; while(i < d.size() && i < doc[via].size() && d[i] == doc[via][i]) i++;
            fail("bytes-differ", "the same object stored the same way gave other bytes: %zu and %zu bytes, first difference at %zu: %s vs %s", doc[via].size(), d.size(), i,
                hex(doc[via].data() + min(i, doc[via].size()), min<size_t>(24, doc[via].size() - min(i, doc[via].size()))).c_str(), hex(d.data() + i, min<size_t>(24, d.size() - i)).c_str());
        }
    }
    // both ways have the same content
    if(have[0] && have[1] && (c->pair || c->f->is_scope())) {
        try {
            auto a = decode(c->fmt, doc[0]), b = decode(c->fmt, doc[1]);
            string why;
            if(!mv_equal(split(a), split(b), c->fmt, why)) fail("content-differs", "direct and by way of a tree: %s", why.c_str());
        } catch(DecodeError& e) { fail("not-decodable", "%s", e.msg.c_str()); }
    }
    // the tree as loaded can be written again, and gives what it was loaded from
    if(ch.chance(1, 2)) {
        auto via = have[1] && ch.chance(1, 2); string& d = doc[via];
        if(have[via]) {
            auto r = gen_read_plan(ch);
            Tree t; auto p = make_parser(c->fmt);
            auto g = with_source(d, r, [&](Srl::Lib::In::Source s) { t.load_source(s, *p); });
            if(!g.ok()) fail("reload-failed", "loading a document just stored failed: %s", g.msg.c_str());
            auto first = dump(t.root());
            auto w = gen_write_plan(ch);
            vector<uint8_t> v; SimFile f; string d2;
            auto p2 = make_parser(c->fmt);
            if(w.stream) { OutStream os(f, w.area, w.pieces); g = guarded([&] { t.to_source(os, *p2); }); d2 = f.content; }
            else { g = guarded([&] { t.to_source(v, *p2); }); d2.assign(v.begin(), v.end()); }
            if(!g.ok()) fail("resave-failed", "%s", g.msg.c_str());
            vector<uint8_t> v2; auto p3 = make_parser(c->fmt);
            g = guarded([&] { v2 = t.to_source(*p3); });
            if(d2 != string(v2.begin(), v2.end())) fail("resave-differs", "to_source to a source and as a vector differ");
            Tree t2; ReadPlan r2; r2.stream = false; auto p4 = make_parser(c->fmt);
            g = with_source(d2, r2, [&](Srl::Lib::In::Source s) { t2.load_source(s, *p4); });
            if(!g.ok()) fail("reload-failed", "loading a resaved document failed: %s", g.msg.c_str());
            string why;
            if(!mv_equal(first, dump(t2.root()), -1, why) && c->fmt < F_JSON) fail("resave-content", "%s", why.c_str());
            if(c->fmt >= F_JSON && !mv_equal(first, dump(t2.root()), c->fmt, why)) fail("resave-content", "%s", why.c_str());
            R->evals++;
        }
    }
    steps_end();
    state(fnv(doc[0].data(), doc[0].size()));
}
static void same_bytes(Chooser& ch) { same_bytes_of(ch, gen_case(ch)); }
static void same_bytes_large(Chooser& ch) { same_bytes_of(ch, gen_large_case(ch)); }
static Register r1("C02", "same-bytes", 400, same_bytes);
static Register r1l("C02", "same-bytes-large", 2, same_bytes_large);

static void same_reading(Chooser& ch)
{
    auto fmt = gen_format(ch);
    string doc; unique_ptr<Case> c;
    auto kind = ch.pick({ 4, 4, 2, 1 });
    if(kind == 0 || kind == 1) {
        c = gen_case(ch, fmt);
        Tree t; auto p = make_parser(fmt); WritePlan w; w.stream = false;
        doc = store_doc(*c, t, *p, w, ch.chance(1, 3));
    } else if(kind == 2) doc = gen_document(ch, fmt, -1, true);
    else doc = hostile(ch, fmt);
    if(fmt >= F_JSON && kind < 3 && ch.chance(1, 4)) doc = align_json(ch, doc, true);
    if(kind == 3) { if(ch.chance(1, 2)) doc = damage(ch, doc, ""); }
    else if(ch.chance(3, 4)) doc = damage(ch, doc, ch.chance(1, 4) ? gen_document(ch, fmt) : doc);
    if(c) trace("case %s", show_case(*c).c_str());
    trace("%s document of %zu bytes", fmt_name(fmt), doc.size());
    trace_bytes("document", doc.data(), doc.size());
    if(doc.size() > (1u << 19)) return;
    bool tree = !c || ch.chance(1, 2);
    steps_begin(400u << 20);
    auto n = ch.range(1, 3);
    ReadPlan mem; mem.stream = false;
    auto rfmt = c ? c->fmt : fmt;
    Guard g0; MV m0; Got got0;
    for(uint32_t k = 0; k <= n; k++) {
        SpanScope sp(ch);
        auto r = k == 0 ? mem : gen_read_plan(ch);
        if(k) { r.stream = true; if(r.in.pieces.empty()) r.in.pieces = gen_pieces(ch); }
        trace("read from %s as %s", show(r).c_str(), tree ? "tree" : "object");
        Tree t; auto p = make_parser(rfmt); Guard g; MV m; Got got;
        if(tree) {
            g = with_source(doc, r, [&](Srl::Lib::In::Source s) { t.load_source(s, *p); });
            if(g.ok()) m = dump(t.root());
        } else {
            got = fresh_got(*c);
            g = read_doc(*c, got, t, *p, doc, r, false);
        }
        R->evals++;
        trace("-> %s", verdict_name(g.v));
        count(g.ok() ? "read.accepted" : "read.refused");
        if(k == 0) { g0 = g; m0 = m; got0 = move(got); continue; }
        if(g.ok() != g0.ok()) fail("verdict-differs", "memory: %s (%s), %s: %s (%s)", verdict_name(g0.v), g0.msg.c_str(), show(r).c_str(), verdict_name(g.v), g.msg.c_str());
        if(!g.ok()) continue;
        string why;
        if(tree) { if(!mv_equal(m0, m, -1, why)) fail("content-differs", "memory vs %s: %s", show(r).c_str(), why.c_str()); }
        else {
            Ex x;
            if(!got0.f->eq(*got.f, x)) fail("object-differs", "memory vs %s: %s", show(r).c_str(), x.why.c_str());
            if(got0.extra != got.extra) fail("object-differs", "memory vs %s: second item differs", show(r).c_str());
        }
    }
    steps_end();
}
static Register r2("C02", "same-reading", 400, same_reading);
}
