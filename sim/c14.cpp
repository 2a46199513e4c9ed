// C14: what is on the device conforms to the published formats.
#include "cases.h"
namespace sim {
using namespace std;
static void check_doc(const string& doc, const MV& want, int fmt, bool exact_order, const char* what)
{
    MV got;
    try { got = decode(fmt, doc); } catch(DecodeError& e) { fail(string("malformed:") + fmt_name(fmt), "%s: an independent reader refuses the document: %s", what, e.msg.c_str()); }
    string why;
    if(!mv_equal(exact_order ? want : split(want), exact_order ? got : split(got), fmt, why)) fail(string("content:") + fmt_name(fmt), "%s: an independent reader reads something else: %s", what, why.c_str());
    R->evals++;
}
static void written_of(Chooser& ch, unique_ptr<Case> c)
{
    trace("case %s", show_case(*c).c_str());
    steps_begin(600u << 20);
    auto w = gen_write_plan(ch);
    bool via = ch.chance(1, 3);
    trace("write to %s%s", show(w).c_str(), via ? " by way of a tree" : "");
    Tree t; auto p = make_parser(c->fmt);
    auto doc = store_doc(*c, t, *p, w, via);
    trace_bytes("document", doc.data(), doc.size());
    auto want = model_case(*c, via);
    if(via && !c->pair && !c->f->is_scope()) for(auto& i : want.items) i.first = "";   // a lone value in a tree has no name
    check_doc(doc, want, c->fmt, true, "stored object");
    if(c->fmt == F_SRL) {
        auto canon = encode_psrl(want, nullptr);
        if(canon != doc) {
            size_t i = 0; while(i < doc.size() && i < canon.size() && doc[i] == canon[i]) i++;
            fail("psrl-bytes", "the document is not the one the format's layout gives: %zu and %zu bytes, first difference at %zu", doc.size(), canon.size(), i);
        }
    }
    if(c->fmt >= F_JSON) {
        // white space is written between tokens only, and none at all in a compact document
        bool quoted = false; string bare;
        for(size_t i = 0; i < doc.size(); i++) {
            char x = doc[i];
            if(quoted && x == '\\') bare += x, x = doc[++i];
            else if(x == '"') quoted = !quoted;
            else if(!quoted && (x == ' ' || x == '\t' || x == '\n' || x == '\r')) continue;
            bare += x;
        }
        if(c->fmt == F_JSON && bare.size() != doc.size()) fail("not-compact", "a compact document contains %zu bytes of white space", doc.size() - bare.size());
        if(c->fmt == F_JSONS) {
            Srl::PJson q(false); q.set_compact(true); Tree u;
            WritePlan m; m.stream = false;
            if(store_doc(*c, u, q, m, via) != bare) fail("spacing-changes-content", "without its white space an indented document differs from the compact one");
        }
        R->evals++;
    }
    steps_end();
    state(fnv(doc.data(), doc.size()));
}
static void written(Chooser& ch) { written_of(ch, gen_case(ch)); }
static void written_large(Chooser& ch) { written_of(ch, gen_large_case(ch)); }
static Register r1("C14", "written", 400, written);
static Register r1l("C14", "written-large", 4, written_large);
static void foreign_of(Chooser& ch, bool large)
{
    auto fmt = gen_format(ch);
    DocOpts o; o.binary = fmt < F_JSON; o.special_fp = fmt < F_JSON; o.dup_names = ch.chance(1, 6); o.empty_names = ch.chance(1, 6);
    if(fmt == F_SRL) o.empty_names = true;
    auto m = large ? gen_large_doc(ch, o) : gen_doc(ch, o);
    // bring some part to where a reader has to fetch more
    if(ch.chance(1, 8)) { MV w(Type::Object); w.items.push_back({ "x", MV::str(string(1024 * ch.range(1, 2) - ch.below(40), 'p')) }); w.items.push_back({ "y", m }); m = w; count("doc.pushed-to-edge"); }
    Chooser priv; if(large) priv.init_private(ch.u64());
    auto doc = encode(fmt, m, ch.chance(4, 5) ? large ? &priv : &ch : nullptr);
    if(fmt >= F_JSON && ch.chance(1, 6)) doc = align_json(ch, doc, true);
    trace("%s document %s", fmt_name(fmt), show(m).c_str());
    trace_bytes("document", doc.data(), doc.size());
    steps_begin((400u << 20) + 100ull * doc.size());
    auto r = gen_read_plan(ch);
    Tree t; auto p = make_parser(fmt);
    auto g = with_source(doc, r, [&](Srl::Lib::In::Source s) { t.load_source(s, *p); });
    if(!g.ok()) fail(string("foreign-refused:") + fmt_name(fmt), "a conforming document was refused: %s", g.msg.c_str());
    auto got = dump(t.root());
    string why;
    if(!mv_equal(split(m), got, fmt, why)) fail(string("foreign-content:") + fmt_name(fmt), "%s", why.c_str());
    R->evals++;
    // saved in some format, an independent reader still reads the same
    auto n = ch.range(0, 2);
    for(uint32_t k = 0; k < n; k++) {
        SpanScope sp(ch);
        auto f2 = gen_format(ch);
        if(f2 >= F_JSON && fmt < F_JSON) {
            // text has no special floating point numbers
            function<void(MV&)> fix = [&](MV& v) { for(auto& i : v.items) { fix(i.second); } };
            bool bad = false;
            function<void(const MV&)> look = [&](const MV& v) { if(is_fp(v.tp) && !(v.d - v.d == 0)) bad = true; if(is_fp(v.tp) && v.d == 0 && 1 / v.d < 0) bad = true; for(auto& i : v.items) look(i.second); };
            look(m); if(bad) continue;
        }
        auto w = gen_write_plan(ch); string d2; Guard g2;
        auto p2 = make_parser(f2);
        if(w.stream) {
            SimFile f; OutStream os(f, w.area, w.pieces); os.write(w.prefix.data(), w.prefix.size());
            g2 = guarded([&] { t.to_source(os, *p2); }); d2 = f.content.substr(min(f.content.size(), w.prefix.size()));
        } else { vector<uint8_t> v; g2 = guarded([&] { t.to_source(v, *p2); }); d2.assign(v.begin(), v.end()); }
        if(!g2.ok()) fail("save-failed", "saving a loaded document as %s failed: %s", fmt_name(f2), g2.msg.c_str());
        trace_bytes(fmt_name(f2), d2.data(), d2.size());
        // compare with what was loaded (the source format decides what was kept)
        check_doc(d2, got, f2, true, "resaved document");
        // the tree itself is untouched by being saved
        if(!mv_equal(got, dump(t.root()), -1, why)) fail("save-changed-tree", "%s", why.c_str());
    }
    steps_end();
    state(fnv(doc.data(), doc.size()));
}
static void foreign(Chooser& ch) { foreign_of(ch, false); }
static void foreign_large(Chooser& ch) { foreign_of(ch, true); }
static Register r2("C14", "foreign", 400, foreign);
static Register r2l("C14", "foreign-large", 20, foreign_large);
}
