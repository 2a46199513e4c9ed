// C03: a torn document is never mistaken for a whole one.
#include "cases.h"
namespace sim {
using namespace std;
static string replay_log(const vector<DevOp>& log, size_t n, size_t part)
{
    SimFile f;
    for(size_t i = 0; i < n; i++) if(log[i].k == DevOp::WRITE) f.put(log[i].pos, log[i].data.data(), log[i].data.size());
    if(n < log.size() && log[n].k == DevOp::WRITE && part) f.put(log[n].pos, log[n].data.data(), min(part, log[n].data.size()));
    return f.content;
}
static void judge_image(Chooser& ch, const Case& c, const string& img, const string& doc, const char* what)
{
    bool whole = img == doc;
    auto r = gen_read_plan(ch);
    int64_t cut = -1;
    if(r.stream && ch.chance(1, 5) && !img.empty()) { // the reading device fails as well
        r.in.error_at = cut = ch.below((uint32_t)img.size()); r.in.error_throws = ch.chance(1, 2); whole = false;
    }
    bool as_tree = ch.chance(1, 2);
    trace("%s: %zu of %zu bytes, read from %s as %s", what, img.size(), doc.size(), show(r).c_str(), as_tree ? "tree" : "object");
    Tree t; auto p = make_parser(c.fmt);
    R->evals++;
    if(as_tree) {
        auto g = with_source(img, r, [&](Srl::Lib::In::Source s) { t.load_source(s, *p); });
        trace("-> %s", verdict_name(g.v));
        if(whole && !g.ok()) fail("whole-refused", "the complete document was refused: %s", g.msg.c_str());
        if(!whole && g.ok()) fail("torn-accepted", "%s: %zu of %zu bytes were loaded as if complete: %s", what, cut >= 0 ? (size_t)cut : img.size(), doc.size(), show(dump(t.root())).c_str());
        return;
    }
    auto got = fresh_got(c);
    auto g = read_doc(c, got, t, *p, img, r, false);
    trace("-> %s", verdict_name(g.v));
    if(whole && !g.ok()) fail("whole-refused", "the complete document was refused: %s", g.msg.c_str());
    if(!g.ok()) { count("torn.refused"); return; }
    if(!whole) count("torn.restored-exactly");
    string why;
    if(!equal_case(c, got, why)) fail("torn-restored", "%s: %zu of %zu bytes restored without an error, but differ from what was stored: %s", what, img.size(), doc.size(), why.c_str());
}
static void crash_of(Chooser& ch, unique_ptr<Case> c)
{
    trace("case %s", show_case(*c).c_str());
    steps_begin(600u << 20);
    bool via = ch.chance(1, 3);
    string doc;
    { Tree t; auto p = make_parser(c->fmt); WritePlan w; w.stream = false; doc = store_doc(*c, t, *p, w, via); }
    SimFile file;
    size_t area = gen_put_area(ch); auto pieces = gen_pieces(ch);
    {
        OutStream os(file, area, pieces);
        Tree t; auto p = make_parser(c->fmt);
        auto g = store_case(*c, t, *p, os, via);
        if(!g.ok() || !os.good()) fail("store-failed", "storing to a healthy device failed: %s", g.msg.c_str());
    }
    if(file.content != doc) fail("store-incomplete", "the device holds %zu bytes that are not the %zu of the document", file.content.size(), doc.size());
    auto n = ch.range(1, 6);
    for(uint32_t k = 0; k < n; k++) {
        SpanScope sp(ch);
        steps_begin(600u << 20);
        size_t at = ch.below((uint32_t)file.log.size() + 1), part = 0;
        // often at the very end, where most of the document is there
        if(ch.chance(1, 3)) at = file.log.size() - min<size_t>(file.log.size(), ch.below(4));
        if(at < file.log.size() && file.log[at].k == DevOp::WRITE) part = ch.below((uint32_t)file.log[at].data.size() + 1);
        auto img = replay_log(file.log, at, part);
        count("fault.crash_points");
        if(ch.chance(1, 3) && !img.empty()) { img.resize(img.size() - 1 - ch.below((uint32_t)min<size_t>(img.size(), ch.chance(1, 2) ? 4 : 4096))); count("fault.truncated"); }
        judge_image(ch, *c, img, doc, "crash");
    }
    steps_end();
}
static void crash(Chooser& ch) { crash_of(ch, gen_case(ch)); }
static void crash_large(Chooser& ch) { crash_of(ch, gen_large_case(ch)); }
static Register r1("C03", "crash-points", 400, crash);
static Register r1l("C03", "crash-points-large", 2, crash_large);
static void broken_writer(Chooser& ch)
{
    auto c = gen_case(ch);
    trace("case %s", show_case(*c).c_str());
    steps_begin(400u << 20);
    bool via = ch.chance(1, 3);
    string doc;
    { Tree t; auto p = make_parser(c->fmt); WritePlan w; w.stream = false; doc = store_doc(*c, t, *p, w, via); }
    auto n = ch.range(1, 3);
    for(uint32_t k = 0; k < n; k++) {
        SpanScope sp(ch);
        SimFile file; OutFaults of;
        auto at = [&] { return (int64_t)ch.below((uint32_t)doc.size() + 1); };
        switch(ch.below(7)) {
            case 0: of.eio_at = at(); break;
            case 1: of.eio_at = at(); of.eio_sticky = true; break;
            case 2: of.full_at = at(); break;
            case 3: of.throw_at = at(); break;
            case 4: of.seek_fail = ch.range(1, 6); break;
            case 5: of.tell_fail = ch.range(1, 4); break;
            case 6: UF.at = ch.range(1, 12); break;
        }
        UF.seen = 0;
        size_t area = gen_put_area(ch); auto pieces = gen_pieces(ch);
        Guard g;
        {
            OutStream os(file, area, pieces, &of);
            if(ch.chance(1, 3)) os.exceptions(ios::badbit | ios::failbit);
            Tree t; auto p = make_parser(c->fmt);
            g = store_case(*c, t, *p, os, via);
            trace("store -> %s, stream %s", verdict_name(g.v), os.good() ? "good" : "bad");
            UF = UserFaults();
            if(ch.chance(1, 2)) { try { os.exceptions(ios::goodbit); os.clear(); HarnessScope hs; os.flush(); } catch(...) { } }   // the stream is closed later
        }
        judge_image(ch, *c, file.content, doc, "failed writer");
    }
    steps_end();
}
static Register r2("C03", "failed-writer", 240, broken_writer);
}
