#include "cases.h"
namespace sim {
using namespace std;

unique_ptr<Case> gen_case(Chooser& ch, int fmt, bool big, const char* type)
{
    if(fmt < 0) fmt = gen_format(ch);
    unique_ptr<Case> c(new Case(ch, fmt));
    c->use();
    c->g.big = big;
    c->pair = ch.chance(1, 3);
    c->f.reset(gen_root(c->g, !c->pair, type));
    if(!c->f->packable()) c->pair = false;
    if(!c->f->rootable()) c->pair = true;
    if(c->pair) {
        c->n1 = gen_name(ch); c->n2 = gen_name(ch, { c->n1 });
        while(c->n2 == c->n1) c->n2 += "_";
        c->extra = gen_text(ch, big);
    }
    return c;
}
unique_ptr<Case> gen_large_case(Chooser& ch, int fmt)
{
    if(fmt < 0) fmt = gen_format(ch);
    unique_ptr<Case> c(new Case(ch, fmt));
    c->use();
    static const vector<string> blobs { "string", "u16string", "u32string", "Raw", "Bytes", "Blob<f64>" },
        seqs { "vector<int>", "deque<i64>", "vector<string>", "list<double>", "map<string,int>", "HTable<int>", "HTable<string>", "set<string>", "vector<shared<string>>", "unordered_map<string,double>", "vector<unique<vector>>" };
    Chooser priv; priv.init_private(ch.u64());     // the content follows from one choice
    Gx g { priv, fmt };
    g.big = c->g.big = false;
    auto kind = ch.pick({ 4, 5, 2 });
    string type = kind == 0 ? ch.of(blobs) : kind == 1 ? ch.of(seqs) : ch.chance(1, 2) ? "Rec" : "unique<Rec>";
    if(kind == 2) g.large = ch.range(20, 61);
    else {
        static const vector<uint32_t> marks { 127, 255, 1023, 2047, 16383, 32767, 65535, 131071, 524287, 2097151 };
        g.large = marks[ch.below(kind == 1 ? 7 : fmt >= F_JSON ? 9 : marks.size())] + ch.below(5) - 2;
        if(kind == 1 && fmt == F_MSG && ch.chance(1, 2)) g.large = 65535 + ch.below(4);     // counts of 16 bits end here
        else if(ch.chance(1, 4)) g.large = ch.range(100, kind == 0 ? 300000 : 20000);
    }
    c->f.reset(make_field(type));
    if((!c->f->rootable() && !c->f->packable()) || ch.chance(1, 3)) {
        FieldSpec a, b; a.name = gen_name(ch); b.name = a.name + "2";
        for(int l = 0; l < 3; l++) for(auto& t : field_types(l)) { if(type == t.name) a.type = &t; if(!strcmp(t.name, "i32")) b.type = &t; }
        c->own[1].f = { a, b };
        c->f.reset(make_field("Dyn1"));
    }
    c->f->gen(g);
    c->pair = ch.chance(1, 3) && c->f->packable();
    if(!c->f->rootable()) c->pair = true;
    if(c->pair) { c->n1 = "a"; c->n2 = "b"; c->extra = gen_text(ch, false); }
    trace("large: %s of %u", type.c_str(), g.large);
    count(kind == 0 ? "large.blob" : kind == 1 ? "large.container" : "large.nested"); if(g.large > 65000) count("large.over-65000");
    return c;
}
Guard store_case(const Case& c, Tree& t, Srl::Parser& p, Srl::Lib::Out::Source o, bool via_tree)
{
    c.use();
    return guarded([&] {
        if(!c.pair) {
            if(!via_tree) c.f->root_store(t, p, o);
            else { c.f->root_load(t); t.to_source(o, p); }
        } else {
            if(!via_tree) c.f->pack2(t, p, o, c.n1, c.n2, c.extra);
            else {
                t.clear();
                if(t.root().type() != Type::Object) t = Tree();      // clearing keeps the type of the root
                in_harness++; auto a = c.n1, b = c.n2, e = c.extra; in_harness--;
                c.f->insert(t.root(), a);
                t.root().insert(b, e);
                in_harness++; for(auto* s : { &a, &b, &e }) for(auto& ch : *s) ch = '#'; in_harness--;   // caller's buffers change afterwards
                t.to_source(o, p);
            }
        }
    });
}
Got fresh_got(const Case& c) { c.use(); Got g; g.f.reset(c.f->fresh()); return g; }
Guard restore_case(const Case& c, Got& g, Tree& t, Srl::Parser& p, Srl::Lib::In::Source i, bool via_tree, bool by_value)
{
    c.use();
    return guarded([&] {
        if(!via_tree) {
            if(!c.pair && by_value && g.f->root_value(t, &p, &i)) ;
            else if(!c.pair) g.f->root_restore(t, p, i);
            else g.f->unpack2(t, p, i, c.n1, c.n2, g.extra);
        } else {
            t.load_source(i, p);
            if(!c.pair && by_value && g.f->root_value(t, nullptr, nullptr)) ;
            else if(!c.pair) g.f->root_paste(t);
            else { g.f->paste_field(t.root(), Srl::String(c.n1)); t.root().paste_field(Srl::String(c.n2), g.extra); }
        }
    });
}
bool equal_case(const Case& c, const Got& g, string& why)
{
    c.use();
    Ex x;
    if(!c.f->eq(*g.f, x)) { why = x.why; return false; }
    if(c.pair && c.extra != g.extra) { why = "second packed item: want " + show_text(c.extra) + " got " + show_text(g.extra); return false; }
    return true;
}
MV model_case(const Case& c, bool via_tree)
{
    c.use();
    Mx m; MV r;
    if(!c.pair) r = c.f->root_model(m);
    else {
        r = MV(Type::Object);
        c.f->model(r, c.n1, m);
        r.items.push_back({ c.n2, MV::str(c.extra) });
    }
    return via_tree ? split(r) : r;
}
string show_case(const Case& c)
{
    c.use();
    string s = string(fmt_name(c.fmt)) + " " + c.f->type_name();
    if(c.pair) s += " packed as " + show_text(c.n1) + " with " + show_text(c.n2) + "=" + show_text(c.extra);
    s += " schemas [" + show_schema(2) + "] [" + show_schema(1) + "] [" + show_schema(0) + "]";
    return s;
}
WritePlan gen_write_plan(Chooser& ch)
{
    WritePlan w;
    w.stream = ch.chance(5, 6);
    if(w.stream) {
        w.area = gen_put_area(ch); w.pieces = gen_pieces(ch);
        if(ch.chance(1, 2)) w.prefix = string(ch.chance(1, 2) ? ch.range(1, 40) : ch.range(1, 5000), '~');
        if(ch.chance(1, 4)) w.rest = string(ch.chance(1, 2) ? ch.range(1, 300) : ch.range(1, 9000), '^');
    }
    return w;
}
ReadPlan gen_read_plan(Chooser& ch)
{
    ReadPlan r;
    r.stream = ch.chance(4, 5);
    if(r.stream) r.in.pieces = gen_pieces(ch);
    r.value = ch.chance(1, 4);
    return r;
}
static string pcs(const vector<uint32_t>& v) { string s; for(auto x : v) s += (s.empty() ? "" : ",") + to_string(x); return s.empty() ? "all" : s; }
string show(const WritePlan& w) { return w.stream ? "stream(put area " + to_string(w.area) + ", pieces " + pcs(w.pieces) + ", starts at " + to_string(w.prefix.size()) + (w.rest.empty() ? "" : " over " + to_string(w.rest.size())) + ")" : "memory"; }
string show(const ReadPlan& r) { return string(r.stream ? "stream(pieces " + pcs(r.in.pieces) + (r.in.error_at >= 0 ? ", error at " + to_string(r.in.error_at) : "") + ")" : "memory") + (r.value ? " as value" : ""); }

string store_doc(const Case& c, Tree& t, Srl::Parser& p, const WritePlan& w, bool via_tree)
{
    if(!w.stream) {
        vector<uint8_t> v;
        auto g = store_case(c, t, p, v, via_tree);
        if(!g.ok()) fail("store-failed", "storing to memory failed without a fault: %s", g.msg.c_str());
        return string(v.begin(), v.end());
    }
    SimFile file;
    file.content = w.prefix + w.rest; file.pos = w.prefix.size();
    OutStream os(file, w.area, w.pieces);
    if(w.rest.empty()) { file.content.clear(); file.pos = 0; os.write(w.prefix.data(), w.prefix.size()); }
    auto g = store_case(c, t, p, os, via_tree);
    if(!g.ok()) fail("store-failed", "storing to a healthy device failed: %s", g.msg.c_str());
    if(!os.good()) fail("store-bad-stream", "a healthy stream is not good after storing");
    count("dev.writes", file.writes); count("dev.seeks", file.seeks);
    if(file.content.compare(0, w.prefix.size(), w.prefix) != 0 || file.content.size() < w.prefix.size()) fail("store-touched-outside", "bytes before the document's start were changed");
    if(w.rest.empty()) return file.content.substr(w.prefix.size());
    // the document ends where the stream is
    if(file.pos < w.prefix.size() || file.pos > file.content.size()) fail("position", "after storing the position is %llu of %zu, the document starts at %zu", (unsigned long long)file.pos, file.content.size(), w.prefix.size());
    auto doc = file.content.substr(w.prefix.size(), file.pos - w.prefix.size());
    auto left = doc.size() < w.rest.size() ? w.rest.substr(doc.size()) : "";
    if(file.content.compare(file.pos, string::npos, left) != 0) fail("store-touched-outside", "bytes behind the document's end were changed");
    count("dev.overwrites");
    return doc;
}
Guard read_doc(const Case& c, Got& g, Tree& t, Srl::Parser& p, const string& doc, ReadPlan& r, bool via_tree)
{
    if(r.stream) {
        InStream is(doc, &r.in);
        if(r.in.error_throws) is.exceptions(ios::badbit);
        auto res = restore_case(c, g, t, p, is, via_tree, r.value);
        count("dev.deliveries", is.sb.deliveries);
        return res;
    }
    unique_ptr<uint8_t[]> mem(new uint8_t[doc.size()]);
    memcpy(mem.get(), doc.data(), doc.size());
    return restore_case(c, g, t, p, Srl::Lib::In::Source(mem.get(), doc.size()), via_tree, r.value);
}
}
