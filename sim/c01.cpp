// C01: what is stored comes back equal.
#include "cases.h"
#include <sys/mman.h>
#include <map>
namespace sim {
using namespace std;
static void round_trip_of(Chooser& ch, unique_ptr<Case> c)
{
    trace("case %s", show_case(*c).c_str());
    auto w = gen_write_plan(ch);
    bool wt = ch.chance(1, 3);
    trace("write to %s%s", show(w).c_str(), wt ? " by way of a tree" : "");
    steps_begin(600u << 20);
    string doc;
    {
        Tree t; auto p = make_parser(c->fmt);
        doc = store_doc(*c, t, *p, w, wt);
    }
    trace_bytes("document", doc.data(), doc.size());
    auto reads = ch.range(1, 3);
    for(uint32_t k = 0; k < reads; k++) {
        SpanScope sp(ch);
        steps_begin(600u << 20);
        auto r = gen_read_plan(ch); bool rt = ch.chance(1, 3);
        trace("read from %s%s", show(r).c_str(), rt ? " by way of a tree" : "");
        Tree t; auto p = make_parser(c->fmt);
        auto got = fresh_got(*c);
        auto g = read_doc(*c, got, t, *p, doc, r, rt);
        R->evals++;
        if(!g.ok()) fail(string("restore-failed:") + verdict_name(g.v), "restoring a document of %zu bytes that was just stored failed: %s", doc.size(), g.msg.c_str());
        string why;
        if(!equal_case(*c, got, why)) fail("restored-differs", "%s", why.c_str());
    }
    steps_end();
    state(fnv(doc.data(), doc.size()));
}
static void round_trip(Chooser& ch) { round_trip_of(ch, gen_case(ch)); }
static void round_trip_large(Chooser& ch) { round_trip_of(ch, gen_large_case(ch)); }
static Register r1("C01", "round-trip", 400, round_trip);
static Register r1l("C01", "round-trip-large", 12, round_trip_large);
// many names, each used again after all of the others
struct Named { vector<const string*> names; vector<int> vals; void srl_resolve(Srl::Context& c) { for(size_t i = 0; i < names.size(); i++) c(names[i]->c_str(), vals[i]); } };
struct Names { Named part[3]; uint32_t parts = 2; void srl_resolve(Srl::Context& c) { c("first", part[0])("second", part[1]); if(parts > 2) c("third", part[2]); } };
static void names(Chooser& ch)
{
    static const uint32_t marks[] = { 120, 127, 255, 1023, 16383, 32767, 65535 };
    uint32_t n = marks[ch.pick({ 2, 4, 4, 3, 3, 1, 2 })] + ch.below(5);
    auto fmt = ch.chance(1, 2) ? (int)F_SRL : gen_format(ch); auto w = gen_write_plan(ch); auto r = gen_read_plan(ch); bool wt = ch.chance(1, 3), rt = ch.chance(1, 3) && n < 1100;
    uint64_t x = ch.below(0x7fffffff); auto rnd = [&](uint64_t m) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % m; };
    steps_begin(8000ull << 20);
    vector<string> all;
    for(uint32_t i = 0; i < n; i++) all.push_back("n" + to_string(i));
    Names v, got; v.parts = got.parts = ch.range(2, 3);
    auto sparse = ch.chance(1, 2);
    for(uint32_t k = 0; k < v.parts; k++) {
        for(auto& y : all) if(k == 0 || !sparse || rnd(4) == 0) { v.part[k].names.push_back(&y); v.part[k].vals.push_back((int)rnd(70000) - 300); }
        got.part[k].names = v.part[k].names; got.part[k].vals.resize(v.part[k].vals.size());
    }
    trace("%u names in %u objects, %s; %s%s; %s%s", n, v.parts, fmt_name(fmt), show(w).c_str(), wt ? " by way of a tree" : "", show(r).c_str(), rt ? " by way of a tree" : "");
    string doc; Guard g;
    {
        Tree t; auto p = make_parser(fmt);
        auto emit = [&](Srl::Lib::Out::Source o) { if(wt) { t.load_object(v); t.to_source(o, *p); } else t.store(v, o, *p); };
        if(!w.stream) { vector<uint8_t> b; g = guarded([&] { emit(b); }); doc.assign(b.begin(), b.end()); }
        else { SimFile f; OutStream os(f, w.area, w.pieces); os.write(w.prefix.data(), w.prefix.size()); g = guarded([&] { emit(os); }); doc = f.content.substr(min(f.content.size(), w.prefix.size())); }
    }
    if(!g.ok()) fail("store-failed", "%s", g.msg.c_str());
    Tree t; auto p = make_parser(fmt);
    g = with_source(doc, r, [&](Srl::Lib::In::Source s) { if(rt) { t.load_source(s, *p); t.root().paste(got); } else t.restore(got, s, *p); });
    R->evals++;
    if(!g.ok()) fail(string("restore-failed:") + verdict_name(g.v), "restoring a document of %zu bytes that was just stored failed: %s", doc.size(), g.msg.c_str());
    for(uint32_t k = 0; k < v.parts; k++) for(size_t i = 0; i < v.part[k].vals.size(); i++)
        if(v.part[k].vals[i] != got.part[k].vals[i]) fail("restored-differs", "part %u, %s: stored %d, restored %d", k, v.part[k].names[i]->c_str(), v.part[k].vals[i], got.part[k].vals[i]);
    steps_end();
    state(n * 4 + v.parts);
}
static Register r1n("C01", "names", 10, names);
// more than 32 bits can count. The data is a reservation of addresses, nothing of it is ever copied
struct Region
{
    uint8_t* p; size_t n;
    Region(size_t n_) : n(n_) { HarnessScope hs; auto m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); p = m == MAP_FAILED ? nullptr : (uint8_t*)m; }
    ~Region() { if(p) munmap(p, n); }
};
class CountBuf : public streambuf
{
public:
    uint64_t end = 0, pos = 0;
protected:
    int_type overflow(int_type c) override { if(traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c); char b = traits_type::to_char_type(c); xsputn(&b, 1); return c; }
    streamsize xsputn(const char*, streamsize n) override { pos += n; end = max(end, pos); return n; }
    int sync() override { return 0; }
    pos_type seekoff(off_type o, ios::seekdir d, ios::openmode) override { pos = d == ios::beg ? o : d == ios::cur ? pos + o : end + o; return pos_type(pos); }
    pos_type seekpos(pos_type p, ios::openmode) override { pos = (uint64_t)(off_type)p; return p; }
};
struct Huge { Srl::BitWrap w; int32_t t = 77; void srl_resolve(Srl::Context& c) { c("b", w)("t", t); } };
// the document around the data
static bool around(int fmt, uint64_t n, string& head, string& tail)
{
    const size_t small = 100000;
    MV m(Type::Object); m.items.push_back({ "b", MV::bin(string(small, '\xEE')) }); m.items.push_back({ "t", MV::num(Type::I32, 77) });
    auto d = encode(fmt, m, nullptr);
    auto at = d.find(string(small, '\xEE'));
    if(at == string::npos) return false;
    head = d.substr(0, at); tail = d.substr(at + small);
    if(fmt == F_MSG) { head.resize(head.size() - 4); for(int i = 3; i >= 0; i--) head += (char)(n >> (8 * i)); }
    else { head.resize(head.size() - 3); string v; do { v += (char)(n & 127); n >>= 7; } while(n); for(size_t i = 0; i < v.size(); i++) head += (char)(v[i] | (i + 1 < v.size() ? 0x80 : 0)); }
    return true;
}
static void huge(Chooser& ch)
{
    auto n = 0xFFFFFFFEull + ch.of(vector<uint32_t> { 0, 1, 2, 3, 7, 8, 40, 255, 70000 });
    int fmt = ch.below(2); bool fits = fmt != F_MSG || n <= 0xFFFFFFFFull;
    string head, tail;
    trace("%s: %llu bytes", fmt_name(fmt), (unsigned long long)n);
    if(!around(fmt, n, head, tail)) fail("harness", "unexpected small document");
    Region r(head.size() + n + tail.size()); if(!r.p) return;
    steps_begin(200u << 20);
    struct Refuse { Refuse() { A.refuse = 64u << 20; } ~Refuse() { A.refuse = ~0ull; } } refuse;
    {
        CountBuf b; ostream os(&b);
        Huge h { { r.p, n } };
        Tree t; auto p = make_parser(fmt);
        auto g = guarded([&] { t.store(h, os, *p); });
        R->evals++;
        trace("store -> %s", verdict_name(g.v));
        // there is no memory for it, but what is reported as stored has to be there
        if(g.ok() && os && (!fits || b.end != r.n)) fail("incomplete-document", "storing %llu bytes succeeded, but the document takes %llu bytes", (unsigned long long)n, (unsigned long long)b.end);
        if(!g.ok() && g.v != V_SRL && g.v != V_OOM) fail("strange-failure", "%s %s", verdict_name(g.v), g.msg.c_str());
    }
    if(fits) {
        memcpy(r.p, head.data(), head.size()); memcpy(r.p + head.size() + n, tail.data(), tail.size());
        uint64_t offered = 0; Huge h { { [&](size_t sz) -> uint8_t* { offered = sz; return nullptr; } } };
        Tree t; auto p = make_parser(fmt);
        auto g = guarded([&] { t.restore(h, r.p, r.n, *p); });
        R->evals++;
        trace("restore -> %s, %llu bytes", verdict_name(g.v), (unsigned long long)offered);
        // likewise when restoring: there is no place, but the size is right
        if(g.v != V_SRL && g.v != V_OOM) fail("strange-failure", "restoring into no memory: %s %s", verdict_name(g.v), g.msg.c_str());
        if(g.v == V_SRL && offered != n) fail("restored-differs", "%llu bytes are stored, %llu are offered", (unsigned long long)n, (unsigned long long)offered);
    }
    steps_end();
    count("large.beyond-32-bits", n > 0xFFFFFFFFull);
}
static Register r1h("C01", "huge", 1, huge);
// known finding: null pointers to scope types lose their place among the elements of a container
static bool null_elements_dropped()
{
    vector<unique_ptr<vector<int>>> a, b;
    a.emplace_back(); a.emplace_back(new vector<int> { 1 }); a.emplace_back();
    Tree t; auto p = make_parser(F_SRL); vector<uint8_t> v;
    auto g = guarded([&] { t.store(a, v, *p); t.restore(b, v, *p); });
    return g.ok() && b.size() == 1;
}
static RegisterFinding f1("C01", "null-elements", null_elements_dropped, "null pointers to scope types in containers");
}
