// C15: piped producer and consumer always finish.
#include "ops.h"
namespace sim {
using namespace std;
//---------------------------------------------------------------- a pipe of limited capacity between two scheduled threads
struct Pipe {
    string q; size_t cap = 1; bool wclosed = false, rclosed = false;
    string all;                                    // everything accepted
    uint64_t read = 0, waits = 0, after_eof = 0;
    void close_w() { if(!wclosed) { wclosed = true; trace("writing end closed after %zu", all.size()); } }
    void close_r() { if(!rclosed) { rclosed = true; trace("reading end closed after %llu", (unsigned long long)read); } }
};
static bool can_write(void* p) { auto& x = *(Pipe*)p; return x.rclosed || x.q.size() < x.cap; }
static bool can_read(void* p)  { auto& x = *(Pipe*)p; return x.wclosed || !x.q.empty(); }
struct EndPlan {                                   // of one end
    vector<uint32_t> pieces, delays;               // sizes of single transfers, ticks before them; cycled
    int64_t stop_at = -1;                          // after so many bytes ...
    enum K { NONE, CLOSE, THROW, ERROR } stop = NONE;   // ... the end is closed (by another thread or a signal), throws or reports an error
    size_t area = 0; bool exceptions = false;
    uint64_t at = 0, turn = 0; int fired = 0;
    size_t piece(size_t n) { if(!pieces.empty()) n = min<size_t>(n, max<uint32_t>(1, pieces[turn % pieces.size()])); return n; }
    void wait() { if(!delays.empty()) { auto d = delays[turn % delays.size()]; if(d) { count("fault.delay"); sched_sleep(d); } } turn++; }
    bool stops(size_t& n)                          // limits n; true: nothing is left and the end stops here
    {
        if(stop == NONE || stop_at < 0) return false;
        if(at >= (uint64_t)stop_at) { if(!fired) count(stop == CLOSE ? "fault.closes_early" : stop == THROW ? "fault.device_throws" : "fault.device_error"); fired++; return true; }
        n = min<size_t>(n, (uint64_t)stop_at - at);
        return false;
    }
};
class PipeSink : public streambuf {
public:
    PipeSink(Pipe& p_, EndPlan& e_) : p(p_), e(e_), area(e_.area) { if(!area.empty()) setp(area.data(), area.data() + area.size()); }
protected:
    int_type overflow(int_type c) override
    {
        HarnessScope hs;
        if(!drain()) return traits_type::eof();
        if(traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        char ch = traits_type::to_char_type(c);
        if(!area.empty()) { *pptr() = ch; pbump(1); return c; }
        return send(&ch, 1) == 1 ? c : traits_type::eof();
    }
    streamsize xsputn(const char* s, streamsize n) override
    {
        HarnessScope hs;
        if(n <= 0) return 0;
        if(n < epptr() - pptr()) { memcpy(pptr(), s, n); pbump((int)n); return n; }
        if(!drain()) return 0;
        if(!area.empty() && (size_t)n < area.size()) { memcpy(pptr(), s, n); pbump((int)n); return n; }
        return (streamsize)send(s, n);
    }
    int sync() override { HarnessScope hs; return drain() ? 0 : -1; }
private:
    Pipe& p; EndPlan& e; vector<char> area;
    bool drain()
    {
        size_t n = pptr() - pbase();
        if(!n) return true;
        auto k = send(pbase(), n);
        if(k < n) { memmove(pbase(), pbase() + k, n - k); setp(area.data(), area.data() + area.size()); pbump((int)(n - k)); return false; }
        setp(area.data(), area.data() + area.size());
        return true;
    }
    size_t send(const char* s, size_t n)
    {
        size_t done = 0;
        while(done < n) {
            e.wait();
            size_t k = e.piece(n - done);
            if(e.stops(k)) {
                if(e.stop == EndPlan::THROW && e.fired == 1) throw DevError();
                if(e.stop == EndPlan::CLOSE) p.close_w();
                return done;
            }
            if(p.wclosed) return done;
            if(p.q.size() >= p.cap && !p.rclosed) { p.waits++; sched_block(can_write, &p, "writer: the pipe is full"); }
            if(p.rclosed) { count("pipe.broken"); return done; }
            k = min(k, p.cap - p.q.size());
            p.q.append(s + done, k); p.all.append(s + done, k);
            done += k; e.at += k;
        }
        return done;
    }
};
class PipeSource : public streambuf {
public:
    PipeSource(Pipe& p_, EndPlan& e_) : p(p_), e(e_), area(max<size_t>(1, e_.area)) { }
protected:
    int_type underflow() override
    {
        HarnessScope hs;
        if(gptr() < egptr()) return traits_type::to_int_type(*gptr());
        e.wait();
        size_t k = e.piece(area.size());
        if(e.stops(k)) {
            if(e.stop == EndPlan::THROW && e.fired == 1) throw DevError();
            if(e.stop == EndPlan::CLOSE) p.close_r();
            return end();
        }
        if(p.rclosed) return end();
        if(p.q.empty() && !p.wclosed) { p.waits++; sched_block(can_read, &p, "reader: the pipe is empty"); }
        if(p.q.empty()) return end();
        k = min(k, p.q.size());
        memcpy(area.data(), p.q.data(), k); p.q.erase(0, k);
        p.read += k; e.at += k;
        setg(area.data(), area.data(), area.data() + k);
        return traits_type::to_int_type(*gptr());
    }
private:
    Pipe& p; EndPlan& e; vector<char> area;
    int_type end() { if(++p.after_eof > 1000) fail("reads-after-end", "the reader asked for data %llu times after the end", (unsigned long long)p.after_eof); return traits_type::eof(); }
};
static EndPlan gen_end(Chooser& ch, bool sink)
{
    EndPlan e;
    e.pieces = gen_pieces(ch);
    if(ch.chance(1, 2)) { auto n = ch.range(1, 4); for(uint32_t i = 0; i < n; i++) e.delays.push_back(ch.chance(1, 2) ? 0 : ch.below(ch.chance(1, 4) ? 100000 : 20)); }
    e.area = sink ? gen_put_area(ch) : ch.chance(1, 2) ? ch.range(1, 64) : ch.range(65, 8192);
    e.exceptions = ch.chance(1, 4);
    return e;
}
//---------------------------------------------------------------- the parties
struct Party {
    enum K { PRODUCE, RELAY, CONSUME } k = PRODUCE;
    const Case* c = nullptr; bool via = false, value = false, drain = true; int fmt = 0, fmt2 = 0;
    Pipe *in = nullptr, *out = nullptr; EndPlan ein, eout; Got* got = nullptr; const MV* doc = nullptr; MV content;
    Env env;
    // outcome
    Guard g; bool good = true, done = false; uint64_t finished = 0;
};
static void act(Party& a)
{
    in_harness++;
    unique_ptr<PipeSource> src; unique_ptr<PipeSink> dst; unique_ptr<istream> is; unique_ptr<ostream> os;
    if(a.in)  { src.reset(new PipeSource(*a.in, a.ein)); is.reset(new istream(src.get())); if(a.ein.exceptions) is->exceptions(ios::badbit); }
    if(a.out) { dst.reset(new PipeSink(*a.out, a.eout)); os.reset(new ostream(dst.get())); if(a.eout.exceptions) os->exceptions(ios::badbit | ios::failbit); }
    in_harness--;
    auto& t = *a.env.t; auto& p = *a.env.p[a.fmt];
    switch(a.k) {
        case Party::PRODUCE: a.g = store_case(*a.c, t, p, *os, a.via); break;
        case Party::RELAY:   a.g = guarded([&] { t.load_source(*is, p); t.to_source(*os, *a.env.p[a.fmt2]); }); break;
        case Party::CONSUME: a.g = restore_case(*a.c, *a.got, t, p, *is, a.via, a.value); break;
    }
    HarnessScope hs;
    if(a.out) {
        a.good = os->good();
        os->exceptions(ios::goodbit);
        a.out->close_w();
    }
    trace("party %d -> %s %s%s", (int)a.k, verdict_name(a.g.v), a.g.msg.c_str(), a.good ? "" : ", stream is bad");
    if(a.in) {
        if(a.drain) { is->exceptions(ios::goodbit); is->clear(); char b[512]; while(!a.in->rclosed && (is->read(b, sizeof b), is->gcount() > 0)) { } }
        a.in->close_r();
    }
    a.done = true;
}
static void enter(void* p) { act(*(Party*)p); }
static void pipes(Chooser& ch)
{
    auto c = gen_case(ch, -1, ch.chance(1, 4));
    trace("case %s", show_case(*c).c_str());
    bool relay = ch.chance(1, 3);
    int fmt2 = relay && ch.chance(1, 2) ? gen_format(ch) : c->fmt;
    unique_ptr<Party> prod(new Party()), mid(relay ? new Party() : nullptr), cons(new Party());
    prod->k = Party::PRODUCE; cons->k = Party::CONSUME;
    prod->c = cons->c = c.get(); prod->fmt = c->fmt; cons->fmt = fmt2;
    prod->via = ch.chance(1, 3); cons->via = ch.chance(1, 3); cons->value = ch.chance(1, 4);
    if(mid) { mid->k = Party::RELAY; mid->fmt = c->fmt; mid->fmt2 = fmt2; }
    // the same with memory in between
    steps_begin(300u << 20);
    string doc, doc2; Verdict want = V_OK;
    {
        WritePlan w; w.stream = false;
        Env e; doc = store_doc(*c, *e.t, *e.p[c->fmt], w, prod->via);
        doc2 = doc;
        if(relay) {
            vector<uint8_t> out;
            auto g = guarded([&] { Env* x; { HarnessScope hs; x = &e; } x->t->load_source(Srl::Lib::In::Source((const uint8_t*)doc.data(), doc.size()), *x->p[c->fmt]); x->t->to_source(out, *x->p[fmt2]); });
            if(!g.ok()) { steps_end(); trace("not convertible: %s", g.msg.c_str()); count("solo_failed"); return; }
            doc2.assign(out.begin(), out.end());
        }
        ReadPlan r; r.stream = false; r.value = cons->value;
        auto got = fresh_got(*c);
        auto g = read_doc(*c, got, *e.t, *e.p[fmt2], doc2, r, cons->via);
        want = g.v;
        string why;
        if(want == V_OK && !equal_case(*c, got, why)) { if(fmt2 == c->fmt) fail("wrong-object", "even through memory: %s", why.c_str()); steps_end(); count("solo_failed"); return; }
        if(want != V_OK && fmt2 == c->fmt) fail("healthy-refused", "even through memory: %s", g.msg.c_str());
    }
    auto solo = steps_end();
    // the pipes
    Pipe p1, p2;
    auto cap = [&] { switch(ch.below(4)) { case 0: return (size_t)1 + ch.below(16); case 1: return (size_t)1 + ch.below(2048); case 2: return (size_t)65536; default: return (size_t)1; } };
    p1.cap = cap(); p2.cap = cap();
    if(p1.cap < 8 && doc.size() > 20000) p1.cap = 64;
    if(p2.cap < 8 && doc2.size() > 20000) p2.cap = 64;
    prod->out = &p1; prod->eout = gen_end(ch, true);
    auto& last = relay ? p2 : p1;
    if(mid) { mid->in = &p1; mid->ein = gen_end(ch, false); mid->out = &p2; mid->eout = gen_end(ch, true); mid->drain = ch.chance(1, 2); }
    cons->in = &last; cons->ein = gen_end(ch, false); cons->drain = ch.chance(1, 2);
    auto got = fresh_got(*c); cons->got = &got;
    // a fault
    uint64_t alloc = 0; bool user = false;
    auto stopper = [&](EndPlan& e, size_t n) { e.stop = (EndPlan::K)ch.range(EndPlan::CLOSE, EndPlan::ERROR); e.stop_at = ch.below((uint32_t)n + 1); };
    switch(ch.below(7)) {
        case 0: case 1: break;
        case 2: stopper(prod->eout, doc.size()); break;
        case 3: stopper(cons->ein, doc2.size()); break;
        case 4: if(mid) { if(ch.chance(1, 2)) stopper(mid->ein, doc.size()); else stopper(mid->eout, doc2.size()); } else { stopper(prod->eout, doc.size()); stopper(cons->ein, doc2.size()); } break;
        case 5: alloc = 1 + ch.below(ch.chance(1, 2) ? 20 : 400); break;
        case 6: user = true; UF = UserFaults(); UF.at = 1 + ch.below(ch.chance(1, 2) ? 6 : 60); break;
    }
    bool asap = ch.chance(1, 2);
    static const uint32_t means[] = { 50, 1000, 20000 };
    sched_preempt_mean = means[ch.below(3)]; sched_at_conflicts = false;
    trace("%s%s document of %zu%s bytes; pipes of %zu, %zu", relay ? "relayed " : "", fmt_name(c->fmt), doc.size(), relay ? (" / " + to_string(doc2.size())).c_str() : "", p1.cap, p2.cap);
    vector<Party*> ps; ps.push_back(prod.get()); if(mid) ps.push_back(mid.get()); ps.push_back(cons.get());
    if(asap) reverse(ps.begin(), ps.end());
    vector<void*> args(ps.begin(), ps.end());
    auto bytes = doc.size() + doc2.size();
    steps_begin(20 * solo + (4u << 20) + 400 * bytes);
    if(alloc) alloc_arm(alloc, false);
    sched_start(&ch, (int)ps.size(), enter, args.data(), 0, 0);
    if(alloc) { if(auto n = alloc_disarm()) count("fault.alloc_fail", n); else alloc = 0; }
    user = user && UF.fired; UF = UserFaults();
    steps_end();
    count("pipe.waits", p1.waits + p2.waits); count("pipe.bytes", p1.all.size() + p2.all.size());
    for(auto* a : ps) if(!a->done) fail("unfinished", "a party did not finish");
    // what each of them may say
    bool msg = c->fmt == F_MSG || (relay && fmt2 == F_MSG);    // its containers' sizes are patched, which a pipe cannot do beyond one buffer
    bool calm = !alloc && !user && !prod->eout.fired && !cons->ein.fired && (!mid || (!mid->ein.fired && !mid->eout.fired));
    auto sound = [&](Party& a, Pipe& p, const string& d, const char* who) {
        R->evals++;
        if(a.g.ok() && a.good && p.all != d) fail("write-reported-wrong", "%s reported success, but the pipe was given %zu bytes that are not the %zu of the document", who, p.all.size(), d.size());
    };
    sound(*prod, p1, doc, "the producer");
    if(mid) sound(*mid, p2, doc2, "the relay");
    R->evals++;
    auto& cg = cons->g;
    if(cg.ok()) {
        string why;
        if(!equal_case(*c, got, why)) fail("wrong-object", "the consumer got an object that differs from what was stored (the pipe was given %zu of %zu bytes): %s", last.all.size(), doc2.size(), why.c_str());
    }
    if(cg.ok() && want != V_OK) fail("differs-from-memory", "restored from a pipe, but refused from memory");
    bool exact = !msg || max(doc.size(), doc2.size()) <= 512;
    // a reader that closes before the end only disturbs the writer
    if(calm && exact) {
        if(cg.v != want) fail("healthy-refused", "through memory: %s, through a pipe: %s %s", verdict_name(want), verdict_name(cg.v), cg.msg.c_str());
        bool full = cons->drain && (!mid || mid->drain);
        if(mid && cons->drain && !mid->g.ok()) fail("relay-failed", "the relay failed without a fault: %s", mid->g.msg.c_str());
        if(!full) { if(prod->g.ok() && prod->good) count("pipe.complete"); }
        else for(auto* a : ps) if(a != cons.get() && (!a->g.ok() || !a->good)) fail("healthy-write-failed", "writing into a healthy pipe failed: %s", a->g.msg.c_str());
    }
    if(calm) count(cg.ok() ? "pipe.restored" : "pipe.refused");
    state(fnv(&solo, 0, (uint64_t)cg.v * 7 + (uint64_t)prod->g.v * 71 + (uint64_t)(mid ? mid->g.v : 0) * 731 + c->fmt * 7919 + fmt2 * 104729 + (p1.waits > 3) + 2 * prod->good + 4 * cons->drain));
}
static Register r1("C15", "pipes", 10, pipes);
}
