// C04: a failing output device is never reported as success.
#include "cases.h"
namespace sim {
using namespace std;
static void device_faults_of(Chooser& ch, unique_ptr<Case> c)
{
    trace("case %s", show_case(*c).c_str());
    steps_begin(600u << 20);
    bool via = ch.chance(1, 3);
    string doc;
    { Tree t; auto p = make_parser(c->fmt); WritePlan w; w.stream = false; doc = store_doc(*c, t, *p, w, via); }
    Tree t; auto p = make_parser(c->fmt);      // one tree and parser for all attempts
    auto n = ch.range(1, 4);
    for(uint32_t k = 0; k < n; k++) {
        SpanScope sp(ch);
        steps_begin(600u << 20);
        SimFile file; OutFaults of;
        auto foreign = ch.chance(1, 2) ? (ch.chance(1, 2) ? ch.range(1, 60) : ch.range(1, 6000)) : 0;
        uint64_t start = foreign ? ch.below(foreign + 1) : 0;
        for(uint32_t i = 0; i < foreign; i++) file.content += (char)('a' + i % 26);
        auto before = file.content;
        auto dev_at = [&] { auto m = (uint32_t)doc.size() + 2; return (int64_t)(ch.chance(1, 3) ? m - 1 - ch.below(min(m, 24u)) : ch.below(m)); };
        bool exc = ch.chance(1, 4), fault = ch.chance(5, 6);
        if(k + 1 == n) fault = ch.chance(1, 2);
        auto nf = fault ? ch.range(1, 2) : 0;
        for(uint32_t i = 0; i < nf; i++) switch(ch.below(9)) {
            case 0: of.eio_at = dev_at(); break;
            case 1: of.eio_at = dev_at(); of.eio_sticky = true; break;
            case 2: of.full_at = (int64_t)start + dev_at(); break;
            case 3: of.seek_fail = ch.range(1, 8); break;
            case 4: of.tell_fail = ch.range(1, 6); break;
            case 5: of.flush_fail = ch.range(1, 3); break;
            case 6: of.throw_at = dev_at(); break;
            case 7: of.seekable = false; start = file.content.size(); break;
            case 8: UF.at = ch.range(1, 20); break;
        }
        UF.seen = 0;
        size_t area = gen_put_area(ch); auto pieces = gen_pieces(ch);
        trace("attempt %u: start %llu of %u, put area %zu, eio %lld full %lld seek %d tell %d flush %d throw %lld seekable %d user %llu", k, (unsigned long long)start, foreign, area,
            (long long)of.eio_at, (long long)of.full_at, of.seek_fail, of.tell_fail, of.flush_fail, (long long)of.throw_at, of.seekable, (unsigned long long)UF.at);
        file.pos = start;
        Guard g; bool good; uint64_t user;
        {
            OutStream os(file, area, pieces, &of);
            if(exc) os.exceptions(ios::badbit | ios::failbit);
            g = store_case(*c, t, *p, os, via);
            good = os.good();
            user = UF.fired; UF = UserFaults();
            os.exceptions(ios::goodbit);
            R->evals++;
            trace("-> %s, stream %s, %d device faults, %zu bytes", verdict_name(g.v), good ? "good" : "bad", of.any(), file.content.size());
            bool ok = g.ok() && good;
            bool lost = of.fired_eio || of.fired_full || of.fired_flush || of.fired_throw || (of.fired_seek && of.seekable);
            if(lost && ok) fail("fault-hidden", "%d write, %d flush, %d seek faults, %d thrown, but storing returned and the stream is good",
                of.fired_eio + of.fired_full, of.fired_flush, of.fired_seek, of.fired_throw);
            if(!of.any() && !user && !g.ok()) fail("healthy-refused", "no fault happened, but storing failed: %s", g.msg.c_str());
            if(!of.any() && !user && !good) fail("healthy-bad-stream", "no fault happened, but the stream is not good");
            if(ok) {
                if(file.content.size() < start + doc.size() || file.content.compare(start, doc.size(), doc) != 0) {
                    size_t i = 0; while(start + i < file.content.size() && i < doc.size() && file.content[start + i] == doc[i]) i++;
                    fail("incomplete-document", "storing succeeded, but the device does not hold the document: %zu bytes expected at %llu, difference at byte %zu, device has %zu bytes", doc.size(), (unsigned long long)start, i, file.content.size());
                }
                bool flushed = false;
                for(auto& op : file.log) if(op.k == DevOp::WRITE) flushed = false; else if(op.k == DevOp::FLUSH) flushed = true;
                if(!flushed) fail("not-flushed", "storing succeeded without flushing the stream");
                // positioned for whatever is written next
                if(of.seekable && file.pos != start + doc.size()) fail("position", "after storing the position is %llu, the document ends at %llu", (unsigned long long)file.pos, (unsigned long long)(start + doc.size()));
            }
        }
        // nothing outside the document's range
        auto expect = before;
        if(file.content.size() < expect.size()) fail("touched-outside", "the device lost bytes");
        for(size_t i = 0; i < expect.size(); i++) {
            if(i >= start && i < start + doc.size()) continue;
            if(expect[i] != file.content[i]) fail("touched-outside", "byte %zu outside the document's range [%llu, %llu) was changed", i, (unsigned long long)start, (unsigned long long)(start + doc.size()));
        }
        if(file.content.size() > max<size_t>(before.size(), start + doc.size())) fail("touched-outside", "%zu bytes on the device, the document ends at %zu", file.content.size(), (size_t)(start + doc.size()));
    }
    // and a healthy device in the end
    SimFile file; OutStream os(file, gen_put_area(ch), gen_pieces(ch));
    auto g = store_case(*c, t, *p, os, via);
    if(!g.ok() || !os.good()) fail("retry-failed", "storing to a healthy device after a failure failed: %s", g.msg.c_str());
    if(file.content != doc) fail("retry-differs", "storing to a healthy device after a failure gave %zu bytes other than the document of %zu", file.content.size(), doc.size());
    R->evals++;
    steps_end();
}
static void device_faults(Chooser& ch) { device_faults_of(ch, gen_case(ch)); }
static void device_faults_large(Chooser& ch) { device_faults_of(ch, gen_large_case(ch)); }
static Register r1("C04", "device-faults", 400, device_faults);
static Register r1l("C04", "device-faults-large", 2, device_faults_large);
}
