// Simulated devices: files, sources, pipes behind std::streambuf.
#pragma once
#include "core.h"
#include <Srl/Srl.h>
#include <istream>
#include <ostream>
#include <memory>
#include <new>

namespace sim {

struct DevError : std::runtime_error { DevError() : std::runtime_error("simulated device error") { } };
struct UserError { int n; };    // thrown by simulated user types

//---------------------------------------------------------------- output
struct DevOp { enum K { WRITE, SEEK, FLUSH } k; uint64_t pos; std::string data; };

struct OutFaults {
    int64_t  eio_at = -1;       // device accepts this many bytes, then one write fails
    bool     eio_sticky = false;
    int64_t  full_at = -1;      // nothing beyond this device offset can be stored
    bool     seekable = true;
    int      seek_fail = 0;     // ordinal of the failing seek (1-based)
    int      tell_fail = 0;
    int      flush_fail = 0;
    int64_t  throw_at = -1;     // streambuf throws after this many bytes
    // what fired
    int fired_eio = 0, fired_full = 0, fired_seek = 0, fired_tell = 0, fired_flush = 0, fired_throw = 0;
    int any() const { return fired_eio + fired_full + fired_seek + fired_tell + fired_flush + fired_throw; }
};

struct SimFile {
    std::string content;        // what is on the device
    std::vector<DevOp> log;     // since creation
    uint64_t pos = 0, accepted = 0, flushes = 0;
    uint64_t writes = 0, seeks = 0;
    void put(uint64_t at, const char* s, size_t n)
    {
        if(content.size() < at + n) content.resize(at + n, '\0');
        memcpy(&content[at], s, n);
    }
};

class SinkBuf : public std::streambuf {
public:
    SinkBuf(SimFile& f_, size_t put_area, const std::vector<uint32_t>& pieces_, OutFaults* of_ = nullptr)
        : f(f_), area(put_area), pieces(pieces_), of(of_) { if(!area.empty()) setp(area.data(), area.data() + area.size()); }
    bool lazy_tell = true;
protected:
    int_type overflow(int_type c) override
    {
        HarnessScope hs;
        if(!drain()) return traits_type::eof();
        if(traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        char ch = traits_type::to_char_type(c);
        if(!area.empty()) { *pptr() = ch; pbump(1); return c; }
        return device(&ch, 1) == 1 ? c : traits_type::eof();
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        HarnessScope hs;
        if(n <= 0) return 0;
        if(!area.empty() && n < epptr() - pptr()) { memcpy(pptr(), s, n); pbump((int)n); return n; }
        if(!drain()) return 0;
        if(!area.empty() && (size_t)n < area.size()) { memcpy(pptr(), s, n); pbump((int)n); return n; }
        return (std::streamsize)device(s, n);
    }
    int sync() override
    {
        HarnessScope hs;
        if(!drain()) return -1;
        f.flushes++;
        if(of && of->flush_fail && (int)f.flushes == of->flush_fail) { of->fired_flush++; count("fault.flush_fail"); trace("dev flush -> error"); return -1; }
        f.log.push_back({ DevOp::FLUSH, f.pos, {} });
        return 0;
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        HarnessScope hs;
        if(of && !of->seekable) { of->fired_seek++; count("fault.not_seekable"); return pos_type(off_type(-1)); }
        if(dir == std::ios_base::cur && off == 0) {
            tells++;
            if(of && of->tell_fail && tells == of->tell_fail) { of->fired_tell++; count("fault.tell_fail"); trace("dev tell -> error"); return pos_type(off_type(-1)); }
            if(lazy_tell) return pos_type(f.pos + (pptr() - pbase()));
        }
        if(!drain()) return pos_type(off_type(-1));
        off_type base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? (off_type)f.pos : (off_type)f.content.size();
        return seek_to(base + off);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override
    {
        HarnessScope hs;
        if(of && !of->seekable) { of->fired_seek++; count("fault.not_seekable"); return pos_type(off_type(-1)); }
        if(!drain()) return pos_type(off_type(-1));
        return seek_to((off_type)p);
    }
private:
    SimFile& f; std::vector<char> area; std::vector<uint32_t> pieces; size_t pi = 0; OutFaults* of; int tells = 0, seeks = 0;
    pos_type seek_to(off_type o)
    {
        if(o < 0) return pos_type(off_type(-1));
        seeks++; f.seeks++;
        if(of && of->seek_fail && seeks == of->seek_fail) { of->fired_seek++; count("fault.seek_fail"); trace("dev seek %lld -> error", (long long)o); return pos_type(off_type(-1)); }
        f.pos = (uint64_t)o;
        f.log.push_back({ DevOp::SEEK, f.pos, {} });
        return pos_type(o);
    }
    bool drain()
    {
        size_t n = pptr() - pbase();
        if(!n) return true;
        size_t k = 0;
        auto before = f.accepted;
        auto keep = [&] {
            memmove(pbase(), pbase() + k, n - k);
            setp(area.data(), area.data() + area.size()); pbump((int)(n - k));
        };
        try { k = device(pbase(), n); } catch(...) { k = f.accepted - before; keep(); throw; }
        if(k < n) { // what was not accepted stays in the buffer, as in a file stream
            keep();
            return false;
        }
        setp(area.data(), area.data() + area.size());
        return true;
    }
    size_t device(const char* s, size_t n)
    {
        size_t done = 0;
        while(done < n) {
            size_t k = n - done;
            if(!pieces.empty()) k = std::min<size_t>(k, pieces[pi++ % pieces.size()]);
            size_t ok = k; bool stop = false;
            if(of) {
                if(of->throw_at >= 0 && f.accepted + ok > (uint64_t)of->throw_at && !of->fired_throw) {
                    of->fired_throw++; count("fault.device_throws"); trace("dev write -> throws");
                    throw DevError();
                }
                if(of->eio_at >= 0 && f.accepted + ok > (uint64_t)of->eio_at && (!of->fired_eio || of->eio_sticky)) {
                    ok = of->eio_at > (int64_t)f.accepted ? of->eio_at - f.accepted : 0;
                    of->fired_eio++; stop = true; count("fault.eio");
                }
                if(of->full_at >= 0 && f.pos + ok > (uint64_t)of->full_at) {
                    ok = (uint64_t)of->full_at > f.pos ? of->full_at - f.pos : 0;
                    of->fired_full++; stop = true; count("fault.disk_full");
                }
            }
            if(ok) {
                f.put(f.pos, s + done, ok);
                f.log.push_back({ DevOp::WRITE, f.pos, std::string(s + done, ok) });
                f.writes++; f.pos += ok; f.accepted += ok; done += ok;
            }
            if(stop) { trace("dev write of %zu at %llu -> %zu accepted, error", n, (unsigned long long)f.pos, done); return done; }
        }
        return done;
    }
};

class OutStream : public std::ostream {
public:
    SinkBuf sb;
    OutStream(SimFile& f, size_t put_area, const std::vector<uint32_t>& pieces, OutFaults* of = nullptr)
        : std::ostream(nullptr), sb(f, put_area, pieces, of) { rdbuf(&sb); }
};

//---------------------------------------------------------------- input
struct InPlan {
    std::vector<uint32_t> pieces;      // sizes of successive deliveries, cycled; empty: everything at once
    int64_t error_at = -1;             // device error after this many bytes
    bool    error_throws = false;      // as an exception from the streambuf (else as end of file)
    bool    own_xsgetn = false;
    int     fired = 0;
};
class SourceBuf : public std::streambuf {
public:
    SourceBuf(const std::string& d, InPlan* p_) : data(d), p(p_) { }
    uint64_t deliveries = 0, delivered = 0;
protected:
    int_type underflow() override
    {
        HarnessScope hs;
        if(gptr() < egptr()) return traits_type::to_int_type(*gptr());
        size_t lim = data.size();
        if(p && p->error_at >= 0 && (size_t)p->error_at < lim) lim = p->error_at;
        if(off >= lim) {
            if(p && p->error_at >= 0 && (size_t)p->error_at < data.size()) {
                p->fired++; count(p->error_throws ? "fault.read_throws" : "fault.read_error");
                if(p->error_throws) throw DevError();
            }
            return traits_type::eof();
        }
        size_t k = lim - off;
        if(p && !p->pieces.empty()) k = std::min<size_t>(k, p->pieces[deliveries % p->pieces.size()]);
        if(k == 0) k = 1;
        deliveries++;
        char* d = const_cast<char*>(data.data()) + off;
        setg(d, d, d + k);
        off += k; delivered += k;
        return traits_type::to_int_type(*gptr());
    }
    std::streamsize xsgetn(char* s, std::streamsize n) override
    {
        // default behaviour: keeps asking until satisfied or at the end
        std::streamsize done = 0;
        while(done < n) {
            auto av = egptr() - gptr();
            if(av == 0) { if(traits_type::eq_int_type(underflow(), traits_type::eof())) break; continue; }
            auto k = std::min<std::streamsize>(av, n - done);
            memcpy(s + done, gptr(), k); gbump((int)k); done += k;
        }
        return done;
    }
private:
    std::string data; InPlan* p; size_t off = 0;
};
class InStream : public std::istream {
public:
    SourceBuf sb;
    InStream(const std::string& d, InPlan* p) : std::istream(nullptr), sb(d, p) { rdbuf(&sb); }
};

//---------------------------------------------------------------- draws
std::vector<uint32_t> gen_pieces(Chooser& ch);
size_t gen_put_area(Chooser& ch);

//---------------------------------------------------------------- formats
enum { F_SRL = 0, F_MSG = 1, F_JSON = 2, F_JSONS = 3 };
const char* fmt_name(int f);
std::unique_ptr<Srl::Parser> make_parser(int fmt);
int gen_format(Chooser& ch);

//---------------------------------------------------------------- guarded execution of code under test
enum Verdict { V_OK, V_SRL, V_OOM, V_USER, V_IO, V_LEN };
const char* verdict_name(Verdict v);
struct Guard {
    Verdict v = V_OK; std::string msg; int user = 0;
    bool ok() const { return v == V_OK; }
};
template<class F> Guard guarded(F&& f)
{
    Guard g;
    {
        int l = in_lib, h = in_harness;
        try {
            LibScope ls;
            f();
        } catch(Srl::Exception& e) {
            in_lib = l; in_harness = h; HarnessScope hs; g.v = V_SRL; g.msg = e.what();
        } catch(UserError& e) {
            in_lib = l; in_harness = h; g.v = V_USER; g.user = e.n;
        } catch(DevError&) {
            in_lib = l; in_harness = h; g.v = V_IO;
        } catch(std::ios_base::failure&) {
            in_lib = l; in_harness = h; g.v = V_IO;
        } catch(std::bad_alloc&) {
            in_lib = l; in_harness = h; g.v = V_OOM;
            if(!A.fired) fail("unexpected-exception", "bad_alloc escaped although no allocation was made to fail");
        } catch(std::exception& e) {
            in_lib = l; in_harness = h;
            fail("foreign-exception", "an exception that is not the library's escaped: %s (%s)", typeid(e).name(), e.what());
        }
    }
    return g;
}
}
