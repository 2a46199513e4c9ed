#include "ops.h"
#include <Srl/Tools.h>
namespace sim {
using namespace std;
Env::Env() : t(new Tree()) { for(int i = 0; i < 4; i++) p[i] = make_parser(i); }

static const char* kinds[] = { "store", "restore", "load", "convert", "object", "text", "value" };
string Op::show() const
{
    string s = kinds[k];
    if(c) s += " " + show_case(*c);
    if(k == LOAD || k == CONVERT) s += string(" ") + fmt_name(fmt);
    if(k == CONVERT) s += string(" to ") + fmt_name(fmt2);
    if(via) s += " by way of a tree";
    if(k == RESTORE || k == LOAD || k == CONVERT) s += string(valid ? ", document of " : ", damaged document of ") + to_string(doc.size()) + " bytes from " + sim::show(r);
    if(k == STORE || k == CONVERT || k == OBJECT) s += " to " + sim::show(w);
    if(k == TEXT) s += " tool " + to_string(tool) + " enc " + to_string(enc) + " " + show_text(text);
    if(k == VALUE) s += " " + to_string(scalars.size()) + " scalars " + sim::show(scalars[0]);
    return s;
}
string Outcome::key(bool partial) const
{
    string s = verdict_name(g.v);
    if(g.v == V_SRL) s += " " + g.msg;
    if(!stream_good) s += " stream bad";
    if(g.ok() || partial) {
        char b[40]; snprintf(b, sizeof b, " %zu bytes #%016llx", bytes.size(), (unsigned long long)fnv(bytes.data(), bytes.size())); s += b;
    }
    if(g.ok() && has_content) s += " content " + mv_digest(content);
    return s;
}
Op gen_op(Chooser& ch, bool big, bool damaged_ok, bool foreign, const Bias* bias)
{
    Op o;
    Bias b; if(bias) b = *bias;
    o.k = b.k >= 0 ? (Op::K)b.k : (Op::K)ch.pick({ 6, 7, 4, 2, 3, 2, 2 });
    o.w = gen_write_plan(ch); o.r = gen_read_plan(ch);
    switch(o.k) {
        case Op::STORE: case Op::RESTORE: case Op::OBJECT: {
            o.c = gen_case(ch, b.fmt, big, b.type); o.fmt = o.fmt2 = o.c->fmt;
            if(o.k == Op::OBJECT) o.c->pair = o.c->pair && o.c->f->packable();
            if(o.k == Op::RESTORE && foreign) o.doc = encode(o.fmt, model_case(*o.c, ch.chance(1, 4)), nullptr);
            else if(o.k == Op::RESTORE) {
                Tree t; auto p = make_parser(o.fmt); WritePlan w; w.stream = false;
                o.doc = store_doc(*o.c, t, *p, w, ch.chance(1, 4));
            }
            o.via = o.k == Op::OBJECT || ch.chance(1, 4);
            break;
        }
        case Op::LOAD: case Op::CONVERT: {
            o.fmt = b.fmt >= 0 ? b.fmt : gen_format(ch); o.fmt2 = b.fmt2 >= 0 ? b.fmt2 : gen_format(ch);
            o.doc = gen_document(ch, o.fmt, b.only);
            break;
        }
        case Op::TEXT: o.text = gen_text(ch, big); o.enc = ch.below(3); o.tool = b.tool >= 0 ? b.tool : ch.below(5); break;
        case Op::VALUE: { DocOpts d; d.big = big; d.only = b.only; auto n = bias ? ch.range(1, 8) : 1; for(uint32_t i = 0; i < n; i++) o.scalars.push_back(gen_scalar(ch, d)); o.enc = ch.below(3); break; }
    }
    if(!o.doc.empty() && damaged_ok && ch.chance(1, 4)) {
        o.valid = false;
        o.doc = ch.chance(1, 4) ? hostile(ch, o.fmt) : damage(ch, o.doc, o.doc);
    }
    return o;
}
static void text_op(const Op& o, Outcome& out)
{
    using namespace Srl;
    SrlName n("", 0);
    in_harness++; SrlName s(o.text, o.enc); in_harness--;
    auto take = [&](const vector<uint8_t>& v) { HarnessScope h; out.bytes.append(v.begin(), v.end()); };
    switch(o.tool) {
        case 0: take(Tools::conv_charset(Encoding::UTF8, s.s)); take(Tools::conv_charset(Encoding::UTF16, s.s)); take(Tools::conv_charset(Encoding::UTF32, s.s)); break;
        case 1: { auto a = s.s.unwrap<char>(); auto b = s.s.unwrap<char16_t>(); auto c = s.s.unwrap<char32_t>(); HarnessScope h; out.bytes += a; out.bytes += utf16_to_utf8(b); out.bytes += utf32_to_utf8(c); break; }
        case 2: take(Tools::bytes_to_base64((const uint8_t*)o.text.data(), o.text.size())); { auto b = Tools::bytes_to_base64((const uint8_t*)o.text.data(), o.text.size()); take(Tools::base64_to_bytes((const char*)b.data(), b.size())); } break;
        case 3: { auto b = Tools::bytes_to_hex((const uint8_t*)o.text.data(), o.text.size()); take(b); take(Tools::hex_to_bytes(b.data(), b.size())); break; }
        default: { if(o.tool == 4) out.lenient = true; vector<uint8_t> buf(3, 7); auto n2 = Tools::conv_charset(Encoding::UTF8, s.s, buf, false, 2); buf.resize(n2 + 2); take(buf); break; }
    }
}
static void value_op(const Op& o, const MV& m, Outcome& out)
{
    using namespace Srl;
    auto text = [&](const string& s) { HarnessScope h; out.bytes += s; out.bytes += '|'; };
    auto use = [&](const Value& v) {
        string a; try { a = v.unwrap<string>(); } catch(Srl::Exception& e) { a = e.what(); out.caught = true; } text(a);
        try { auto w = v.unwrap<u16string>(); HarnessScope h; text(utf16_to_utf8(w)); } catch(Srl::Exception& e) { out.caught = true; text(e.what()); }
        try { auto d = v.unwrap<double>(); HarnessScope h; text(to_string(d)); } catch(Srl::Exception& e) { out.caught = true; text(e.what()); }
        try { auto d = v.unwrap<int64_t>(); HarnessScope h; text(to_string(d)); } catch(Srl::Exception& e) { out.caught = true; text(e.what()); }
        try { auto d = v.unwrap<bool>(); text(d ? "true" : "false"); } catch(Srl::Exception& e) { out.caught = true; text(e.what()); }
        text(Tools::type_to_str(v));
    };
    switch(m.tp) {
        case Type::Bool: use(Value(m.b)); break;
        case Type::FP32: use(Value((float)m.d)); break;
        case Type::FP64: use(Value(m.d)); break;
        case Type::String: { in_harness++; SrlName s(m.s, o.enc); in_harness--; Value v(Lib::MemBlock(s.s.data(), s.s.size()), s.s.encoding()); try { text(v.unwrap<string>()); } catch(Srl::Exception& e) { out.caught = true; text(e.what()); } try { auto d = v.unwrap<double>(); HarnessScope h; text(to_string(d)); } catch(Srl::Exception& e) { out.caught = true; text(e.what()); } break; }
        case Type::Binary: { Value v(Lib::MemBlock((const uint8_t*)m.s.data(), m.s.size()), Type::Binary); auto b = v.unwrap<Bytes>(); HarnessScope h; auto d = move(b).extract(); out.bytes.append(d.begin(), d.end()); break; }
        case Type::Null: { Value v; auto b = v.type() == Type::Null; text(b ? "null" : "?"); break; }
        default: if(is_uns(m.tp)) use(Value(m.u)); else use(Value(m.i));
    }
}
Outcome run_op(const Op& op, Tree& t, unique_ptr<Srl::Parser>* ps, const Fault* f, uint64_t* allocs)
{
    Outcome o;
    auto& p = *ps[op.fmt]; auto& p2 = *ps[op.fmt2];
    InPlan in = op.r.in; OutFaults of;
    Got got;
    if(op.k == Op::RESTORE) got = fresh_got(*op.c);
    if(op.c) op.c->use();
    if(f) {
        if(f->k == Fault::OUT) of = f->out;
        if(f->k == Fault::IN) { in.error_at = f->in_at; in.error_throws = f->in_throws; }
    }
    uint64_t if0 = iconv_fired, uf0 = UF.fired;
    uint64_t af = 0;
    auto arm = [&] {
        if(allocs && !f) alloc_arm(0, false);
        if(!f) return;
        if(f->k == Fault::ALLOC) alloc_arm(f->at, f->sticky, f->every);
        if(f->k == Fault::ICONV) { iconv_fail_at = f->at; iconv_seen = 0; }
        if(f->k == Fault::USER)  { UF.at = f->at; UF.seen = 0; }
    };
    auto disarm = [&] {
        if(allocs && !f) { alloc_disarm(); *allocs = A.seen; }
        if(f && f->k == Fault::ALLOC) af = alloc_disarm();
        if(af) count("fault.alloc_fail", af);
        if(iconv_fired > if0) count("fault.iconv_open_fail", iconv_fired - if0);
        iconv_fail_at = 0; if(f && f->k == Fault::USER) UF.at = 0;
    };
    auto reading = [&](const string& doc, function<void(Srl::Lib::In::Source)> fn) {
        if(op.r.stream) {
            InStream is(doc, &in);
            if(in.error_throws) is.exceptions(ios::badbit);
            arm(); o.g = guarded([&] { fn(Srl::Lib::In::Source(is)); }); disarm();
        } else {
            unique_ptr<uint8_t[]> mem(new uint8_t[doc.size()]);
            memcpy(mem.get(), doc.data(), doc.size());
            arm(); o.g = guarded([&] { fn(Srl::Lib::In::Source(mem.get(), doc.size())); }); disarm();
        }
    };
    auto writing = [&](function<Guard(Srl::Lib::Out::Source)> fn) {
        if(op.w.stream) {
            SimFile file; bool st;
            {
                OutStream os(file, op.w.area, op.w.pieces, &of);
                os.write(op.w.prefix.data(), op.w.prefix.size());
                arm(); o.g = fn(os); disarm();
                st = os.good();
                of.throw_at = -1;
            }
            o.stream_good = st;
            o.bytes = file.content.substr(min(file.content.size(), op.w.prefix.size()));
        } else {
            vector<uint8_t> v;
            arm(); o.g = fn(v); disarm();
            o.bytes.assign(v.begin(), v.end());
        }
    };
    auto take = [&] { o.content = dump(t.root()); o.has_content = true; };
    switch(op.k) {
        case Op::STORE: writing([&](Srl::Lib::Out::Source s) { return store_case(*op.c, t, p, s, op.via); }); break;
        case Op::OBJECT: writing([&](Srl::Lib::Out::Source s) { return store_case(*op.c, t, p, s, true); }); if(o.g.ok()) take(); break;
        case Op::RESTORE: {
            reading(op.doc, [&](Srl::Lib::In::Source s) {
                if(!op.via) {
                    if(!op.c->pair && op.r.value && got.f->root_value(t, &p, &s)) ;
                    else if(!op.c->pair) got.f->root_restore(t, p, s);
                    else got.f->unpack2(t, p, s, op.c->n1, op.c->n2, got.extra);
                } else {
                    t.load_source(s, p);
                    if(!op.c->pair && op.r.value && got.f->root_value(t, nullptr, nullptr)) ;
                    else if(!op.c->pair) got.f->root_paste(t);
                    else { got.f->paste_field(t.root(), Srl::String(op.c->n1)); t.root().paste_field(Srl::String(op.c->n2), got.extra); }
                }
            });
            if(o.g.ok()) {
                Mx m; op.c->use();
                if(op.c->pair) { o.content = MV(Type::Object); got.f->model(o.content, op.c->n1, m); o.content.items.push_back({ op.c->n2, MV::str(got.extra) }); }
                else o.content = got.f->root_model(m);
                o.has_content = true;
                // a correct result is the stored object
                if(op.valid) {
                    string why;
                    if(!equal_case(*op.c, got, why)) fail("wrong-object", "restoring from an undamaged document succeeded with another object: %s", why.c_str());
                }
            }
            break;
        }
        case Op::LOAD: reading(op.doc, [&](Srl::Lib::In::Source s) { t.load_source(s, p); }); if(o.g.ok()) take(); break;
        case Op::CONVERT: {
            Fault none; auto* f0 = f; if(f && f->k != Fault::IN) f = &none;   // faults in the second half
            reading(op.doc, [&](Srl::Lib::In::Source s) { t.load_source(s, p); });
            f = f0;
            if(!o.g.ok()) break;
            take();
            writing([&](Srl::Lib::Out::Source s) { return guarded([&] { t.to_source(s, p2); }); });
            if(o.g.ok() || o.g.v == V_OOM || o.g.v == V_IO) {
                string why; auto now = dump(t.root());
                if(!mv_equal(o.content, now, -1, why)) fail("save-changed-tree", "saving a tree changed it: %s", why.c_str());
            }
            break;
        }
        case Op::TEXT: arm(); o.g = guarded([&] { text_op(op, o); }); disarm(); break;
        case Op::VALUE: arm(); o.g = guarded([&] { for(auto& m : op.scalars) value_op(op, m, o); }); disarm(); break;
    }
    o.fired = af || iconv_fired > if0 || UF.fired > uf0 || of.any() || in.fired;
    // the document is gone by now: nothing may be read from it any more
    if(op.k == Op::RESTORE) { auto g = guarded([&] { auto& r = t.root(); r.has_value("q"); r.has_node("q"); }); if(g.v != V_OK && g.v != V_OOM) fail("read-after-end", "asking for an item after a restore: %s", g.msg.c_str()); }
    if(o.fired && (o.caught || (o.lenient && iconv_fired > if0)) && o.g.ok()) { o.g.v = V_SRL; o.g.msg = "(caught)"; }
    if(f && f->k == Fault::USER) UF = UserFaults();
    return o;
}
Fault gen_fault(Chooser& ch, const Op& op, uint64_t allocs)
{
    Fault f;
    bool out = (op.k == Op::STORE || op.k == Op::CONVERT || op.k == Op::OBJECT) && op.w.stream;
    bool in = (op.k == Op::RESTORE || op.k == Op::LOAD || op.k == Op::CONVERT) && op.r.stream;
    bool user = op.c != nullptr;
    uint32_t x = ch.pick({ allocs ? 4u : 0u, 1u, user ? 2u : 0u, out ? 3u : 0u, in ? 3u : 0u });
    switch(x) {
        case 0: f.k = Fault::ALLOC; f.at = 1 + ch.below((uint32_t)allocs); if(ch.chance(1, 4)) f.sticky = true; else if(ch.chance(1, 4)) f.every = ch.range(1, 6); break;
        case 1: f.k = Fault::ICONV; f.at = ch.range(1, 6); break;
        case 2: f.k = Fault::USER; f.at = ch.range(1, 12); break;
        case 3: {
            f.k = Fault::OUT;
            auto at = [&] { return (int64_t)op.w.prefix.size() + ch.below(ch.chance(1, 2) ? 64 : 4096); };
            switch(ch.below(5)) {
                case 0: f.out.eio_at = at(); f.out.eio_sticky = ch.chance(1, 2); break;
                case 1: f.out.full_at = at(); break;
                case 2: f.out.seek_fail = ch.range(1, 4); break;
                case 3: f.out.flush_fail = 1; break;
                default: f.out.throw_at = at(); break;
            }
            break;
        }
        default: f.k = Fault::IN; f.in_at = ch.below((uint32_t)op.doc.size() + 1); f.in_throws = ch.chance(1, 2); break;
    }
    return f;
}
string show(const Fault& f)
{
    char b[160];
    switch(f.k) {
        case Fault::NONE: return "no fault";
        case Fault::ALLOC: snprintf(b, sizeof b, "allocation %llu fails%s every %llu", (unsigned long long)f.at, f.sticky ? " and all later" : "", (unsigned long long)f.every); break;
        case Fault::ICONV: snprintf(b, sizeof b, "iconv_open %llu fails", (unsigned long long)f.at); break;
        case Fault::USER: snprintf(b, sizeof b, "user callback %llu throws", (unsigned long long)f.at); break;
        case Fault::OUT: snprintf(b, sizeof b, "device: eio %lld full %lld seek %d flush %d throw %lld", (long long)f.out.eio_at, (long long)f.out.full_at, f.out.seek_fail, f.out.flush_fail, (long long)f.out.throw_at); break;
        default: snprintf(b, sizeof b, "source fails at %lld%s", (long long)f.in_at, f.in_throws ? " (throws)" : "");
    }
    return b;
}
}
