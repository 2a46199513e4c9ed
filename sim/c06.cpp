// C06: running out of memory or descriptors is survivable.
#include "ops.h"
namespace sim {
using namespace std;
static void check(const Op& op, const Outcome& ref, const Outcome& o, const Fault& f, const char* what)
{
    R->evals++;
    if(!o.fired) {
        if(o.key() != ref.key()) fail("differs-without-fault", "%s: the fault did not happen, but the outcome is [%s] instead of [%s]", what, o.key().c_str(), ref.key().c_str());
        return;
    }
    if(o.g.ok() && o.stream_good) {
        if(o.key() != ref.key()) fail("wrong-result", "%s with %s: reported success, but the outcome is [%s] instead of [%s]", what, show(f).c_str(), o.key().c_str(), ref.key().c_str());
    } else if(o.g.v != V_OOM && o.g.v != V_SRL && o.g.v != V_USER && o.g.v != V_IO && o.g.ok())
        fail("strange-failure", "%s with %s: %s", what, show(f).c_str(), o.key().c_str());
    (void)op;
}
static void resources_of(Chooser& ch, Op op, bool icv, bool all)
{
    trace("%s", op.show().c_str());
    steps_begin(300u << 20);
    uint64_t n = 0;
    Outcome ref;
    { Env e; ref = run_op(op, *e.t, e.p, nullptr, &n); }
    if(icv) { Env e; Fault f; f.k = Fault::ICONV; f.at = ~0ull; run_op(op, *e.t, e.p, &f); n = iconv_seen; }
    trace("-> %s, %llu %s", ref.key().c_str(), (unsigned long long)n, icv ? "converters" : "allocations");
    if(op.valid && !ref.g.ok()) fail("healthy-refused", "an operation failed although nothing was wrong: %s", ref.key().c_str());
    if(!n) return;
    vector<uint64_t> at;
    if((n <= 16 && ch.chance(1, 2)) || (all && n <= 80)) for(uint64_t i = 1; i <= n; i++) at.push_back(i);
    else { auto k = ch.range(2, 10); for(uint32_t i = 0; i < k; i++) at.push_back(1 + ch.below((uint32_t)min<uint64_t>(n, 1u << 20))); }
    Env e;
    // something in the tree already
    MV before; bool keep = false;
    auto fill = [&] {
        auto fmt = gen_format(ch); auto doc = gen_document(ch, fmt); ReadPlan r; r.stream = ch.chance(1, 2);
        auto g = with_source(doc, r, [&](Srl::Lib::In::Source s) { e.t->load_source(s, *e.p[fmt]); });
        if(!g.ok()) fail("unusable", "a document could not be loaded: %s", g.msg.c_str());
        before = dump(e.t->root()); keep = true;
    };
    auto store_only = op.k == Op::TEXT || op.k == Op::VALUE || (op.k == Op::STORE && !op.via && !op.c->pair);
    for(auto a : at) {
        SpanScope sp(ch);
        if(ch.chance(1, 6)) { e = Env(); keep = false; }
        if(!keep && store_only && ch.chance(2, 3)) fill();
        Fault f; f.k = icv ? Fault::ICONV : Fault::ALLOC; f.at = a;
        if(!icv) { if(ch.chance(1, 5)) f.sticky = true; else if(ch.chance(1, 6)) f.every = ch.range(1, 7); }
        auto o = run_op(op, *e.t, e.p, &f);
        trace("%s -> %s%s", show(f).c_str(), o.key().c_str(), o.fired ? "" : " (did not happen)");
        check(op, ref, o, f, op.show().c_str());
        if(!store_only) keep = false;
        if(keep) {
            string why; auto now = dump(e.t->root());
            if(!mv_equal(before, now, -1, why)) fail("content-lost", "after %s the tree's earlier content changed: %s", show(f).c_str(), why.c_str());
            R->evals++;
        } else if(ch.chance(1, 4)) { auto d = mv_digest(dump(e.t->root())); trace("tree afterwards %s", d.c_str()); }
        if(all && o.fired && !o.g.ok()) {
            // what is there is found by its name, and the tree can be added to
            auto now = dump(e.t->root()); auto& root = e.t->root(); R->evals++;
            auto g = guarded([&] {
                for(auto& i : now.items) {
                    in_harness++; Srl::String nm(i.first); in_harness--;
                    bool there = i.second.tp == Type::Object ? root.has_node(nm) : root.has_value(nm);
                    if(!there) fail("unusable-afterwards", "after %s the item %s is in the tree, but not found", show(f).c_str(), i.first.c_str());
                }
                if(root.has_value("not there")) fail("unusable-afterwards", "after %s an item that is not in the tree is found", show(f).c_str());
                if(now.tp == Type::Object && !now.items.empty()) {
                    for(int k = 0; k < 5; k++) { in_harness++; auto nm = "added" + to_string(k); in_harness--; root.insert(nm, k); }
                    for(int k = 0; k < 5; k++) { in_harness++; auto nm = "added" + to_string(k); in_harness--; if(root.unwrap_field<int>(nm) != k) fail("unusable-afterwards", "after %s an added item has another value", show(f).c_str()); }
                }
            });
            if(!g.ok()) fail("unusable-afterwards", "after %s: %s", show(f).c_str(), g.msg.c_str());
        }
        if(ch.chance(1, 3)) {
            auto o2 = run_op(op, *e.t, e.p); R->evals++;
            if(o2.key() != ref.key()) fail("unusable-afterwards", "after %s the same operation gives [%s] instead of [%s]", show(f).c_str(), o2.key().c_str(), ref.key().c_str());
        }
        state(fnv(&a, sizeof a, fnv(o.key().data(), o.key().size())));
    }
    auto o2 = run_op(op, *e.t, e.p); R->evals++;
    if(o2.key() != ref.key()) fail("unusable-afterwards", "after failures the same operation gives [%s] instead of [%s]", o2.key().c_str(), ref.key().c_str());
    if(ch.chance(1, 2)) {
        auto op2 = gen_op(ch);
        Outcome r2; { Env x; r2 = run_op(op2, *x.t, x.p); }
        auto o3 = run_op(op2, *e.t, e.p); R->evals++;
        if(o3.key() != r2.key()) fail("unusable-afterwards", "after failures %s gives [%s] instead of [%s]", op2.show().c_str(), o3.key().c_str(), r2.key().c_str());
    }
    steps_end();
}
static void resources(Chooser& ch)
{
    bool icv = ch.chance(1, 5);
    resources_of(ch, gen_op(ch, ch.chance(1, 6)), icv, false);
}
// documents with so many names that the tables of names grow on the way, every single allocation failing
static void growing(Chooser& ch)
{
    Op op; op.k = ch.chance(1, 3) ? Op::LOAD : Op::CONVERT; op.fmt = gen_format(ch); op.fmt2 = gen_format(ch);
    op.w = gen_write_plan(ch); op.r = gen_read_plan(ch);
    static const uint32_t marks[] = { 62, 126, 200, 254, 510, 1022 };
    auto n = marks[ch.pick({ 4, 4, 4, 2, 2, 1 })] + ch.below(6); auto len = ch.below(40); auto nodes = ch.chance(1, 4);
    uint64_t x = ch.below(0x7fffffff); auto rnd = [&](uint64_t m) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % m; };
    MV m(Type::Object);
    for(uint32_t i = 0; i < n; i++) {
        auto name = string(len ? rnd(len) : 0, 'n') + to_string(i);
        if(nodes && rnd(3) == 0) { MV y(Type::Object); y.items.push_back({ name + "'", MV::num(Type::I32, (int)i) }); m.items.push_back({ name, y }); }
        else m.items.push_back({ name, rnd(4) ? MV::num(Type::I32, (int)i) : MV::str(string(rnd(30), 's')) });
    }
    op.doc = encode(op.fmt, m, nullptr);
    resources_of(ch, op, false, true);
}
// the history of a document, in which much of what is tried fails
static void editing(Chooser& ch)
{
    steps_begin(300u << 20);
    auto base = tracked_live();
    edit_session(ch, true, true);
    if(tracked_live() != base) fail("objects-left", "%lld objects more than at the start are alive", (long long)(tracked_live() - base));
    steps_end();
}
static Register r1("C06", "resources", 50, resources), r2("C06", "editing", 10, editing), r3("C06", "growing", 8, growing);
}
