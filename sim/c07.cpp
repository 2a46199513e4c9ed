// C07: a reused tree or format object behaves like a fresh one.
#include "ops.h"
namespace sim {
using namespace std;
static void history(Chooser& ch)
{
    steps_begin(300u << 20);
    Env e; bool known = true, valid = true; MV content(Type::Object);
    unique_ptr<Env> other;                       // a second tree, to move to and from
    auto n = ch.range(2, 9);
    vector<Op> old;
    for(uint32_t k = 0; k < n; k++) {
        SpanScope sp(ch);
        switch(ch.pick({ 10, 2, 3, 2, 1, 1 })) {
            case 0: {
                // one operation, sometimes one done before; sometimes it fails midway
                Op op = !old.empty() && ch.chance(1, 4) ? old[ch.below((uint32_t)old.size())] : gen_op(ch, ch.chance(1, 8));
                old.push_back(op);
                uint64_t na = 0; Outcome ref;
                { Env f; ref = run_op(op, *f.t, f.p, nullptr, &na); }
                Fault f; if(ch.chance(2, 5)) f = gen_fault(ch, op, na);
                trace("%s with %s", op.show().c_str(), show(f).c_str());
                auto o = run_op(op, *e.t, e.p, f.k ? &f : nullptr);
                trace("-> %s%s; fresh %s", o.key().c_str(), o.fired ? " (fault)" : "", ref.key().c_str());
                R->evals++;
                if(!o.fired && o.key() != ref.key()) fail("differs-from-fresh", "step %u, %s: the used tree gives [%s], a fresh one [%s]", k, op.show().c_str(), o.key().c_str(), ref.key().c_str());
                if(!o.fired && o.has_content) { string why; if(!mv_equal(ref.content, o.content, -1, why)) fail("differs-from-fresh", "step %u, %s: content: %s", k, op.show().c_str(), why.c_str()); }
                if(o.fired && o.g.ok() && o.stream_good && o.key() != ref.key()) fail("wrong-result", "step %u, %s with %s reported success with [%s] instead of [%s]", k, op.show().c_str(), show(f).c_str(), o.key().c_str(), ref.key().c_str());
                bool replaces = !(op.k == Op::TEXT || op.k == Op::VALUE || (op.k == Op::STORE && !op.via && !op.c->pair));
                if(replaces) { known = o.g.ok() && (op.k == Op::LOAD || op.k == Op::CONVERT || op.k == Op::OBJECT); if(known) { content = o.content; valid = op.valid; } }
                else if(known) { string why; if(!mv_equal(content, dump(e.t->root()), -1, why)) fail("content-changed", "%s changed the content of the tree: %s", op.show().c_str(), why.c_str()); }
                break;
            }
            case 1: {
                trace("clear");
                auto g = guarded([&] { e.t->clear(); });
                if(!g.ok()) fail("clear-failed", "%s", g.msg.c_str());
                auto& r = e.t->root();
                if(r.num_nodes() || r.num_values()) fail("not-empty", "a cleared tree has %zu nodes and %zu values", r.num_nodes(), r.num_values());
                content = MV(r.type()); known = valid = true; R->evals++;
                break;
            }
            case 2: {
                trace("move");
                bool assign = ch.chance(1, 2);
                unique_ptr<Tree> to; Guard g;
                if(assign) {
                    to.reset(new Tree());
                    if(ch.chance(2, 3)) { auto op = gen_op(ch); Env f; run_op(op, *to, f.p); }   // a used one
                    g = guarded([&] { *to = move(*e.t); });
                } else g = guarded([&] { to.reset(new Tree(move(*e.t))); });
                if(!g.ok()) fail("move-failed", "%s", g.msg.c_str());
                if(known) { string why; if(!mv_equal(content, dump(to->root()), -1, why)) fail("move-lost-content", "the moved tree's content: %s", why.c_str()); R->evals++; }
                // the tree moved from is as good as a new one, or goes away first
                auto from = move(e.t); e.t = move(to);
                if(ch.chance(1, 2)) {
                    auto op = gen_op(ch); Env f; Outcome ref = run_op(op, *f.t, f.p); auto o = run_op(op, *from, e.p); R->evals++;
                    if(o.key() != ref.key()) fail("moved-from", "%s on a tree that was moved from gives [%s], a fresh one [%s]", op.show().c_str(), o.key().c_str(), ref.key().c_str());
                    if(known) { string why; if(!mv_equal(content, dump(e.t->root()), -1, why)) fail("move-lost-content", "content after using the old tree: %s", why.c_str()); }
                }
                if(ch.chance(1, 4)) e.t.swap(from), known = false;
                break;
            }
            case 3: {
                if(!known || !valid) break;              // (damaged input may have brought text that is not UTF-8)
                auto fmt = gen_format(ch); auto w = gen_write_plan(ch);
                trace("save as %s to %s", fmt_name(fmt), show(w).c_str());
                bool odd = false; function<void(const MV&)> look = [&](const MV& m) { if(is_fp(m.tp) && (!(m.d - m.d == 0) || m.d == 0)) odd = true; for(auto& i : m.items) look(i.second); };
                look(content); if(odd && fmt >= F_JSON) break;
                string doc; Guard g;
                if(w.stream) { SimFile f; OutStream os(f, w.area, w.pieces); os.write(w.prefix.data(), w.prefix.size()); g = guarded([&] { e.t->to_source(os, *e.p[fmt]); }); doc = f.content.substr(min(f.content.size(), w.prefix.size())); }
                else { vector<uint8_t> v; g = guarded([&] { e.t->to_source(v, *e.p[fmt]); }); doc.assign(v.begin(), v.end()); }
                if(!g.ok()) fail("save-failed", "%s", g.msg.c_str());
                string why; MV got;
                try { got = decode(fmt, doc); } catch(DecodeError& x) { fail("save-malformed", "%s", x.msg.c_str()); }
                if(!mv_equal(content, got, fmt, why)) fail("save-differs", "%s", why.c_str());
                R->evals++;
                break;
            }
            case 4: {
                // edits go into the tree, not to an old output
                if(!known) break;
                trace("insert");
                auto name = gen_name(ch); auto text = gen_text(ch, false);
                auto g = guarded([&] { e.t->root().insert(name, text); });
                if(!g.ok()) fail("insert-failed", "%s", g.msg.c_str());
                size_t at = 0; while(at < content.items.size() && !content.items[at].second.scope()) at++;
                content.items.insert(content.items.begin() + at, { content.tp == Type::Object || true ? name : "", MV::str(text) });
                string why; if(!mv_equal(content, dump(e.t->root()), -1, why)) fail("insert-differs", "%s", why.c_str());
                R->evals++;
                break;
            }
            default: for(auto& p : e.p) if(ch.chance(1, 4)) { p = make_parser((int)(&p - e.p)); }
        }
    }
    steps_end();
}
static Register r1("C07", "history", 10, history);
}
