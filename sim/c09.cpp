// C09: editing a document follows a simple ordered model.
#include "ops.h"
#include <list>
namespace sim {
using namespace std;
using Srl::Node; using Srl::Value; using Srl::Union;
struct MVal  { Value* at = nullptr; const Srl::String* nm = nullptr; string name; MV v; };
struct MNode { Node* at = nullptr; const Srl::String* nm = nullptr; string name; Type tp = Type::Object; list<MVal> vals; list<MNode> nodes; };
template<class T> static T& nth(list<T>& l, size_t i) { return *next(l.begin(), i); }
static MV to_mv(const MNode& n)
{
    MV m(n.tp);
    for(auto& v : n.vals) m.items.push_back({ v.name, v.v });
    for(auto& c : n.nodes) m.items.push_back({ c.name, to_mv(c) });
    return m;
}
// the model of what was just made out of known content (values before nodes); the addresses come from the library
static MNode capture(Node& n, const MV& m, const string& name, bool named = true)
{
    MNode r; r.at = &n; r.nm = &n.name(); r.name = named ? name : plain_name(n.name()); r.tp = m.tp;
    size_t iv = 0, in = 0; bool kids = m.tp == Type::Object;
    for(auto& p : m.items) {
        if(p.second.scope()) { auto g = guarded([&] { r.nodes.push_back(capture(n.node(in++), p.second, p.first, kids)); }); if(!g.ok()) fail("item-missing", "item %s of inserted content is missing: %s", show_text(p.first).c_str(), g.msg.c_str()); }
        else { MVal v; auto g = guarded([&] { v.at = &n.value(iv++); v.nm = &v.at->name(); }); if(!g.ok()) fail("item-missing", "item %s of inserted content is missing: %s", show_text(p.first).c_str(), g.msg.c_str()); v.name = kids ? p.first : plain_name(v.at->name()); v.v = p.second; r.vals.push_back(v); }
    }
    return r;
}
static size_t size_of(const MNode& n) { size_t s = 1 + n.vals.size(); for(auto& c : n.nodes) s += size_of(c); return s; }
static int depth_of(const MNode& n) { int d = 0; for(auto& c : n.nodes) d = max(d, depth_of(c)); return d + 1; }

// what the narrowest floating point type can hold is stored in it
static void narrow(MV& m) { if(m.tp == Type::FP64 && (double)(float)m.d == m.d) m.tp = Type::FP32; for(auto& p : m.items) narrow(p.second); }
struct Doc { unique_ptr<Tree> t; MNode root; vector<shared_ptr<void>> keep; Mx mx; bool tainted = false; };
struct Free { int doc; unique_ptr<Node> n; MNode m; };
// what is inserted: content and how
struct Item { MV m; function<void(Node&, const Srl::String&)> put; shared_ptr<FieldBase> f; bool shared = false; int user = 0; };

struct World {
    Chooser& ch; Doc d[2]; list<Free> free; unique_ptr<Srl::Parser> p[4]; bool json; bool faults, often = false; uint64_t sig = 0;
    vector<string> names;
    World(Chooser& c) : ch(c)
    {
        for(int i = 0; i < 4; i++) p[i] = make_parser(i);
        json = ch.chance(1, 2); faults = ch.chance(2, 3);
        auto n = ch.range(2, 6);
        names.push_back("");
        for(uint32_t i = 0; i < n; i++) names.push_back(gen_name(ch));
        if(ch.chance(1, 5)) { auto k = ch.below(3) * 2; names.push_back(alike_names[k]); names.push_back(alike_names[k + 1]); }
        for(auto& x : d) fresh(x);
    }
    ~World() { drop(); schemas = default_schemas; }
    void drop() { free.clear(); }
    void fresh(Doc& x)
    {
        Type tp = ch.chance(1, 4) ? Type::Array : Type::Object; bool plain = tp == Type::Object && ch.chance(1, 2);
        auto g = guarded([&] { x.t.reset(plain ? new Tree() : new Tree(tp)); });
        if(!g.ok()) fail("construct-failed", "%s", g.msg.c_str());
        emptied(x, tp);
    }
    void emptied(Doc& x, Type tp) { x.root = MNode(); x.root.tp = tp; x.root.at = root(x); x.root.nm = nullptr; x.mx = Mx(); x.keep.clear(); x.tainted = false; }
    Node* root(Doc& x) { Node* n = nullptr; auto g = guarded([&] { n = &x.t->root(); }); if(!g.ok()) fail("no-root", "%s", g.msg.c_str()); return n; }
    string name() { if(ch.chance(1, 12)) return gen_name(ch); return ch.of(names); }
    int fmt() { return json ? (int)ch.below(4) : (int)ch.below(2); }

    //------------------------------------------------------------ comparing
    void check(MNode& n, const char* after, const string& path)
    {
        R->evals++;
        auto at = [&](const string& s) { return path + "/" + s; };
        if(n.at->type() != n.tp) fail("wrong-type", "after %s %s has type %d instead of %d", after, path.c_str(), (int)n.at->type(), (int)n.tp);
        if(n.nm && (&n.at->name() != n.nm || plain_name(*n.nm) != n.name)) fail("wrong-name", "after %s %s is called %s instead of %s", after, path.c_str(), show_text(plain_name(n.at->name())).c_str(), show_text(n.name).c_str());
        if(n.at->num_values() != n.vals.size() || n.at->num_nodes() != n.nodes.size()) fail("wrong-number-of-items", "after %s %s has %zu values and %zu nodes instead of %zu and %zu", after, path.c_str(), n.at->num_values(), n.at->num_nodes(), n.vals.size(), n.nodes.size());
        vector<Value*> vs; vector<Node*> ns;
        auto g = guarded([&] {
            switch(ch.below(3)) {
                case 0: for(size_t i = 0; i < n.vals.size(); i++) { auto* v = &n.at->value(i); HarnessScope h; vs.push_back(v); } for(size_t i = 0; i < n.nodes.size(); i++) { auto* v = &n.at->node(i); HarnessScope h; ns.push_back(v); } break;
                case 1: n.at->foreach_value([&](Value& v) { HarnessScope h; vs.push_back(&v); }); n.at->foreach_node([&](Node& v) { HarnessScope h; ns.push_back(&v); }); break;
                default: { auto a = n.at->all_values(); auto b = n.at->all_nodes(); HarnessScope h; vs.assign(a.begin(), a.end()); ns.assign(b.begin(), b.end()); }
            }
        });
        if(!g.ok()) fail("iterate-failed", "after %s: %s", after, g.msg.c_str());
        if(vs.size() != n.vals.size() || ns.size() != n.nodes.size()) fail("wrong-number-of-items", "after %s iterating %s visits %zu values and %zu nodes instead of %zu and %zu", after, path.c_str(), vs.size(), ns.size(), n.vals.size(), n.nodes.size());
        size_t i = 0; string why;
        for(auto& v : n.vals) {
            if(vs[i] != v.at) fail("reference-invalid", "after %s value %zu of %s is another item than before", after, i, path.c_str());
            if(v.nm != &v.at->name() || plain_name(*v.nm) != v.name) fail("wrong-name", "after %s value %zu of %s is called %s instead of %s", after, i, path.c_str(), show_text(plain_name(v.at->name())).c_str(), show_text(v.name).c_str());
            MV got; auto g2 = guarded([&] { got = dump_value(*v.at); });
            if(!g2.ok()) fail("unreadable", "after %s value %zu of %s: %s", after, i, path.c_str(), g2.msg.c_str());
            if(!mv_equal(v.v, got, -1, why, at(v.name))) fail("wrong-content", "after %s %s", after, why.c_str());
            i++;
        }
        i = 0;
        for(auto& c : n.nodes) { if(ns[i] != c.at) fail("reference-invalid", "after %s node %zu of %s is another item than before", after, i, path.c_str()); check(c, after, at(c.name)); i++; }
    }
    void check_all(const char* after)
    {
        for(int i = 0; i < 2; i++) { if(root(d[i]) != d[i].root.at) fail("reference-invalid", "after %s the root of document %d is another item than before", after, i); check(d[i].root, after, "document " + to_string(i)); }
        int k = 0; for(auto& f : free) check(f.m, after, "node " + to_string(k++));
        if(sizes() > 400) for(auto& x : d) if(size_of(x.root) > 150) clear(x);
    }
    size_t sizes() { size_t s = 0; for(auto& x : d) s += size_of(x.root); for(auto& f : free) s += size_of(f.m); return s; }
    void clear(Doc& x)
    {
        drop();
        auto tp = x.root.tp;
        auto g = guarded([&] { x.t->clear(); });
        if(!g.ok()) fail("clear-failed", "%s", g.msg.c_str());
        emptied(x, tp);
    }

    //------------------------------------------------------------ addressing
    struct At { MNode* n; int doc; MNode* parent; string path; };
    void collect(MNode& n, int doc, MNode* parent, const string& path, vector<At>& out) { out.push_back({ &n, doc, parent, path }); for(auto& c : n.nodes) collect(c, doc, &n, path + "/" + c.name, out); }
    vector<At> places()
    {
        vector<At> a; for(int i = 0; i < 2; i++) collect(d[i].root, i, nullptr, "document " + to_string(i), a);
        int k = 0; for(auto& f : free) collect(f.m, f.doc, nullptr, "node " + to_string(k++), a);
        return a;
    }
    At place() { auto a = places(); return a[ch.chance(1, 3) ? ch.below(2) && a.size() > 1 ? 0 : (uint32_t)a.size() - 1 : ch.below((uint32_t)a.size())]; }

    //------------------------------------------------------------ content
    Item scalar()
    {
        Item it; DocOpts o; o.special_fp = !json; o.big = ch.chance(1, 8);
        it.m = gen_scalar(ch, o);
        auto m = it.m; int enc = ch.below(3), how = ch.below(3);
        it.put = [this, m, enc, how](Node& n, const Srl::String& nm) {
            switch(m.tp) {
                case Type::Null:   n.insert(nm, Value()); return;
                case Type::Bool:   how ? n.insert(nm, m.b) : n.insert(nm, Value(m.b)); return;
                case Type::FP32:   how ? n.insert(nm, (float)m.d) : n.insert(nm, Value((float)m.d)); return;
                case Type::FP64:   how ? n.insert(nm, m.d) : n.insert(nm, Value(m.d)); return;
                case Type::I8:     n.insert(nm, (int8_t)m.i); return;
                case Type::UI8:    n.insert(nm, (uint8_t)m.u); return;
                case Type::I16:    n.insert(nm, (int16_t)m.i); return;
                case Type::UI16:   n.insert(nm, (uint16_t)m.u); return;
                case Type::I32:    n.insert(nm, (int32_t)m.i); return;
                case Type::UI32:   n.insert(nm, (uint32_t)m.u); return;
                case Type::I64:    how ? n.insert(nm, m.i) : n.insert(nm, Value(m.i)); return;
                case Type::UI64:   how ? n.insert(nm, m.u) : n.insert(nm, Value(m.u)); return;
                case Type::String: {
                    in_harness++; SrlName s(m.s, enc); in_harness--;
                    struct Wipe { SrlName& s; ~Wipe() { s.wipe(); } } w { s };
                    if(how == 0) n.insert(nm, Value(Srl::Lib::MemBlock(s.s.data(), s.s.size()), s.s.encoding()));
                    else if(how == 1) n.insert(nm, s.s);
                    else if(enc == 1) n.insert(nm, s.w16); else if(enc == 2) n.insert(nm, s.w32);
                    else n.insert(nm, s.w8);
                    return;
                }
                case Type::Binary: {
                    in_harness++; string b = m.s; in_harness--;
                    struct Wipe { string& s; ~Wipe() { for(auto& c : s) c = '#'; } } w { b };
                    n.insert(nm, Value(Srl::Lib::MemBlock((const uint8_t*)b.data(), b.size()), Type::Binary));
                    return;
                }
                default: fail("harness", "no such scalar");
            }
        };
        narrow(it.m);
        return it;
    }
    Item object(Doc& x)
    {
        for(int k = 0; k < 4; k++) {
            Item it; auto c = gen_case(ch, json ? F_JSON : F_SRL, ch.chance(1, 10));
            shared_ptr<Case> cs(move(c));
            auto all = string(cs->f->type_name());
            for(auto& s : cs->own) for(auto& f : s.f) all += string(" ") + f.type->name;
            it.shared = all.find("shared") != string::npos || all.find("Watched") != string::npos;
            if(it.shared && x.tainted) continue;
            Mx mx = x.mx; MV par(Type::Object);
            cs->use(); cs->f->model(par, "x", mx);
            if(par.items.size() != 1) continue;
            it.m = split(par.items[0].second); narrow(it.m);
            it.f = shared_ptr<FieldBase>(cs, cs->f.get());
            it.put = [cs](Node& n, const Srl::String& nm) { cs->use(); cs->f->insert(n, nm); };
            return it;
        }
        return scalar();
    }
    Item wrap(int depth, Doc& x)
    {
        Item it; it.m = MV(ch.chance(1, 3) ? Type::Array : Type::Object);
        auto n = ch.below(4); vector<pair<pair<string, int>, Item>> kids;
        for(uint32_t i = 0; i < n; i++) {
            SpanScope sp(ch); auto k = depth < 2 && ch.chance(1, 4) ? wrap(depth + 1, x) : scalar();
            auto nm = name(); kids.push_back({ { nm, ch.below(3) }, k }); it.m.items.push_back({ nm, k.m });
        }
        it.m = split(it.m);
        int throws = faults && ch.chance(1, 12) ? (int)ch.below(n + 1) : -1;
        it.user = throws >= 0;
        auto tp = it.m.tp;
        for(auto& k : kids) if(k.second.user) it.user = 1;
        it.put = [kids, throws, tp](Node& n, const Srl::String& nm) {
            n.insert(nm, Srl::ScopeWrap([&](Node& c) {
                int i = 0;
                for(auto& k : kids) { if(i++ == throws) { count("fault.user_throws"); throw UserError { 7 }; } in_harness++; SrlName s(k.first.first, k.first.second); in_harness--; k.second.put(c, s.s); s.wipe(); }
                if(i == throws) { count("fault.user_throws"); throw UserError { 7 }; }
            }, tp));
        };
        return it;
    }
    Item list_of()
    {
        Item it; it.m = MV(Type::Array); int a = ch.below(3); auto v = (int64_t)ch.u64(); auto s = gen_text(ch, false);
        if(a == 0) { it.m.items = { { "", MV::num(Type::I64, v) }, { "", MV::num(Type::I64, v + 0) }, { "", MV::num(Type::I64, (int64_t)3) } }; it.put = [v](Node& n, const Srl::String& nm) { n.insert(nm, { v, v, (int64_t)3 }); }; }
        else if(a == 1) { it.m.items = { { "", MV::str(s) }, { "", MV::str("b") } }; it.put = [s](Node& n, const Srl::String& nm) { in_harness++; string c = s; in_harness--; n.insert(nm, { c, string("b") }); }; }
        else { it.m.items = { { "", MV(Type::Array) } }; it.m.items[0].second.items.push_back({ "", MV::num(Type::I32, 5) }); it.put = [](Node& n, const Srl::String& nm) { in_harness++; vector<int> w { 5 }; in_harness--; n.insert(nm, { w }); }; }
        return it;
    }
    Item copy_of(string& what)
    {
        auto src = place(); Item it;
        if(!src.n->vals.empty() && ch.chance(1, 3)) {
            auto& v = nth(src.n->vals, ch.below((uint32_t)src.n->vals.size())); it.m = v.v; auto* at = v.at;
            bool own = ch.chance(1, 3);
            what = "copy of value " + show_text(v.name) + " of " + src.path;
            it.put = [at, own](Node& n, const Srl::String& nm) { if(own) { Value c = *at; n.insert(nm, c); } else n.insert(nm, *at); };
            return it;
        }
        if(size_of(*src.n) > 80 || depth_of(*src.n) > 12) return scalar();
        it.m = to_mv(*src.n); auto* at = src.n->at; bool own = ch.chance(1, 3);
        what = "copy of " + src.path;
        it.put = [at, own](Node& n, const Srl::String& nm) { if(own) { Node c = *at; n.insert(nm, c); } else n.insert(nm, *at); };
        return it;
    }

    //------------------------------------------------------------ faults
    struct Armed { int kind = 0; uint64_t fired = 0; bool on = false; };
    Armed arm(bool user)
    {
        Armed a;
        if(!faults || !(often ? ch.chance(1, 2) : ch.chance(1, 5))) return a;
        a.on = true; a.kind = ch.pick({ 4, 1, user ? 2u : 0u });
        uint64_t at = 1 + ch.below(ch.chance(2, 3) ? 4 : 40);
        if(a.kind == 0) alloc_arm(at, ch.chance(1, 3));
        else if(a.kind == 1) { iconv_fail_at = 1 + ch.below(2); iconv_seen = 0; a.fired = iconv_fired; }
        else { UF.at = at; UF.seen = 0; UF.fired = 0; }
        return a;
    }
    void disarm(Armed& a)
    {
        if(!a.on) return;
        if(a.kind == 0) { a.fired = alloc_disarm(); if(a.fired) count("fault.alloc_fail", a.fired); }
        else if(a.kind == 1) { a.fired = iconv_fired - a.fired; iconv_fail_at = 0; if(a.fired) count("fault.iconv_open_fail", a.fired); }
        else { a.fired = UF.fired; UF = UserFaults(); }
    }

    //------------------------------------------------------------ operations
    void insert()
    {
        auto at = place(); auto& x = d[at.doc]; auto& n = *at.n;
        vector<pair<string, Item>> its; string what; bool paired = false, unnamed = false;
        switch(ch.pick({ 8, 3, 3, 1, 4, 2, 2 })) {
            case 0: its.push_back({ name(), scalar() }); what = "value"; break;
            case 1: its.push_back({ name(), object(x) }); what = "object"; break;
            case 2: its.push_back({ name(), wrap(0, x) }); what = "scope"; break;
            case 3: its.push_back({ name(), list_of() }); what = "list"; break;
            case 4: its.push_back({ name(), copy_of(what) }); break;
            case 5: { paired = true; what = "pairs"; auto v = (int)ch.u64(); auto s = gen_text(ch, false); Item a, b, c; a.m = MV::num(Type::I32, v); b.m = MV::str(s); c.m = MV::boolean(true); its.push_back({ name(), a }); its.push_back({ name(), b }); its.push_back({ name(), c }); break; }
            default: { unnamed = true; what = "unnamed value"; Item a; auto k = ch.below(3); auto s = gen_text(ch, false); auto v = (int)ch.u64();
                if(k == 0) { a.m = MV::num(Type::I32, v); a.put = [v](Node& n, const Srl::String&) { n.insert(v); }; }
                else if(k == 1) { a.m = MV::str(s); a.put = [s](Node& n, const Srl::String&) { in_harness++; string c = s; in_harness--; n.insert(c); in_harness++; for(auto& q : c) q = '#'; in_harness--; }; }
                else { a.m = MV(Type::Array); a.m.items.push_back({ "", MV::num(Type::I32, v) }); a.put = [v](Node& n, const Srl::String&) { in_harness++; vector<int> w { v }; in_harness--; n.insert(w); }; }
                its.push_back({ "", a }); }
        }
        int enc = ch.below(3); bool user = false;
        for(auto& i : its) user |= i.second.user;
        // the name of an existing item, as the library keeps it
        const Srl::String* kept = nullptr;
        if(!paired && !unnamed && !n.vals.empty() && ch.chance(1, 10)) { auto& v = nth(n.vals, ch.below((uint32_t)n.vals.size())); kept = v.nm; its[0].first = v.name; }
        auto f = arm(its[0].second.f != nullptr);
        Node* res = n.at;
        auto g = guarded([&] {
            if(paired) {
                in_harness++; SrlName a(its[0].first, enc), b(its[1].first, 0), c(its[2].first, enc); string s = its[1].second.m.s; in_harness--;
                struct Wipe { SrlName &a, &b, &c; string& s; ~Wipe() { a.wipe(); b.wipe(); c.wipe(); for(auto& q : s) q = '#'; } } w { a, b, c, s };
                res = &n.at->insert(a.s, (int)its[0].second.m.i, b.s, s, c.s, true);
            } else if(kept) its[0].second.put(*n.at, *kept);
            else { in_harness++; SrlName s(its[0].first, enc); in_harness--; its[0].second.put(*n.at, s.s); s.wipe(); }
        });
        disarm(f);
        trace("insert %s %s%s into %s: %s -> %s %s%s", what.c_str(), show_text(its[0].first).c_str(), enc == 1 ? "u16" : enc == 2 ? "u32" : "", at.path.c_str(), show(its[0].second.m, 120).c_str(), verdict_name(g.v), g.msg.c_str(), f.fired ? " (fault)" : "");
        note(1 + (uint32_t)its[0].second.m.tp, f.fired);
        if(g.ok() && user) fail("error-swallowed", "the exception of a callback was not passed on");
        if(!g.ok() && !f.fired && !user) fail("healthy-refused", "inserting %s failed: %s", show(its[0].second.m, 200).c_str(), g.msg.c_str());
        if(res != n.at) fail("wrong-result", "insert returns another node");
        bool has_shared = its[0].second.shared;
        if(g.ok()) {
            for(auto& i : its) add(x, n, i.first, i.second);
            if(has_shared) { x.keep.push_back(its[0].second.f); MV par(Type::Object); its[0].second.f->model(par, "x", x.mx); }
            return;
        }
        if(has_shared) { x.keep.push_back(its[0].second.f); x.tainted = true; }
        // what was there is as it was; parts of the new item might be at the end
        size_t nv = n.at->num_values(), nn = n.at->num_nodes(), done = 0;
        for(auto& i : its) { if(done + n.vals.size() + n.nodes.size() >= nv + nn) break; if(i.second.m.scope()) break; MV got; if(n.vals.size() + done >= nv) break; auto g2 = guarded([&] { got = dump_value(n.at->value(n.vals.size() + done)); }); string why; if(!g2.ok() || !mv_equal(i.second.m, got, -1, why)) break; done++; }
        for(size_t i = 0; i < done; i++) add(x, n, its[i].first, its[i].second);
        if(nv != n.vals.size() || (nn != n.nodes.size() && !(nn == n.nodes.size() + 1 && its[done < its.size() ? done : 0].second.m.scope())))
            fail("failed-insert-changed", "a failed insert left %zu values and %zu nodes instead of %zu and %zu", nv, nn, n.vals.size(), n.nodes.size());
        if(nn != n.nodes.size()) { auto g2 = guarded([&] { n.at->remove_node(nn - 1); }); if(!g2.ok()) fail("remove-failed", "%s", g2.msg.c_str()); }
    }
    void add(Doc&, MNode& n, const string& nm, const Item& it)
    {
        if(it.m.scope()) {
            if(n.at->num_nodes() <= n.nodes.size()) fail("not-inserted", "an inserted node is not there");
            Node* c = nullptr; auto g = guarded([&] { c = &n.at->node(n.nodes.size()); });
            if(!g.ok()) fail("not-inserted", "%s", g.msg.c_str());
            string why; auto got = dump(*c);
            if(!mv_equal(it.m, got, -1, why, nm)) fail("wrong-content", "after inserting %s", why.c_str());
            n.nodes.push_back(capture(*c, it.m, nm));
        } else {
            if(n.at->num_values() <= n.vals.size()) fail("not-inserted", "an inserted value is not there");
            MVal v; v.name = nm; v.v = it.m;
            auto g = guarded([&] { v.at = &n.at->value(n.vals.size()); v.nm = &v.at->name(); });
            if(!g.ok()) fail("not-inserted", "%s", g.msg.c_str());
            n.vals.push_back(v);
        }
    }
    void note(uint32_t k, bool fault) { sig = sig << 8 | (k * 2 + fault); uint64_t s = sig & 0xFFFFFF; state(fnv(&s, sizeof s)); }
    void remove()
    {
        auto at = place(); auto& n = *at.n;
        bool node = ch.chance(1, 2); auto how = ch.below(3);
        size_t have = node ? n.nodes.size() : n.vals.size(), idx = ch.chance(1, 8) ? have + ch.below(3) : have ? ch.below((uint32_t)have) : 0;
        auto nm = have && ch.chance(3, 4) ? node ? nth(n.nodes, ch.below((uint32_t)have)).name : nth(n.vals, ch.below((uint32_t)have)).name : name();
        auto enc = ch.below(3);
        Node* pn = nullptr; Value* pv = nullptr;
        if(how == 2) {
            if(node) pn = have && ch.chance(4, 5) ? nth(n.nodes, idx % have).at : ch.chance(1, 3) ? nullptr : place().n->at;
            else { auto o = place(); pv = have && ch.chance(4, 5) ? nth(n.vals, idx % have).at : o.n->vals.empty() ? nullptr : o.n->vals.front().at; }
        }
        const Srl::String* kept = nullptr;
        if(how == 1 && have && ch.chance(1, 6)) { kept = node ? nth(n.nodes, idx % have).nm : nth(n.vals, idx % have).nm; nm = node ? nth(n.nodes, idx % have).name : nth(n.vals, idx % have).name; }
        auto f = arm(false);
        auto g = guarded([&] {
            if(how == 0) node ? n.at->remove_node(idx) : n.at->remove_value(idx);
            else if(how == 2) node ? n.at->remove_node(pn) : n.at->remove_value(pv);
            else if(kept) node ? n.at->remove_node(*kept) : n.at->remove_value(*kept);
            else { in_harness++; SrlName s(nm, enc); in_harness--; node ? n.at->remove_node(s.s) : n.at->remove_value(s.s); s.wipe(); }
        });
        disarm(f);
        trace("remove %s %s from %s -> %s %s%s", node ? "node" : "value", how == 0 ? to_string(idx).c_str() : how == 1 ? show_text(nm).c_str() : "by address", at.path.c_str(), verdict_name(g.v), g.msg.c_str(), f.fired ? " (fault)" : "");
        note(40 + how * 2 + node, f.fired);
        if(!g.ok()) { if(!f.fired) fail("healthy-refused", "removing failed: %s", g.msg.c_str()); return; }
        if(node) for(auto i = n.nodes.begin(); i != n.nodes.end(); ++i) { if(how == 0 ? idx-- == 0 : how == 1 ? i->name == nm : i->at == pn) { n.nodes.erase(i); break; } }
        else for(auto i = n.vals.begin(); i != n.vals.end(); ++i) { if(how == 0 ? idx-- == 0 : how == 1 ? i->name == nm : i->at == pv) { n.vals.erase(i); break; } }
    }
    static void pre_nodes(MNode& n, bool rec, const function<void(MNode&)>& f) { for(auto& c : n.nodes) { f(c); if(rec) pre_nodes(c, rec, f); } }
    static void pre_vals(MNode& n, bool rec, const function<void(MVal&)>& f) { for(auto& v : n.vals) f(v); if(rec) pre_nodes(n, true, [&](MNode& c) { for(auto& v : c.vals) f(v); }); }
    void search()
    {
        auto at = place(); auto& n = *at.n; auto nm = name(); auto enc = ch.below(3); bool rec = ch.chance(2, 3), all = ch.chance(1, 3), each = ch.chance(1, 3), plain = !rec && ch.chance(1, 2);
        vector<Node*> wn; vector<Value*> wv; list<Node*> gn; list<Value*> gv;
        pre_nodes(n, rec, [&](MNode& c) { if(all || c.name == nm) wn.push_back(c.at); });
        pre_vals(n, rec, [&](MVal& v) { if(all || v.name == nm) wv.push_back(v.at); });
        int throws = faults && all && each && ch.chance(1, 4) ? (int)ch.below(4) : -1;
        in_harness++; SrlName s(nm, enc); in_harness--;
        auto f = arm(false);
        auto g = guarded([&] {
            if(all && each) {
                int k = 0;
                auto fn = [&](Node& c) { if(k++ == throws) throw UserError { 8 }; HarnessScope h; gn.push_back(&c); };
                auto fv = [&](Value& c) { if(k++ == throws) throw UserError { 8 }; HarnessScope h; gv.push_back(&c); };
                if(plain) { n.at->foreach_node(fn); n.at->foreach_value(fv); } else { n.at->foreach_node(fn, rec); n.at->foreach_value(fv, rec); }
            } else if(all && plain) { gn = n.at->all_nodes(); gv = n.at->all_values(); }
            else if(plain) { gn = n.at->find_nodes(s.s); gv = n.at->find_values(s.s); }
            else if(all) { gn = n.at->all_nodes(rec); gv = n.at->all_values(rec); }
            else { gn = n.at->find_nodes(s.s, rec); gv = n.at->find_values(s.s, rec); }
        });
        disarm(f); s.wipe();
        trace("search %s%s in %s -> %zu nodes, %zu values %s%s", all ? "everything" : show_text(nm).c_str(), rec ? " recursively" : "", at.path.c_str(), gn.size(), gv.size(), verdict_name(g.v), f.fired ? " (fault)" : "");
        note(60 + rec + 2 * all, f.fired);
        R->evals++;
        if(!g.ok()) { if(!f.fired && !(g.v == V_USER && throws >= 0)) fail("healthy-refused", "searching failed: %s", g.msg.c_str()); return; }
        if(vector<Node*>(gn.begin(), gn.end()) != wn) fail("wrong-search", "searching for nodes finds %zu items (expected %zu), or others, or in another order", gn.size(), wn.size());
        if(vector<Value*>(gv.begin(), gv.end()) != wv) fail("wrong-search", "searching for values finds %zu items (expected %zu), or others, or in another order", gv.size(), wv.size());
    }
    void lookup()
    {
        auto at = place(); auto& n = *at.n; auto enc = ch.below(3); string nm = name();
        if(!n.vals.empty() && ch.chance(1, 3)) nm = nth(n.vals, ch.below((uint32_t)n.vals.size())).name;
        else if(!n.nodes.empty() && ch.chance(1, 3)) nm = nth(n.nodes, ch.below((uint32_t)n.nodes.size())).name;
        size_t idx = ch.below((uint32_t)max(n.vals.size(), n.nodes.size()) + 2);
        MVal* wv = nullptr; MNode* wn = nullptr; MVal* iv = idx < n.vals.size() ? &nth(n.vals, idx) : nullptr; MNode* in = idx < n.nodes.size() ? &nth(n.nodes, idx) : nullptr;
        for(auto& v : n.vals) if(v.name == nm) { wv = &v; break; }
        for(auto& c : n.nodes) if(c.name == nm) { wn = &c; break; }
        in_harness++; SrlName s(nm, enc); in_harness--;
        auto way = ch.below(13); bool root = n.at == d[0].root.at || n.at == d[1].root.at;
        Node* gn = nullptr; Value* gv = nullptr; bool none = false;
        auto f = arm(false);
        auto take = [&](Union u) { if(u.is_node()) gn = u.node(); if(u.is_value()) gv = u.value(); if(u.is_node() && u.is_value()) fail("wrong-lookup", "an item is a node and a value"); };
        auto opt = [&](optional<Union> u) { if(u) take(*u); else none = true; };
        bool byname = true, hn = false, hv = false; MVal* xv = nullptr; MNode* xn = nullptr;
        auto g = guarded([&] {
            switch(way) {
                case 0: xv = wv; gv = &n.at->value(s.s); break;
                case 1: xn = wn; gn = &n.at->node(s.s); break;
                case 2: xv = wv; if(!wv) xn = wn; take(n.at->get(s.s)); break;
                case 3: xv = wv; if(!wv) xn = wn; opt(n.at->try_get(s.s)); break;
                case 4: xv = wv; if(!wv) xn = wn; take((*n.at)[s.s]); break;
                case 5: byname = false; xv = iv; gv = &n.at->value(idx); break;
                case 6: byname = false; xn = in; gn = &n.at->node(idx); break;
                case 7: byname = false; xn = in; if(!in) xv = iv; take(n.at->get(idx)); break;
                case 8: byname = false; xn = in; if(!in) xv = iv; opt(n.at->try_get(idx)); break;
                case 9: hn = n.at->has_node(s.s); hv = n.at->has_value(s.s); break;
                case 10: xv = wv; if(!wv) xn = wn; if(root) { auto& t = n.at == d[0].root.at ? *d[0].t : *d[1].t; if(enc) opt(t.try_get(s.s)); else take(t.get(s.s)); } else take(Union(*n.at).get(s.s)); break;
                case 11: xv = wv; if(!wv) xn = wn; { Union u; if(!n.vals.empty() && ch.chance(1, 3)) { u = Union(*n.vals.front().at); if(u.try_get(s.s)) fail("wrong-lookup", "an item of a value was found"); bool threw = false; try { u.get(s.s); } catch(Srl::Exception&) { threw = true; } if(!threw) fail("wrong-lookup", "an item of a value was found"); } opt(Union(*n.at).try_get(s.s)); } break;
                default: { Union e; bool a = false, b = false; try { e.get(s.s); } catch(Srl::Exception&) { a = true; } try { int v = e; (void)v; } catch(Srl::Exception&) { b = true; } if(!a || !b || e.try_get(s.s) || e.unwrap_if<int>() || e.is_node() || e.is_value()) fail("wrong-lookup", "an empty union yields something"); xv = wv; if(!wv) xn = wn; take(n.at->get(s.s)); }
            }
        });
        disarm(f); s.wipe();
        trace("look up (%u) %s in %s -> %s %s%s", way, byname ? show_text(nm).c_str() : to_string(idx).c_str(), at.path.c_str(), verdict_name(g.v), g.msg.c_str(), f.fired ? " (fault)" : "");
        note(70 + way, f.fired);
        R->evals++;
        if(f.fired && !g.ok()) return;
        if(f.fired && none && (xv || xn)) fail("fault-hidden", "looking up %s tells that nothing is there, because a resource was missing", byname ? show_text(nm).c_str() : to_string(idx).c_str());
        if(way == 9) { if(!g.ok()) fail("lookup-failed", "%s", g.msg.c_str()); if(hn != (wn != nullptr) || hv != (wv != nullptr)) fail("wrong-lookup", "has_node %d has_value %d for %s, expected %d and %d", hn, hv, show_text(nm).c_str(), wn != nullptr, wv != nullptr); return; }
        bool want = xv || xn;
        if(!g.ok() && g.v != V_SRL) fail("wrong-error", "a lookup ended with %s", verdict_name(g.v));
        if(want != (g.ok() && !none)) fail("wrong-lookup", "item %s is %s: %s", byname ? show_text(nm).c_str() : to_string(idx).c_str(), want ? "not found" : "found although it is not there", g.msg.c_str());
        if(want && (gv != (xv ? xv->at : nullptr) || gn != (xn ? xn->at : nullptr))) fail("wrong-lookup", "looking up %s finds another item", byname ? show_text(nm).c_str() : to_string(idx).c_str());
    }
    // reading content out leaves the document alone
    void read()
    {
        auto at = place(); auto& n = *at.n;
        auto w = [&](const char* what, const MV& m, const string& got, const string& want) { R->evals++; if(got != want) fail("wrong-value", "%s of %s reads %s", what, show(m).c_str(), show_text(got).c_str()); };
        auto f = arm(false);
        int i = 0; string first; bool have = false; MV fm;
        auto g = guarded([&] {
            for(auto& v : n.vals) {
                if(++i > 4) break;
                Union u(*v.at);
                if(v.v.tp == Type::String) { auto s = v.at->unwrap<string>(); auto s2 = u.unwrap<u16string>(); string s3 = u; auto s4 = n.at->unwrap_field<string>((size_t)(i - 1)); auto s5 = u.unwrap_if<string>(); HarnessScope h; if(!s5) { if(f.kind != 1) fail("fault-hidden", "a text does not read as one"); } else w("text", v.v, *s5, v.v.s);  w("text", v.v, s, v.v.s); w("text", v.v, utf16_to_utf8(s2), v.v.s); w("text", v.v, s3, v.v.s); w("text", v.v, s4, v.v.s); auto o = [&] { LibScope l; int z = in_harness; in_harness = 0; auto r = u.unwrap_if<vector<int>>(); in_harness = z; return r.has_value(); }(); if(o) fail("wrong-value", "a value reads as a scope"); }
                else if(is_int(v.v.tp)) { if(neg(v.v)) { auto k = v.at->unwrap<int64_t>(); int64_t l; u.copy_to(l); HarnessScope h; w("number", v.v, to_string(k), to_string(v.v.i)); w("number", v.v, to_string(l), to_string(v.v.i)); } else { auto k = v.at->unwrap<uint64_t>(); auto l = u.unwrap_if<uint64_t>(); HarnessScope h; w("number", v.v, to_string(k), to_string(mag(v.v))); if(!l) fail("fault-hidden", "a number does not read as one"); w("number", v.v, to_string(*l), to_string(mag(v.v))); } }
            }
            if(n.tp == Type::Array && n.nodes.empty() && !n.vals.empty()) {
                bool text = true, num = true; for(auto& v : n.vals) { text &= v.v.tp == Type::String; num &= is_int(v.v.tp) && !neg(v.v); }
                if(text) { auto l = n.at->unwrap<vector<string>>(); list<string> l2; n.at->paste(l2); auto l3 = Union(*n.at).unwrap_if<vector<string>>(); HarnessScope h; if(!l3 ? f.kind != 1 : *l3 != l) fail("fault-hidden", "a list reads otherwise"); if(l.size() != n.vals.size() || l2.size() != l.size()) fail("wrong-value", "a list reads %zu of %zu items", l.size(), n.vals.size()); size_t k = 0; for(auto& v : n.vals) w("item", v.v, l[k++], v.v.s); }
                else if(num) { auto l = n.at->unwrap<vector<uint64_t>>(); HarnessScope h; if(l.size() != n.vals.size()) fail("wrong-value", "a list reads %zu of %zu items", l.size(), n.vals.size()); size_t k = 0; for(auto& v : n.vals) w("item", v.v, to_string(l[k++]), to_string(mag(v.v))); }
            }
        });
        disarm(f);
        trace("read %s -> %s %s%s", at.path.c_str(), verdict_name(g.v), g.msg.c_str(), f.fired ? " (fault)" : "");
        note(90, f.fired);
        if(!g.ok() && !f.fired) fail("healthy-refused", "reading failed: %s", g.msg.c_str());
    }
    void save(bool reload)
    {
        auto at = place(); if(ch.chance(1, 2)) { int i = ch.below(2); at = { &d[i].root, i, nullptr, "document " + to_string(i) }; }
        int fm = fmt(), into = ch.below(2); bool whole = at.n->at == d[at.doc].root.at && ch.chance(1, 2), mem = ch.chance(1, 2);
        vector<uint8_t> bytes; SimFile file; auto wp = gen_write_plan(ch);
        auto f = arm(false);
        Guard g;
        if(mem) g = guarded([&] { if(whole) bytes = d[at.doc].t->to_source(*p[fm]); else bytes = at.n->at->to_source(*p[fm]); });
        else if(!wp.stream) g = guarded([&] { if(whole) d[at.doc].t->to_source(bytes, *p[fm]); else at.n->at->to_source(bytes, *p[fm]); });
        else {
            OutStream os(file, wp.area, wp.pieces);
            g = guarded([&] { if(whole) d[at.doc].t->to_source(os, *p[fm]); else at.n->at->to_source(os, *p[fm]); });
            bytes.assign(file.content.begin(), file.content.end());
        }
        disarm(f);
        trace("save %s as %s -> %zu bytes %s %s%s", at.path.c_str(), fmt_name(fm), bytes.size(), verdict_name(g.v), g.msg.c_str(), f.fired ? " (fault)" : "");
        note(100 + fm, f.fired);
        if(!g.ok()) { if(!f.fired) fail("healthy-refused", "saving failed: %s", g.msg.c_str()); return; }
        auto want = to_mv(*at.n); string why, doc(bytes.begin(), bytes.end());
        MV got;
        try { got = decode(fm, doc); } catch(DecodeError& e) { fail("bad-document", "the saved document is malformed: %s", e.msg.c_str()); }
        R->evals++;
        if(!mv_equal(want, got, fm, why)) fail("wrong-document", "the saved document differs: %s", why.c_str());
        if(!reload) return;
        drop();
        auto r = gen_read_plan(ch);
        auto f2 = arm(false);
        auto g2 = with_source(doc, r, [&](Srl::Lib::In::Source s) { d[into].t->load_source(s, *p[fm]); });
        disarm(f2);
        trace("load it into document %d -> %s %s%s", into, verdict_name(g2.v), g2.msg.c_str(), f2.fired ? " (fault)" : "");
        note(110 + fm, f2.fired);
        if(!g2.ok()) {
            if(!f2.fired) fail("healthy-refused", "loading failed: %s", g2.msg.c_str());
            auto gc = guarded([&] { d[into].t->clear(); }); if(!gc.ok()) fail("clear-failed", "%s", gc.msg.c_str());
            emptied(d[into], root(d[into])->type());
            return;
        }
        auto& x = d[into]; auto now = dump(*root(x));
        if(!mv_equal(want, now, fm, why)) fail("wrong-document", "the reloaded document differs: %s", why.c_str());
        x.mx = Mx(); x.keep.clear(); x.tainted = true;
        x.root = capture(*root(x), now, "", false);
    }
    void free_node()
    {
        if(!free.empty() && (free.size() > 3 || ch.chance(1, 3))) { auto i = next(free.begin(), ch.below((uint32_t)free.size())); trace("drop a node"); free.erase(i); return; }
        Free f; f.doc = ch.below(2); auto from = place(); bool copy = from.doc == f.doc && size_of(*from.n) < 60 && ch.chance(1, 3);
        auto g = guarded([&] { f.n.reset(copy ? new Node(*from.n->at) : new Node(*d[f.doc].t)); });
        if(!g.ok()) fail("construct-failed", "%s", g.msg.c_str());
        trace("new node %s", copy ? ("copied from " + from.path).c_str() : "");
        if(copy) { auto m = to_mv(*from.n); f.m = capture(*f.n, m, ""); f.m.name = plain_name(f.n->name()); if(f.m.name != from.n->name) fail("wrong-name", "a copy is called %s instead of %s", show_text(f.m.name).c_str(), show_text(from.n->name).c_str()); }
        else { f.m.at = f.n.get(); f.m.nm = &f.n->name(); f.m.tp = Type::Object; }
        note(120 + copy, false);
        free.push_back(move(f));
    }
    void tree_op()
    {
        auto i = ch.below(2); auto& x = d[i];
        switch(ch.pick({ 4, 1, 1, 3 })) {
            case 0: { // moving a tree
                bool assign = ch.chance(1, 2); if(assign) { unique_ptr<Tree> n(new Tree()); auto g = guarded([&] { *n = move(*x.t); }); if(!g.ok()) fail("move-failed", "%s", g.msg.c_str()); x.t = move(n); } else { unique_ptr<Tree> n; auto g = guarded([&] { n.reset(new Tree(move(*x.t))); }); if(!g.ok()) fail("move-failed", "%s", g.msg.c_str()); if(ch.chance(1, 3)) { auto g2 = guarded([&] { x.t->root().insert("x", 1); }); if(!g2.ok()) fail("moved-from-unusable", "%s", g2.msg.c_str()); } x.t = move(n); }
                trace("move document %u", i); note(130, false); break;
            }
            case 1: trace("clear document %u", i); clear(x); note(131, false); break;
            case 2: { trace("new document %u", i); drop(); auto g = guarded([&] { x.t.reset(); }); fresh(x); note(132, false); break; }
            default: { // storing an object with the tree leaves its content alone
                auto c = gen_case(ch, json ? -1 : (int)ch.below(2), false);
                if(c->pair) break;
                vector<uint8_t> b; auto f = arm(true);
                auto g = store_case(*c, *x.t, *p[c->fmt], b, false);
                disarm(f);
                trace("store %s with document %u -> %s %s%s", show_case(*c).c_str(), i, verdict_name(g.v), g.msg.c_str(), f.fired ? " (fault)" : "");
                note(133, f.fired);
                if(!g.ok() && !f.fired) fail("healthy-refused", "storing failed: %s", g.msg.c_str());
            }
        }
    }
    void run()
    {
        auto n = ch.range(3, ch.chance(1, 6) ? 120 : 40);
        for(uint32_t s = 0; s < n; s++) {
            SpanScope sp(ch);
            const char* what = "";
            switch(ch.pick({ 10, 5, 3, 6, 2, 2, 1, 2, 2 })) {
                case 0: what = "insert"; insert(); break;
                case 1: what = "remove"; remove(); break;
                case 2: what = "search"; search(); break;
                case 3: what = "lookup"; lookup(); break;
                case 4: what = "read"; read(); break;
                case 5: what = "save"; save(false); break;
                case 6: what = "reload"; save(true); break;
                case 7: what = "node"; free_node(); break;
                default: what = "tree"; tree_op(); break;
            }
            check_all(what);
        }
    }
};
void edit_session(Chooser& ch, bool faults, bool often) { World w(ch); w.faults = (w.faults || often) && faults; w.often = often; w.run(); }
static void edits(Chooser& ch)
{
    steps_begin(300u << 20);
    auto base = tracked_live();
    edit_session(ch, true);
    if(tracked_live() != base) fail("objects-left", "%lld objects more than at the start are alive", (long long)(tracked_live() - base));
    steps_end();
}
static Register r1("C09", "edits", 10, edits);
}
