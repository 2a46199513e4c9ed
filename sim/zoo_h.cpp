// Parts of documents as fields: nodes and values of another tree, scopes filled by a function; restored as unions.
#include "zoo.h"
namespace sim { using namespace std;
struct Part : Tracked {
    enum { NODE, SCOPE };
    MV doc = MV(Type::Object), val; int how = NODE, enc = 0, fmt = F_SRL;
    Part() { user_point("constructor"); }
    Part(const Part&) = default; Part& operator=(const Part&) = default;
    Part(Part&& o) : Tracked(o) { HarnessScope hs; *this = (const Part&)o; }
    Part& operator=(Part&& o) { HarnessScope hs; return *this = (const Part&)o; }
    template<class V> void item(Node& n, const string& name, const V& v, int salt) const
    {
        in_harness++; SrlName nm(name, (enc + salt) % 5 < 3 ? 0 : (enc + salt) % 5 - 2); in_harness--;
        n.insert(nm.s, v);
    }
    void put(Node& n, const string& name, const MV& m, int salt) const
    {
        switch(m.tp) {
            case Type::Object: case Type::Array: {
                auto fill = [&](Node& x) { int k = salt; for(auto& i : m.items) put(x, i.first, i.second, ++k); };
                if(name.empty()) n.insert("", Srl::ScopeWrap([&](Node& x) { fill(x); }, m.tp));
                else { in_harness++; SrlName nm(name, (enc + salt) % 5 < 3 ? 0 : (enc + salt) % 5 - 2); in_harness--; n.insert(nm.s, Srl::ScopeWrap([&](Node& x) { fill(x); }, m.tp)); }
                break;
            }
            case Type::Bool: item(n, name, m.b, salt); break;
            case Type::I8:  item(n, name, (int8_t)m.i, salt); break;   case Type::UI8:  item(n, name, (uint8_t)m.u, salt); break;
            case Type::I16: item(n, name, (int16_t)m.i, salt); break;  case Type::UI16: item(n, name, (uint16_t)m.u, salt); break;
            case Type::I32: item(n, name, (int32_t)m.i, salt); break;  case Type::UI32: item(n, name, (uint32_t)m.u, salt); break;
            case Type::I64: item(n, name, (int64_t)m.i, salt); break;  case Type::UI64: item(n, name, (uint64_t)m.u, salt); break;
            case Type::FP32: item(n, name, (float)m.d, salt); break;   case Type::FP64: item(n, name, m.d, salt); break;
            case Type::Null: item(n, name, nullptr, salt); break;
            case Type::String:
                if((enc + salt) % 7 == 1) { in_harness++; auto w = utf8_to_utf16(m.s); in_harness--; item(n, name, w, salt); }
                else if((enc + salt) % 7 == 2) { in_harness++; auto w = utf8_to_utf32(m.s); in_harness--; item(n, name, w, salt); }
                else item(n, name, m.s, salt);
                break;
            case Type::Binary: item(n, name, Srl::BitWrap((const uint8_t*)m.s.data(), m.s.size()), salt); break;
            default: break;
        }
    }
    void srl_resolve(Context& c)
    {
        user_point("srl_resolve");
        if(c.mode() == Srl::Mode::Insert) {
            put(c.node(), "val", val, 0);
            if(how == NODE) {
                Tree other(doc.tp); int k = 0;
                for(auto& i : doc.items) put(other.root(), i.first, i.second, ++k);
                c.node().insert("part", other.root());
            } else put(c.node(), "part", doc, 0);
        } else {
            Srl::Union u, v;
            c.node().paste_field(Srl::String("part"), u);
            c.node().paste_field(Srl::String("val"), v);
            HarnessScope hs;
            if(u.is_node() == u.is_value() || v.is_node() == v.is_value()) fail("strange-union", "a union is not exactly one of node and value");
            doc = u.is_node() ? dump(*u.node()) : dump_value(*u.value()); val = v.is_node() ? dump(*v.node()) : dump_value(*v.value()); fmt = F_SRL;
        }
    }
};
template<> struct Tr<Part> {
    static void gen(Part& p, Gx& g)
    {
        DocOpts o; o.max_depth = g.depth > 2 ? 1 : 3; o.max_items = g.depth > 2 ? 2 : 4; o.big = g.big && g.depth < 2; o.special_fp = !g.json();
        p.doc = gen_doc(g.ch, o); p.val = gen_scalar(g.ch, o); p.how = g.ch.below(2); p.enc = g.ch.below(35); p.fmt = g.fmt;
    }
    static bool eq(const Part& a, const Part& b, Ex& x)
    {
        string why;
        if(!mv_equal(split(a.doc), split(b.doc), a.fmt, why)) return x.bad("part of a document " + why);
        return mv_equal(a.val, b.val, a.fmt, why) || x.bad("value of a document " + why);
    }
    static MV model(const Part& p, Mx&)
    {
        MV r(Type::Object); r.kind = K_FIELDS;
        r.items.push_back({ "val", p.val }); r.items.push_back({ "part", p.how == Part::NODE ? split(p.doc) : p.doc });
        return r;
    }
    static void destroy(Part&) { }
};
static RegField<Part> a1("Part", 5); static RegField<vector<Part>> a2("vector<Part>", 2); static RegField<unique_ptr<Part>> a3("unique<Part>", 1);
static RegField<map<string, Part>> a4("map<string,Part>", 1); static RegField<shared_ptr<Part>> a5("shared<Part>", 2);
}
