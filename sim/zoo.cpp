#include "zoo.h"
#include <algorithm>
#include <unordered_set>

namespace sim {
using namespace std;

//---------------------------------------------------------------- user callbacks, instances
UserFaults UF;
void user_point(const char* what)
{
    if(!in_lib || in_harness) return;
    if(UF.at && ++UF.seen == UF.at) {
        UF.fired++;
        in_harness++; count("fault.user_throws"); trace("user %s #%llu throws", what, (unsigned long long)UF.seen); in_harness--;
        throw UserError { (int)UF.at };
    }
}
static unordered_set<const void*>& reg() { static auto* s = new unordered_set<const void*>(); return *s; }
void tracked_add(const void* p)
{
    HarnessScope hs;
    if(!reg().insert(p).second) fail("constructed-twice", "an object was constructed over a live one");
}
void tracked_del(const void* p)
{
    HarnessScope hs;
    if(!reg().erase(p)) fail("destroyed-twice", "an object was destroyed that is not alive");
}
bool tracked_is(const void* p) { return reg().count(p); }
uint64_t tracked_live() { return reg().size(); }
static struct CleanInit { CleanInit() { run_clean_fn = [] { UF = UserFaults(); return tracked_live() == 0 && !sched_active; }; } } clean_init;

string show_text(const string& s)
{
    MV m = MV::str(s);
    return show(m);
}
uint32_t gen_count(Gx& g)
{
    if(g.top()) return g.large;
    if(g.depth > 2) return g.ch.below(3);
    switch(g.ch.pick(g.depth ? std::initializer_list<uint32_t>{ 8, 20, 2, 1 } : std::initializer_list<uint32_t>{ 4, 8, 2, 1 })) {
        case 0: return 0;
        case 1: return g.ch.range(1, 4);
        case 2: return g.ch.range(5, 12);
        default: return g.big && g.depth < 2 ? g.ch.range(13, 40) : 5;
    }
}

//---------------------------------------------------------------- dynamic types
vector<FieldType>& field_types(int level) { static auto* v = new vector<FieldType>[3]; return v[level]; }
FieldBase* make_field(const string& type)
{
    for(int l = 0; l < 3; l++) for(auto& t : field_types(l)) if(type == t.name) return t.make();
    harness_error("unknown field type %s", type.c_str());
}
Schema default_schemas[3];
thread_local Schema* schemas = default_schemas;
static vector<FieldType>& sorted_types(int l)
{
    static bool done[3];
    auto& v = field_types(l);
    if(!done[l]) { done[l] = true; sort(v.begin(), v.end(), [](auto& a, auto& b) { return strcmp(a.name, b.name) < 0; }); }
    return v;
}
static const FieldType* pick_type(Chooser& ch, int level)
{
    auto& v = sorted_types(level);
    uint32_t sum = 0; for(auto& t : v) sum += t.weight;
    auto x = ch.below(sum);
    for(auto& t : v) { if(x < t.weight) return &t; x -= t.weight; }
    return &v[0];
}
void gen_schemas(Gx& g, int max_fields)
{
    auto& ch = g.ch;
    for(int l = 0; l < 3; l++) {
        auto& s = schemas[l];
        s = Schema();
        s.nameless = ch.chance(1, 8);
        auto n = ch.below(max_fields + 1);
        if(l == 2 && n == 0) n = 1;
        set<string> names;
        for(uint32_t i = 0; i < n; i++) {
            SpanScope sp(ch);
            FieldSpec f;
            f.name = gen_name(ch, names);
            while(names.count(f.name) || names.count("w" + f.name)) f.name += "_";
            names.insert(f.name); names.insert("w" + f.name);
            f.enc = (int)ch.pick({ 6, 1, 1 });
            f.type = pick_type(ch, l);
            s.f.push_back(f);
        }
    }
}
string show_schema(int level, int)
{
    string o = schemas[level].nameless ? "(nameless) " : "";
    for(auto& f : schemas[level].f) { o += show_text(f.name) + (f.enc == 1 ? "u16" : f.enc == 2 ? "u32" : "") + ":" + f.type->name + (f.optional ? "?" : "") + " "; if(o.size() > 600) { o += ".."; break; } }
    return o;
}
SrlName::SrlName(const string& n, int enc) : s("")
{
    if(enc == 1)      { w16 = utf8_to_utf16(n); s = Srl::String(w16); }
    else if(enc == 2) { w32 = utf8_to_utf32(n); s = Srl::String(w32); }
    else              { w8 = n; s = Srl::String(w8); }
}
void SrlName::wipe()
{
    for(auto& c : w8) c = '#';
    for(auto& c : w16) c = u'#';
    for(auto& c : w32) c = U'#';
}
string plain_name(const Srl::String& s)
{
    string raw((const char*)s.data(), s.size());
    if(s.encoding() == Srl::Encoding::UTF16) { u16string w(raw.size() / 2, 0); memcpy(&w[0], raw.data(), w.size() * 2); return utf16_to_utf8(w); }
    if(s.encoding() == Srl::Encoding::UTF32) { u32string w(raw.size() / 4, 0); memcpy(&w[0], raw.data(), w.size() * 4); return utf32_to_utf8(w); }
    return raw;
}
const char* type_name(Chooser& ch) { return pick_type(ch, 2)->name; }
FieldBase* gen_root(Gx& g, bool need_root, const char* type)
{
    gen_schemas(g, g.ch.pick({ 3, 1 }) ? 14 : 5);
    const FieldType* t = nullptr;
    if(type) for(auto& x : sorted_types(2)) if(!strcmp(x.name, type)) t = &x;
    // mostly the structured user type, sometimes any other type as the root
    if(!t && g.ch.chance(2, 3)) { for(auto& x : sorted_types(2)) if(!strcmp(x.name, "Dyn1")) t = &x; }
    for(int k = 0; k < 40 && !t; k++) {
        auto* c = pick_type(g.ch, 2);
        unique_ptr<FieldBase> f(c->make());
        if(need_root ? f->rootable() : f->packable()) t = c;
    }
    if(!t) t = pick_type(g.ch, 2);
    auto* f = t->make();
    f->gen(g);
    return f;
}

//---------------------------------------------------------------- polymorphic types
static const auto reg_a = Srl::register_type<PolyA>("PolyA");
static const auto reg_b = Srl::register_type<PolyB>("PolyB, with a rather long identifier that does not fit anywhere");
static const auto reg_c = Srl::register_type<PolyC>("PolyC");
const Srl::TypeID& PolyA::srl_type_id() { return reg_a; }
const Srl::TypeID& PolyB::srl_type_id() { return reg_b; }
const Srl::TypeID& PolyC::srl_type_id() { return reg_c; }
void PolyA::srl_resolve(Context& c) { user_point("srl_resolve"); c("n", n)("s", s); }
void PolyB::srl_resolve(Context& c) { user_point("srl_resolve"); c("d", d)("l", l)("m", m); }
void PolyC::srl_resolve(Context& c) { user_point("srl_resolve"); c("kids", kids)("u", u); }
void PolyA::gen(Gx& g) { Tr<int32_t>::gen(n, g); Tr<string>::gen(s, g); }
void PolyB::gen(Gx& g) { Tr<double>::gen(d, g); Tr<vector<string>>::gen(l, g); Tr<map<string, int>>::gen(m, g); }
void PolyC::gen(Gx& g) { g.depth++; if(g.depth < 5) Tr<vector<unique_ptr<Base>>>::gen(kids, g); g.depth--; Tr<uint16_t>::gen(u, g); }
bool PolyA::eq(const Base& o, Ex& x) const { auto& b = static_cast<const PolyA&>(o); return Tr<int32_t>::eq(n, b.n, x) && Tr<string>::eq(s, b.s, x); }
bool PolyB::eq(const Base& o, Ex& x) const { auto& b = static_cast<const PolyB&>(o); return Tr<double>::eq(d, b.d, x) && Tr<vector<string>>::eq(l, b.l, x) && Tr<map<string, int>>::eq(m, b.m, x); }
bool PolyC::eq(const Base& o, Ex& x) const { auto& b = static_cast<const PolyC&>(o); return Tr<vector<unique_ptr<Base>>>::eq(kids, b.kids, x) && Tr<uint16_t>::eq(u, b.u, x); }
static MV id_model(const char* n) { MV o(Type::Object); o.kind = K_FIELDS; o.items.push_back({ "srl_type_id", MV::str(n) }); return o; }
MV PolyA::model(Mx& m) const { auto o = id_model(reg_a.name()); o.items.push_back({ "n", Tr<int32_t>::model(n, m) }); o.items.push_back({ "s", MV::str(s) }); return o; }
MV PolyB::model(Mx& x) const { auto o = id_model(reg_b.name()); o.items.push_back({ "d", Tr<double>::model(d, x) }); o.items.push_back({ "l", Tr<vector<string>>::model(l, x) }); o.items.push_back({ "m", Tr<map<string, int>>::model(m, x) }); return o; }
MV PolyC::model(Mx& m) const { auto o = id_model(reg_c.name()); o.items.push_back({ "kids", Tr<vector<unique_ptr<Base>>>::model(kids, m) }); o.items.push_back({ "u", MV::num(Type::UI16, u) }); return o; }
Base* make_poly(Gx& g)
{
    Base* b;
    switch(g.ch.below(g.depth > 3 ? 2 : 3)) { case 0: b = new PolyA(); break; case 1: b = new PolyB(); break; default: b = new PolyC(); }
    b->gen(g);
    return b;
}
}
