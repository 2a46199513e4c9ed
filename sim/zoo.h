// The zoo: user types of every supported kind, with generators, equality and reference models.
#pragma once
#include "model.h"
#include <Srl/ScopeWrap.h>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <cmath>

namespace sim {
using Srl::Context; using Srl::StoreContext; using Srl::RestoreContext; using Srl::Node; using Srl::Tree;

//---------------------------------------------------------------- instance registry
struct UserFaults { uint64_t at = 0, seen = 0, fired = 0; };   // k-th user callback throws
extern UserFaults UF;
void user_point(const char* what);
void tracked_add(const void* p);
void tracked_del(const void* p);
bool tracked_is(const void* p);
uint64_t tracked_live();
struct Tracked {
    Tracked()               { tracked_add(this); }
    Tracked(const Tracked&) { tracked_add(this); }
    Tracked(Tracked&&)      { tracked_add(this); }
    Tracked& operator=(const Tracked&) { return *this; }
    Tracked& operator=(Tracked&&)      { return *this; }
    ~Tracked()              { tracked_del(this); }
};

//---------------------------------------------------------------- contexts
struct Gx {                        // generation
    Chooser& ch; int fmt; bool big = true; int depth = 0;
    uint32_t large = 0;            // exact size of the outermost container, string or blob; nesting depth of a recursive type
    bool top() const { return large && depth == 0; }
    int field = -1;                // depth at which a named field of a user type is generated
    bool named() const { return field == depth; }
    std::vector<std::pair<intptr_t, std::shared_ptr<void>>> pool;   // for sharing: (type tag, object)
    bool json() const { return fmt >= F_JSON; }
};
struct Ex {                        // equality: aliasing must be a bijection
    std::map<const void*, const void*> fwd, rev;
    bool pair(const void* a, const void* b)
    {
        auto i = fwd.find(a); auto j = rev.find(b);
        if(i == fwd.end() && j == rev.end()) { fwd[a] = b; rev[b] = a; return true; }
        return i != fwd.end() && j != rev.end() && i->second == b && j->second == a;
    }
    bool known(const void* a) { return fwd.count(a); }
    std::string why;
    bool bad(const std::string& s) { if(why.empty()) why = s; else why = s + " < " + why; return false; }
};
struct Mx { std::map<const void*, uint64_t> keys; };   // model: shared-object keys in order of first visit

template<class T, class = void> struct Tr;

//---------------------------------------------------------------- numbers
template<class T> constexpr Type srl_type()
{
    if constexpr(std::is_same_v<T, bool>) return Type::Bool;
    else if constexpr(std::is_same_v<T, float>) return Type::FP32;
    else if constexpr(std::is_floating_point_v<T>) return Type::FP64;
    else if constexpr(sizeof(T) == 1) return std::is_signed_v<T> ? Type::I8 : Type::UI8;
    else if constexpr(sizeof(T) == 2) return std::is_signed_v<T> ? Type::I16 : Type::UI16;
    else if constexpr(sizeof(T) == 4) return std::is_signed_v<T> ? Type::I32 : Type::UI32;
    else return std::is_signed_v<T> ? Type::I64 : Type::UI64;
}
template<class T> struct Tr<T, std::enable_if_t<Srl::Lib::is_numeric<T>::value>> {
    static void gen(T& v, Gx& g)
    {
        DocOpts o; o.binary = false; o.special_fp = !g.json();
        if constexpr(std::is_same_v<T, bool>) v = g.ch.chance(1, 2);
        else if constexpr(std::is_floating_point_v<T>) {
            for(int k = 0; k < 4; k++) {
                auto m = gen_scalar(g.ch, o);
                double d = is_fp(m.tp) ? m.d : is_int(m.tp) ? (double)m.i + (double)m.u : 0.5;
                v = (T)d;
                if(std::is_same_v<T, float> && !g.json()) return;
                if(!g.json() || std::isfinite((double)v)) break;
                v = 1;
            }
            if(g.json() && v == 0) v = 0;   // no negative zero in text
        } else {
            switch(g.ch.below(4)) {
                case 0: v = (T)g.ch.below(100); break;
                case 1: v = std::numeric_limits<T>::max() - (T)g.ch.below(3); break;
                case 2: v = std::numeric_limits<T>::min() + (T)g.ch.below(3); break;
                default: { int b = g.ch.below(sizeof(T) * 8); v = (T)(((uint64_t)1 << b) + (uint64_t)g.ch.below(3) - 1); if(std::is_signed_v<T> && g.ch.chance(1, 2)) v = (T)(0 - (uint64_t)v); }
            }
        }
    }
    static bool eq(const T& a, const T& b, Ex& x)
    {
        if constexpr(std::is_floating_point_v<T>) {
            if(a == b && std::signbit((double)a) == std::signbit((double)b)) return true;
            if(std::isnan((double)a) && std::isnan((double)b)) return true;
            char buf[96]; snprintf(buf, sizeof buf, "number want %.20g got %.20g", (double)a, (double)b); return x.bad(buf);
        } else {
            if(a == b) return true;
            return x.bad("number want " + std::to_string((long double)a) + " got " + std::to_string((long double)b));
        }
    }
    static MV model(const T& v, Mx&)
    {
        if constexpr(std::is_same_v<T, bool>) return MV::boolean(v);
        else return MV::num(srl_type<T>(), v);
    }
    static void destroy(T&) { }
};

//---------------------------------------------------------------- characters and strings
template<class C> std::string to8(const std::basic_string<C>& s)
{
    if constexpr(sizeof(C) == 1) return std::string(s.begin(), s.end());
    else if constexpr(sizeof(C) == 2) return utf16_to_utf8(std::u16string(s.begin(), s.end()));
    else return utf32_to_utf8(std::u32string(s.begin(), s.end()));
}
template<class C> std::basic_string<C> from8(const std::string& s)
{
    if constexpr(sizeof(C) == 1) return std::basic_string<C>(s.begin(), s.end());
    else if constexpr(sizeof(C) == 2) { auto w = utf8_to_utf16(s); return std::basic_string<C>(w.begin(), w.end()); }
    else { auto w = utf8_to_utf32(s); return std::basic_string<C>(w.begin(), w.end()); }
}
std::string show_text(const std::string& s);
template<class C> struct Tr<std::basic_string<C>> {
    typedef std::basic_string<C> T;
    static void gen(T& v, Gx& g) { v = from8<C>(g.top() ? gen_text_of(g.ch, g.large) : g.large > 3000 ? gen_text_of(g.ch, g.ch.below(6)) : gen_text(g.ch, g.big && g.depth < 3)); }
    static bool eq(const T& a, const T& b, Ex& x) { return a == b || x.bad("string want " + show_text(to8(a)) + " got " + show_text(to8(b))); }
    static MV model(const T& v, Mx&) { return MV::str(to8(v)); }
    static void destroy(T&) { }
};
template<class C> struct Tr<C, std::enable_if_t<Srl::Lib::is_char<C>::value>> {
    static void gen(C& v, Gx& g)
    {
        if constexpr(sizeof(C) == 1) v = (C)g.ch.below(128);
        else switch(g.ch.below(sizeof(C) == 4 ? 4 : 3)) {
            case 0: v = (C)g.ch.below(128); break;
            case 1: v = (C)g.ch.range(0x80, 0xd7ff); break;
            case 2: v = (C)g.ch.range(0xe000, 0xfffd); break;
            default: v = (C)g.ch.range(0x10000, 0x10ffff);
        }
    }
    static bool eq(const C& a, const C& b, Ex& x) { return a == b || x.bad("character want " + std::to_string((uint32_t)a) + " got " + std::to_string((uint32_t)b)); }
    static MV model(const C& v, Mx&) { return MV::str(to8(std::basic_string<C>(1, v))); }
    static void destroy(C&) { }
};
template<class C, size_t N> struct Tr<C[N], std::enable_if_t<Srl::Lib::is_char<C>::value>> {
    typedef C T[N];
    static void gen(T& v, Gx& g)
    {
        memset(v, 0, sizeof v);
        auto n = g.ch.range(0, N - 1);
        for(uint32_t i = 0; i < n; i++) {
            if constexpr(sizeof(C) == 1) v[i] = (C)g.ch.range(1, 127);
            else v[i] = g.ch.chance(1, 3) ? (C)g.ch.range(0x80, 0xd7ff) : (C)g.ch.range(1, 127);
        }
    }
    static std::basic_string<C> str(const T& v) { size_t n = 0; while(n < N && v[n]) n++; return std::basic_string<C>(v, n); }
    static bool eq(const T& a, const T& b, Ex& x) { return str(a) == str(b) || x.bad("char array want " + show_text(to8(str(a))) + " got " + show_text(to8(str(b)))); }
    static MV model(const T& v, Mx&) { return MV::str(to8(str(v))); }
    static void destroy(T&) { }
};

//---------------------------------------------------------------- raw bytes
template<class T> struct Blob { std::vector<T> v; };        // resolved through VecWrap
struct Raw { std::vector<uint8_t> v; };                     // resolved through BitWrap
struct ByteS { Srl::Bytes b; std::vector<uint8_t> v; };     // resolved through Bytes
template<class T> struct Tr<Blob<T>> {
    static void gen(Blob<T>& v, Gx& g)
    {
        auto s = g.top() ? gen_bytes_of(g.ch, g.large) : gen_bytes(g.ch, g.big && g.depth < 3);
        v.v.resize(s.size() / sizeof(T)); if(!v.v.empty()) memcpy(v.v.data(), s.data(), v.v.size() * sizeof(T));
    }
    static bool eq(const Blob<T>& a, const Blob<T>& b, Ex& x) { return (a.v.size() == b.v.size() && (a.v.empty() || !memcmp(a.v.data(), b.v.data(), a.v.size() * sizeof(T)))) || x.bad("bytes want " + hex(a.v.data(), a.v.size() * sizeof(T), 16) + " got " + hex(b.v.data(), b.v.size() * sizeof(T), 16)); }
    static MV model(const Blob<T>& v, Mx&) { return MV::bin(std::string((const char*)v.v.data(), v.v.size() * sizeof(T))); }
    static void destroy(Blob<T>&) { }
};
template<> struct Tr<Raw> {
    static void gen(Raw& v, Gx& g) { auto s = g.top() ? gen_bytes_of(g.ch, g.large) : gen_bytes(g.ch, g.big && g.depth < 3); v.v.assign(s.begin(), s.end()); }
    static bool eq(const Raw& a, const Raw& b, Ex& x) { return a.v == b.v || x.bad("raw bytes want " + hex(a.v.data(), a.v.size(), 16) + " got " + hex(b.v.data(), b.v.size(), 16)); }
    static MV model(const Raw& v, Mx&) { return MV::bin(std::string((const char*)v.v.data(), v.v.size())); }
    static void destroy(Raw&) { }
};
template<> struct Tr<ByteS> {
    static void gen(ByteS& v, Gx& g) { auto s = g.top() ? gen_bytes_of(g.ch, g.large) : gen_bytes(g.ch, g.big && g.depth < 3); v.v.assign(s.begin(), s.end()); auto c = v.v; v.b = Srl::Bytes(std::move(c)); }
    static std::vector<uint8_t> get(const ByteS& v) { Srl::Bytes c = v.b; return std::move(c).extract(); }
    static bool eq(const ByteS& a, const ByteS& b, Ex& x) { return get(a) == get(b) || x.bad("Bytes differ"); }
    static MV model(const ByteS& v, Mx&) { auto d = get(v); return MV::bin(std::string((const char*)d.data(), d.size())); }
    static void destroy(ByteS&) { }
};

//---------------------------------------------------------------- sequences, sets, maps, arrays, pairs, tuples
uint32_t gen_count(Gx& g);
template<class E> int elem_kind() { return Srl::TpTools::is_scope(Srl::Lib::Switch<E>::type) ? K_NODES : K_VALS; }
template<class C> struct SeqTr {
    typedef typename C::value_type E;
    static void gen(C& v, Gx& g)
    {
        v.clear(); auto n = gen_count(g); g.depth++;
        for(uint32_t i = 0; i < n; i++) { SpanScope sp(g.ch); v.emplace_back(); Tr<E>::gen(v.back(), g); }
        g.depth--;
    }
    static bool eq(const C& a, const C& b, Ex& x)
    {
        if(a.size() != b.size()) return x.bad("container size want " + std::to_string(a.size()) + " got " + std::to_string(b.size()));
        auto j = b.begin(); size_t k = 0;
        for(auto i = a.begin(); i != a.end(); ++i, ++j, ++k) if(!Tr<E>::eq(*i, *j, x)) return x.bad("[" + std::to_string(k) + "]");
        return true;
    }
    static MV model(const C& v, Mx& m) { MV r(Type::Array); r.kind = elem_kind<E>(); for(auto& e : v) r.items.push_back({ "", Tr<E>::model(e, m) }); return r; }
    static void destroy(C& v) { for(auto& e : v) Tr<E>::destroy(e); v.clear(); }
};
template<class E> struct Tr<std::vector<E>> : SeqTr<std::vector<E>> { };
template<class E> struct Tr<std::list<E>>   : SeqTr<std::list<E>> { };
template<class E> struct Tr<std::deque<E>>  : SeqTr<std::deque<E>> { };
template<class C> struct SetTr {
    typedef typename C::value_type E;
    static void gen(C& v, Gx& g)
    {
        v.clear(); auto n = gen_count(g); g.depth++;
        for(uint32_t i = 0; i < n; i++) { SpanScope sp(g.ch); E e {}; Tr<E>::gen(e, g); v.insert(e); }
        g.depth--;
    }
    static bool eq(const C& a, const C& b, Ex& x) { return a == b || x.bad("sets differ"); }
    static MV model(const C& v, Mx& m) { MV r(Type::Array); r.kind = elem_kind<E>(); for(auto& e : v) r.items.push_back({ "", Tr<E>::model(e, m) }); return r; }
    static void destroy(C&) { }
};
template<class E> struct Tr<std::set<E>> : SetTr<std::set<E>> { };
template<class E> struct Tr<std::multiset<E>> : SetTr<std::multiset<E>> { };
template<class E> struct Tr<std::unordered_set<E>> : SetTr<std::unordered_set<E>> { };
template<class C> struct MapTr {
    typedef typename C::key_type K; typedef typename C::mapped_type V;
    static void gen(C& v, Gx& g)
    {
        v.clear(); auto n = gen_count(g); g.depth++;
        for(uint32_t i = 0; i < n; i++) { SpanScope sp(g.ch); K k {}; Tr<K>::gen(k, g); if constexpr(std::is_same_v<K, std::string>) if(g.large) k += std::to_string(i); V e {}; Tr<V>::gen(e, g); v.emplace(std::move(k), std::move(e)); }
        g.depth--;
    }
    static bool eq(const C& a, const C& b, Ex& x)
    {
        if(a.size() != b.size()) return x.bad("map size want " + std::to_string(a.size()) + " got " + std::to_string(b.size()));
        for(auto& p : a) {
            auto ra = a.equal_range(p.first); auto rb = b.equal_range(p.first);
            if(std::distance(ra.first, ra.second) != std::distance(rb.first, rb.second)) return x.bad("map key missing");
            if(std::distance(ra.first, ra.second) == 1 && !Tr<V>::eq(ra.first->second, rb.first->second, x)) return x.bad("map value");
        }
        return true;
    }
    static MV model(const C& v, Mx& m)
    {
        MV r(Type::Array); r.kind = K_NODES;
        for(auto& p : v) { MV e(Type::Object); e.kind = K_FIELDS; e.items.push_back({ "key", Tr<K>::model(p.first, m) }); e.items.push_back({ "value", Tr<V>::model(p.second, m) }); r.items.push_back({ "", e }); }
        return r;
    }
    static void destroy(C& v) { for(auto& p : v) Tr<V>::destroy(p.second); v.clear(); }
};
template<class K, class V> struct Tr<std::map<K, V>> : MapTr<std::map<K, V>> { };
template<class K, class V> struct Tr<std::multimap<K, V>> : MapTr<std::multimap<K, V>> {
    // order of equal keys is part of the value: compare as a sequence
    static bool eq(const std::multimap<K, V>& a, const std::multimap<K, V>& b, Ex& x)
    {
        if(a.size() != b.size()) return x.bad("multimap size");
        auto j = b.begin();
        for(auto i = a.begin(); i != a.end(); ++i, ++j) if(!Tr<K>::eq(i->first, j->first, x) || !Tr<V>::eq(i->second, j->second, x)) return x.bad("multimap entry");
        return true;
    }
};
template<class K, class V> struct Tr<std::unordered_map<K, V>> : MapTr<std::unordered_map<K, V>> { };
template<class K, class V> struct Tr<std::unordered_multimap<K, V>> : MapTr<std::unordered_multimap<K, V>> {
    static bool eq(const std::unordered_multimap<K, V>& a, const std::unordered_multimap<K, V>& b, Ex& x) { return a == b || x.bad("unordered_multimap"); }
};
template<class E, size_t N> struct Tr<E[N], std::enable_if_t<!Srl::Lib::is_char<E>::value>> {
    typedef E T[N];
    static void gen(T& v, Gx& g) { g.depth++; for(auto& e : v) { SpanScope sp(g.ch); Tr<E>::gen(e, g); } g.depth--; }
    static bool eq(const T& a, const T& b, Ex& x) { for(size_t i = 0; i < N; i++) if(!Tr<E>::eq(a[i], b[i], x)) return x.bad("array[" + std::to_string(i) + "]"); return true; }
    static MV model(const T& v, Mx& m) { MV r(Type::Array); r.kind = elem_kind<E>(); for(auto& e : v) r.items.push_back({ "", Tr<E>::model(e, m) }); return r; }
    static void destroy(T& v) { for(auto& e : v) Tr<E>::destroy(e); }
};
template<class A, class B> struct Tr<std::pair<A, B>> {
    typedef std::pair<A, B> T;
    static void gen(T& v, Gx& g) { g.depth++; Tr<A>::gen(v.first, g); Tr<B>::gen(v.second, g); g.depth--; }
    static bool eq(const T& a, const T& b, Ex& x) { return (Tr<A>::eq(a.first, b.first, x) && Tr<B>::eq(a.second, b.second, x)) || x.bad("pair"); }
    static MV model(const T& v, Mx& m) { MV r(Type::Object); r.kind = K_FIELDS; r.items.push_back({ "first", Tr<A>::model(v.first, m) }); r.items.push_back({ "second", Tr<B>::model(v.second, m) }); return r; }
    static void destroy(T& v) { Tr<A>::destroy(v.first); Tr<B>::destroy(v.second); }
};
template<class... E> struct Tr<std::tuple<E...>> {
    typedef std::tuple<E...> T;
    static void gen(T& v, Gx& g) { g.depth++; std::apply([&](auto&... e) { (Tr<std::decay_t<decltype(e)>>::gen(e, g), ...); }, v); g.depth--; }
    template<size_t... I> static bool eqi(const T& a, const T& b, Ex& x, std::index_sequence<I...>) { return (Tr<std::tuple_element_t<I, T>>::eq(std::get<I>(a), std::get<I>(b), x) && ...); }
    static bool eq(const T& a, const T& b, Ex& x) { return eqi(a, b, x, std::index_sequence_for<E...>()) || x.bad("tuple"); }
    static MV model(const T& v, Mx& m) { MV r(Type::Array); r.kind = K_POS; std::apply([&](auto&... e) { (r.items.push_back({ "", Tr<std::decay_t<decltype(e)>>::model(e, m) }), ...); }, v); return r; }
    static void destroy(T& v) { std::apply([&](auto&... e) { (Tr<std::decay_t<decltype(e)>>::destroy(e), ...); }, v); }
};
template<class V> struct Tr<Srl::Lib::HTable<std::string, V>> {
    typedef Srl::Lib::HTable<std::string, V> T;
    static void gen(T& v, Gx& g)
    {
        v.clear(); auto n = gen_count(g); g.depth++;
        std::set<std::string> used;
        for(uint32_t i = 0; i < n; i++) { SpanScope sp(g.ch); auto k = g.large > 3000 ? gen_text_of(g.ch, g.ch.below(3)) : gen_name(g.ch, used); if(!g.large) used.insert(k); if(g.large) k += std::to_string(i); auto r = v.insert(k); if(!r.first) Tr<V>::gen(*r.second, g); }
        g.depth--;
    }
    static std::map<std::string, const V*> flat(const T& v) { std::map<std::string, const V*> m; v.foreach([&](const std::string& k, V& e) { m[k] = &e; }); return m; }
    static bool eq(const T& a, const T& b, Ex& x)
    {
        auto m = flat(a), n = flat(b);
        if(a.num_entries() != m.size() || b.num_entries() != n.size() || m.size() != n.size()) return x.bad("HTable size want " + std::to_string(m.size()) + " got " + std::to_string(n.size()));
        for(auto& p : m) { if(!n.count(p.first)) return x.bad("HTable key missing " + show_text(p.first)); if(!Tr<V>::eq(*p.second, *n[p.first], x)) return x.bad("HTable value " + show_text(p.first)); }
        return true;
    }
    static MV model(const T& v, Mx& m) { MV r(Type::Object); r.kind = elem_kind<V>(); v.foreach([&](const std::string& k, V& e) { r.items.push_back({ k, Tr<V>::model(e, m) }); }); return r; }
    static void destroy(T& v) { v.foreach([](const std::string&, V& e) { Tr<V>::destroy(e); }); v.clear(); }
};

//---------------------------------------------------------------- pointers
template<class E> constexpr bool is_scope_type = Srl::TpTools::is_scope(Srl::Lib::Switch<E>::type);
struct Base;
template<class E> E* make_target(Gx&);
// null pointers to scope types are restored in named fields only (see known findings), and a polymorphic one has to be shared
template<class E> bool gen_null(Gx& g, bool shared = false)
{
    if(!shared && !is_scope_type<E> ? true : g.named() && (shared || !std::is_same_v<E, Base>)) return g.ch.chance(1, 5);
    return false;
}
template<class E> struct Tr<E*, std::enable_if_t<!Srl::Lib::is_char<E>::value>> {
    static void gen(E*& p, Gx& g)
    {
        destroy(p);
        bool null = gen_null<E>(g);
        g.depth++; p = null ? nullptr : make_target<E>(g); g.depth--;
    }
    static bool eq(E* const& a, E* const& b, Ex& x) { if(!a != !b) return x.bad("pointer nullness"); return !a || Tr<E>::eq(*a, *b, x) || x.bad("*ptr"); }
    static MV model(E* const& p, Mx& m) { return p ? Tr<E>::model(*p, m) : MV(); }
    static void destroy(E*& p) { if(p) Tr<E>::destroy(*p); delete p; p = nullptr; }
};
template<class E> struct Tr<std::unique_ptr<E>> {
    typedef std::unique_ptr<E> T;
    static void gen(T& p, Gx& g) { bool null = gen_null<E>(g); g.depth++; p.reset(null ? nullptr : make_target<E>(g)); g.depth--; }
    static bool eq(const T& a, const T& b, Ex& x) { if(!a != !b) return x.bad("unique_ptr nullness"); return !a || Tr<E>::eq(*a, *b, x) || x.bad("*unique_ptr"); }
    static MV model(const T& p, Mx& m) { return p ? Tr<E>::model(*p, m) : MV(); }
    static void destroy(T& p) { if(p) Tr<E>::destroy(*p); p.reset(); }
};
template<class E> intptr_t type_tag() { static char c; return (intptr_t)&c; }
template<class E> struct Tr<std::shared_ptr<E>> {
    typedef std::shared_ptr<E> T;
    static void gen(T& p, Gx& g)
    {
        std::vector<T> cand;
        for(size_t i = g.pool.size() > 48 ? g.pool.size() - 48 : 0; i < g.pool.size(); i++) if(g.pool[i].first == type_tag<E>()) cand.push_back(std::static_pointer_cast<E>(g.pool[i].second));
        if(!cand.empty() && g.ch.chance(1, 2)) { p = cand[g.ch.below((uint32_t)cand.size())]; return; }
        if(gen_null<E>(g, true)) { p.reset(); return; }
        g.depth++; p.reset(make_target<E>(g)); g.depth--;
        g.pool.push_back({ type_tag<E>(), p });
    }
    static bool eq(const T& a, const T& b, Ex& x)
    {
        if(!a != !b) return x.bad("shared_ptr nullness");
        if(!a) return true;
        bool first = !x.known(a.get());
        if(!x.pair(a.get(), b.get())) return x.bad("sharing differs");
        return !first || Tr<E>::eq(*a, *b, x) || x.bad("*shared_ptr");
    }
    static MV model(const T& p, Mx& m)
    {
        if(!p) return MV();
        MV r(Type::Object); r.kind = K_FIELDS;
        auto it = m.keys.find(p.get());
        bool first = it == m.keys.end();
        uint64_t k = first ? m.keys.size() : it->second;
        if(first) m.keys[p.get()] = k;
        r.items.push_back({ "srl_shared_key", MV::num(Type::UI64, k) });
        if(first) r.items.push_back({ "srl_shared_value", Tr<E>::model(*p, m) });
        return r;
    }
    static void destroy(T& p) { p.reset(); }
};
// an owner followed by a weak observer of the same object
template<class E> struct Watched { std::shared_ptr<E> owner; std::weak_ptr<E> watch; };
template<class E> struct Tr<Watched<E>> {
    typedef Watched<E> T;
    static void gen(T& p, Gx& g) { Tr<std::shared_ptr<E>>::gen(p.owner, g); p.watch = p.owner; }
    static bool eq(const T& a, const T& b, Ex& x)
    {
        if(!Tr<std::shared_ptr<E>>::eq(a.owner, b.owner, x)) return false;
        if(b.watch.lock() != b.owner) return x.bad("weak_ptr does not observe the restored owner");
        return true;
    }
    static void destroy(T& p) { p.owner.reset(); p.watch.reset(); }
};

//---------------------------------------------------------------- fields and dynamic user types
struct FieldBase {
    virtual ~FieldBase() { }
    virtual void resolve(Context& c, const Srl::String* name, uint64_t flags) = 0;
    virtual void store(StoreContext& c, const Srl::String* name) = 0;
    virtual void restore(RestoreContext& c, const Srl::String* name, uint64_t flags) = 0;
    virtual void gen(Gx& g) = 0;
    virtual bool eq(const FieldBase& o, Ex& x) const = 0;
    virtual void model(MV& parent, const std::string& name, Mx& m) const = 0;
    virtual MV   root_model(Mx& m) const = 0;      // as the library stores it when it is the root
    virtual void root_store(Tree& t, Srl::Parser& p, Srl::Lib::Out::Source o) const = 0;
    virtual void root_restore(Tree& t, Srl::Parser& p, Srl::Lib::In::Source i) = 0;
    virtual void root_load(Tree& t) const = 0;     // load_object
    virtual void root_paste(Tree& t) = 0;          // from a loaded tree
    virtual bool root_value(Tree& t, Srl::Parser* p, Srl::Lib::In::Source* i) = 0;   // restore<T>() or unwrap<T>() (without a source), false: not for this type
    virtual void insert(Node& n, const Srl::String& name) const = 0;
    virtual void paste_field(Node& n, const Srl::String& name) = 0;
    virtual void pack2(Tree& t, Srl::Parser& p, Srl::Lib::Out::Source o, const std::string& n1, const std::string& n2, const std::string& extra) const = 0;
    virtual void unpack2(Tree& t, Srl::Parser& p, Srl::Lib::In::Source i, const std::string& n1, const std::string& n2, std::string& extra) = 0;
    virtual bool is_scope() const = 0;
    virtual bool rootable() const = 0;             // storable as the root of a tree
    virtual bool packable() const = 0;             // storable as a single named item
    virtual FieldBase* fresh() const = 0;          // same type, default value
    virtual const char* type_name() const = 0;
};
struct FieldType { const char* name; FieldBase* (*make)(); uint32_t weight; };
std::vector<FieldType>& field_types(int level);     // level 0..2; types usable inside Dyn<level>
FieldBase* make_field(const std::string& type);

struct FieldSpec { std::string name; int enc = 0; const FieldType* type = nullptr; bool optional = false; };
struct Schema { std::vector<FieldSpec> f; bool nameless = false; int style = 0; };  // style 0 resolve
extern thread_local Schema* schemas;      // of the case being worked on
extern Schema default_schemas[3];
void gen_schemas(Gx& g, int max_fields);
std::string show_schema(int level, int depth = 0);
std::string plain_name(const Srl::String& s);
struct SrlName {                      // a temporary field name in one of the encodings
    std::string w8; std::u16string w16; std::u32string w32; Srl::String s;
    SrlName(const std::string& n, int enc);
    void wipe();                      // callers' buffers do not outlive the call
};

template<int L> struct Dyn : Tracked {
    std::vector<std::unique_ptr<FieldBase>> f;
    Dyn()
    {
        user_point("constructor");
        HarnessScope hs;
        for(auto& s : schemas[L].f) f.emplace_back(s.type->make());
    }
    Dyn(Dyn&&) = default;
    Dyn& operator=(Dyn&&) = default;
    void srl_resolve(Context& c)
    {
        user_point("srl_resolve");
        auto& sc = schemas[L];
        for(size_t i = 0; i < f.size(); i++) {
            if(sc.nameless) { f[i]->resolve(c, nullptr, 0); continue; }
            in_harness++; SrlName n(sc.f[i].name, sc.f[i].enc); in_harness--;
            f[i]->resolve(c, &n.s, sc.f[i].optional ? Srl::CtxFlags::Optional : Srl::CtxFlags::None);
            n.wipe();
        }
    }
};
// the same, through separate const store / restore methods
template<int L> struct DynS : Tracked {
    std::vector<std::unique_ptr<FieldBase>> f;
    DynS() { user_point("constructor"); HarnessScope hs; for(auto& s : schemas[L].f) f.emplace_back(s.type->make()); }
    DynS(DynS&&) = default;
    DynS& operator=(DynS&&) = default;
    void srl_store(StoreContext& c) const
    {
        user_point("srl_store");
        for(size_t i = 0; i < f.size(); i++) {
            if(schemas[L].nameless) { f[i]->store(c, nullptr); continue; }
            in_harness++; SrlName n(schemas[L].f[i].name, schemas[L].f[i].enc); in_harness--;
            f[i]->store(c, &n.s);
            n.wipe();
        }
    }
    void srl_restore(RestoreContext& c)
    {
        user_point("srl_restore");
        for(size_t i = 0; i < f.size(); i++) {
            if(schemas[L].nameless) { f[i]->restore(c, nullptr, 0); continue; }
            in_harness++; SrlName n(schemas[L].f[i].name, schemas[L].f[i].enc); in_harness--;
            f[i]->restore(c, &n.s, schemas[L].f[i].optional ? Srl::CtxFlags::Optional : Srl::CtxFlags::None);
        }
    }
};
template<class D, int L> struct DynTr {
    static void gen(D& v, Gx& g) { auto f = g.field; for(auto& e : v.f) { SpanScope sp(g.ch); g.field = schemas[L].nameless ? -1 : g.depth; e->gen(g); } g.field = f; }
    static bool eq(const D& a, const D& b, Ex& x)
    {
        if(a.f.size() != b.f.size()) return x.bad("number of fields");
        for(size_t i = 0; i < a.f.size(); i++) if(!a.f[i]->eq(*b.f[i], x)) return x.bad("field " + std::to_string(i) + " <" + show_text(schemas[L].f[i].name) + "> " + a.f[i]->type_name());
        return true;
    }
    static MV model(const D& v, Mx& m)
    {
        MV r(Type::Object); if(!schemas[L].nameless) { r.kind = K_DYN + L; r.origin = &v.f; } else r.kind = K_POS;
        for(size_t i = 0; i < v.f.size(); i++) v.f[i]->model(r, schemas[L].nameless ? "" : schemas[L].f[i].name, m);
        return r;
    }
    static void destroy(D&) { }
};
template<int L> struct Tr<Dyn<L>> : DynTr<Dyn<L>, L> { };
template<int L> struct Tr<DynS<L>> : DynTr<DynS<L>, L> { };

//---------------------------------------------------------------- polymorphic types
struct Base : Tracked {
    Base() { user_point("constructor"); }
    virtual ~Base() { }
    virtual const Srl::TypeID& srl_type_id() = 0;
    virtual void srl_resolve(Context& c) = 0;
    virtual int  kind() const = 0;
    virtual void gen(Gx& g) = 0;
    virtual bool eq(const Base& o, Ex& x) const = 0;
    virtual MV   model(Mx& m) const = 0;
};
struct PolyA : Base {
    int32_t n = 0; std::string s;
    const Srl::TypeID& srl_type_id() override; void srl_resolve(Context& c) override; int kind() const override { return 0; }
    void gen(Gx& g) override; bool eq(const Base& o, Ex& x) const override; MV model(Mx& m) const override;
};
struct PolyB : Base {
    double d = 0; std::vector<std::string> l; std::map<std::string, int> m;
    const Srl::TypeID& srl_type_id() override; void srl_resolve(Context& c) override; int kind() const override { return 1; }
    void gen(Gx& g) override; bool eq(const Base& o, Ex& x) const override; MV model(Mx& m) const override;
};
struct PolyC : Base {
    std::vector<std::unique_ptr<Base>> kids; uint16_t u = 0;
    const Srl::TypeID& srl_type_id() override; void srl_resolve(Context& c) override; int kind() const override { return 2; }
    void gen(Gx& g) override; bool eq(const Base& o, Ex& x) const override; MV model(Mx& m) const override;
};
template<> struct Tr<Base> {
    static void gen(Base& v, Gx& g) { v.gen(g); }
    static bool eq(const Base& a, const Base& b, Ex& x) { return (a.kind() == b.kind() && a.eq(b, x)) || x.bad("polymorphic kind want " + std::to_string(a.kind()) + " got " + std::to_string(b.kind())); }
    static MV model(const Base& v, Mx& m) { return v.model(m); }
    static void destroy(Base&) { }
};
Base* make_poly(Gx& g);
template<class E> E* make_target(Gx& g)
{
    if constexpr(std::is_same_v<E, Base>) return make_poly(g);
    else { auto* e = new E(); Tr<E>::gen(*e, g); return e; }
}
// recursive user type
struct Rec : Tracked {
    int64_t v = 0; std::string s; std::vector<Rec> kids;
    Rec() { user_point("constructor"); }
    Rec(Rec&&) = default; Rec& operator=(Rec&&) = default; Rec(const Rec&) = default; Rec& operator=(const Rec&) = default;
    void srl_resolve(Context& c) { user_point("srl_resolve"); c("v", v)("s", s)("kids", kids); }
};
template<> struct Tr<Rec> {
    static void gen(Rec& r, Gx& g)
    {
        Tr<int64_t>::gen(r.v, g); r.s = gen_text(g.ch, false);
        auto n = g.large ? (uint32_t)(g.depth < (int)g.large) : g.depth > 4 ? 0 : g.ch.below(3);
        g.depth++; r.kids.clear(); for(uint32_t i = 0; i < n; i++) { SpanScope sp(g.ch); r.kids.emplace_back(); gen(r.kids.back(), g); } g.depth--;
    }
    static bool eq(const Rec& a, const Rec& b, Ex& x)
    {
        if(a.v != b.v || a.s != b.s || a.kids.size() != b.kids.size()) return x.bad("recursive type");
        for(size_t i = 0; i < a.kids.size(); i++) if(!eq(a.kids[i], b.kids[i], x)) return false;
        return true;
    }
    static MV model(const Rec& r, Mx& m)
    {
        MV o(Type::Object); o.kind = K_FIELDS; o.items.push_back({ "v", MV::num(Type::I64, r.v) }); o.items.push_back({ "s", MV::str(r.s) });
        MV k(Type::Array); k.kind = K_NODES; for(auto& e : r.kids) k.items.push_back({ "", model(e, m) });
        o.items.push_back({ "kids", k }); return o;
    }
    static void destroy(Rec&) { }
};

//---------------------------------------------------------------- the field holder
template<class T> struct is_wrapped : std::false_type { };
template<class T> struct is_wrapped<Blob<T>> : std::true_type { };
template<> struct is_wrapped<Raw> : std::true_type { };
template<> struct is_wrapped<ByteS> : std::true_type { };
template<class T> struct is_watched : std::false_type { };
template<class T> struct is_watched<Watched<T>> : std::true_type { };

template<class T, class = void> struct has_root_insert : std::false_type { };
template<class T> struct has_root_insert<T, std::void_t<decltype(Srl::Lib::Switch<T>::Insert(std::declval<Node&>(), std::declval<const T&>()))>> : std::true_type { };

template<class T> struct Holder : FieldBase {
    T v {};
    const char* nm;
    Holder(const char* n) : nm(n) { }
    ~Holder() override { Tr<T>::destroy(v); }
    template<class C> void call(C& c, const Srl::String* name, uint64_t flags)
    {
        auto with = [&](auto&& o) { if(name) c(*name, o, flags); else c(o); };
        if constexpr(is_watched<T>::value) { with(v.owner); if(name) { in_harness++; SrlName n2(name_w(*name), 0); in_harness--; c(n2.s, v.watch, flags); } else c(v.watch); }
        else if constexpr(std::is_same_v<T, ByteS>) { with(v.b); }
        else if constexpr(std::is_same_v<T, Raw>) {
            Srl::BitWrap w(v.v.data(), v.v.size(), [this](size_t n) { HarnessScope hs; v.v.resize(n); return v.v.data(); });
            with(w);
        }
        else if constexpr(is_wrapped<T>::value) { Srl::VecWrap w(v.v); with(w); }
        else with(v);
    }
    static std::string name_w(const Srl::String& s) { return "w" + plain_name(s); }
    void resolve(Context& c, const Srl::String* name, uint64_t flags) override { call(c, name, flags); }
    void store(StoreContext& c, const Srl::String* name) override { call(c, name, 0); }
    void restore(RestoreContext& c, const Srl::String* name, uint64_t flags) override { call(c, name, flags); }
    void gen(Gx& g) override { Tr<T>::gen(v, g); }
    bool eq(const FieldBase& o, Ex& x) const override { return Tr<T>::eq(v, dynamic_cast<const Holder<T>&>(o).v, x); }
    void model(MV& parent, const std::string& name, Mx& m) const override
    {
        if constexpr(is_watched<T>::value) {
            parent.items.push_back({ name, Tr<decltype(v.owner)>::model(v.owner, m) });
            parent.items.push_back({ name.empty() ? "" : "w" + name, Tr<decltype(v.owner)>::model(v.owner, m) });
        } else parent.items.push_back({ name, Tr<T>::model(v, m) });
    }
    static constexpr bool can_pack = !is_wrapped<T>::value && !is_watched<T>::value;
    static constexpr bool is_sc = [] { if constexpr(can_pack) return is_scope_type<T>; else return false; }();
    static constexpr bool can_root = [] { if constexpr(!can_pack) return false; else if constexpr(!is_sc) return true; else return has_root_insert<T>::value; }();
    bool rootable() const override { return can_root; }
    bool packable() const override { return can_pack; }
    bool is_scope() const override { return is_sc || is_watched<T>::value; }
    MV root_model(Mx& m) const override
    {
        if constexpr(can_root) {
            if(is_scope_type<T>) return Tr<T>::model(v, m);
            MV r(Type::Object); r.kind = K_POS; r.items.push_back({ "value", Tr<T>::model(v, m) }); return r;
        } else return MV();
    }
    void root_store(Tree& t, Srl::Parser& p, Srl::Lib::Out::Source o) const override { if constexpr(can_root) t.store(v, o, p); }
    void root_restore(Tree& t, Srl::Parser& p, Srl::Lib::In::Source i) override { if constexpr(can_root) t.restore(v, i, p); }
    void root_load(Tree& t) const override { if constexpr(can_root) t.load_object(v); }
    void root_paste(Tree& t) override
    {
        if constexpr(can_root) { if constexpr(is_scope_type<T>) t.root().paste(v); else t.root().paste_field(0, v); }
    }
    static constexpr bool by_value = can_root && !std::is_array_v<T> && std::is_move_assignable_v<T>;
    bool root_value(Tree& t, Srl::Parser* p, Srl::Lib::In::Source* i) override
    {
        if constexpr(by_value) {
            HarnessScope hs;
            auto run = [&]() -> T { in_harness--; struct H { ~H() { in_harness++; } } h; if(i) return t.restore<T>(*i, *p); if constexpr(is_scope_type<T>) return t.root().template unwrap<T>(); else return t.root().template unwrap_field<T>(0); };
            T n = run();
            Tr<T>::destroy(v); v = std::move(n);
            return true;
        } else return false;
    }
    void insert(Node& n, const Srl::String& name) const override { if constexpr(can_pack) n.insert(name, v); }
    void paste_field(Node& n, const Srl::String& name) override { if constexpr(can_pack) n.paste_field(name, v); }
    void pack2(Tree& t, Srl::Parser& p, Srl::Lib::Out::Source o, const std::string& n1, const std::string& n2, const std::string& extra) const override
        { if constexpr(can_pack) t.pack(o, p, Srl::String(n1), v, Srl::String(n2), extra); }
    void unpack2(Tree& t, Srl::Parser& p, Srl::Lib::In::Source i, const std::string& n1, const std::string& n2, std::string& extra) override
        { if constexpr(can_pack) { t.unpack(i, p, n1, v, n2, extra); } }
    FieldBase* fresh() const override { return new Holder<T>(nm); }
    const char* type_name() const override { return nm; }
};
template<class T> struct RegField {
    static const char*& nm() { static const char* n; return n; }
    RegField(const char* n, uint32_t w = 4, int min_level = 0)
    {
        nm() = n;
        for(int l = min_level; l < 3; l++) field_types(l).push_back({ n, [] () -> FieldBase* { return new Holder<T>(nm()); }, w });
    }
};
const char* type_name(Chooser& ch);                   // of a random type
FieldBase* gen_root(Gx& g, bool need_root, const char* type = nullptr);        // random type and value
}
