// Reference model of a document, independent of the library's data structures.
#pragma once
#include "core.h"
#include "dev.h"
#include <map>
#include <set>

namespace sim {
using Srl::Type;

struct MV {
    Type tp = Type::Null;
    int64_t i = 0; uint64_t u = 0; double d = 0; bool b = false;
    std::string s;                                     // UTF-8 text or bytes
    std::vector<std::pair<std::string, MV>> items;     // of a scope, in document order
    int kind = 0; const void* origin = nullptr;        // of an object: K_FIELDS if looked up by name, K_DYN + level of the user type with its instance
    MV() { }
    explicit MV(Type t) : tp(t) { }
    static MV str(const std::string& s)  { MV m(Type::String); m.s = s; return m; }
    static MV bin(const std::string& s)  { MV m(Type::Binary); m.s = s; return m; }
    static MV boolean(bool v)            { MV m(Type::Bool); m.b = v; return m; }
    template<class T> static MV num(Type t, T v)
    {
        MV m(t);
        if(t == Type::FP32 || t == Type::FP64) m.d = (double)v;
        else if(t == Type::UI8 || t == Type::UI16 || t == Type::UI32 || t == Type::UI64) m.u = (uint64_t)v;
        else m.i = (int64_t)v;
        return m;
    }
    bool scope() const { return tp == Type::Object || tp == Type::Array; }
};
// how the parts of a scope are found: by name; by their place among the values or nodes; all values or all nodes in turn
enum { K_ANY, K_FIELDS, K_POS, K_VALS, K_NODES, K_DYN };
inline bool is_int(Type t)   { return t >= Type::I8 && t <= Type::UI64; }
inline bool is_uns(Type t)   { return t == Type::UI8 || t == Type::UI16 || t == Type::UI32 || t == Type::UI64; }
inline bool is_fp(Type t)    { return t == Type::FP32 || t == Type::FP64; }
inline bool neg(const MV& m) { return is_int(m.tp) && !is_uns(m.tp) && m.i < 0; }
inline uint64_t mag(const MV& m) { return is_uns(m.tp) ? m.u : (uint64_t)m.i; }

std::string show(const MV& m, size_t max = 400);
MV split(const MV& m);                                  // values before nodes at every level (tree order)
// what: 0 exact types; F_JSON.. etc: types as far as the format keeps them
bool mv_equal(const MV& want, const MV& got, int fmt, std::string& why, const std::string& path = "");
MV dump(Srl::Node& n);                                  // the library's tree, through its public interface
MV dump_value(const Srl::Value& v);
std::string mv_digest(const MV& m);

// text helpers written independently of the library
std::string utf16_to_utf8(const std::u16string& s);
std::string utf32_to_utf8(const std::u32string& s);
std::u16string utf8_to_utf16(const std::string& s);
std::u32string utf8_to_utf32(const std::string& s);
std::string base64(const std::string& bytes);
bool valid_utf8(const std::string& s);

// independent codecs
struct EncOpts {                 // legal freedoms of a foreign writer
    Chooser* ch = nullptr;       // nullptr: canonical
};
struct DecodeError { std::string msg; };
MV decode_json(const std::string& s);        // strict RFC 8259; throws DecodeError
MV decode_msgpack(const std::string& s);
MV decode_psrl(const std::string& s);
MV decode(int fmt, const std::string& s);
std::string encode_json(const MV& m, Chooser* ch);
std::string encode_msgpack(const MV& m, Chooser* ch);
std::string encode_psrl(const MV& m, Chooser* ch);
std::string encode(int fmt, const MV& m, Chooser* ch);

// random documents
struct DocOpts { int max_depth = 4; int max_items = 6; bool binary = true; bool special_fp = false; bool big = true; bool ctl = true; bool dup_names = false; bool empty_names = false; int only = -1; };
std::string gen_text(Chooser& ch, bool big = true, bool ctl = true);   // UTF-8
extern const std::vector<std::string> alike_names;
std::string gen_text_of(Chooser& ch, uint32_t n, bool ctl = true);   // of exactly (about) this size
std::string gen_bytes_of(Chooser& ch, uint32_t n);
std::string gen_bytes(Chooser& ch, bool big = true);
std::string gen_name(Chooser& ch);
std::string gen_name(Chooser& ch, const std::set<std::string>& used);   // sometimes a different one with the hash of one in use
MV gen_scalar(Chooser& ch, const DocOpts& o);
MV gen_doc(Chooser& ch, const DocOpts& o, int depth = 0);
MV gen_large_doc(Chooser& ch, const DocOpts& o);
uint32_t gen_len(Chooser& ch, bool big);
}
