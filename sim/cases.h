// A case: an object of a random type, a format, a way to store it and ways to restore it.
#pragma once
#include "zoo.h"

namespace sim {
enum StoreWay { SW_STORE, SW_TREE, SW_PACK, SW_INSERT };    // direct; load_object + to_source; pack; Node::insert + to_source
enum ReadWay  { RW_DIRECT, RW_TREE };                       // restore/unpack; load_source + paste
struct Case {
    Gx g; int fmt;
    std::unique_ptr<FieldBase> f;
    bool pair = false;                 // document { n1: object, n2: extra } instead of the object itself
    std::string n1, n2, extra;
    Schema own[3];                     // of its user types
    Case(Chooser& ch, int fmt_) : g { ch, fmt_ }, fmt(fmt_) { }
    Case(const Case&) = delete;
    void use() const { schemas = const_cast<Schema*>(own); }
    ~Case() { if(schemas == own) schemas = default_schemas; }
};
std::unique_ptr<Case> gen_case(Chooser& ch, int fmt = -1, bool big = true, const char* type = nullptr);
// one large object: a container, string or blob with a size around a boundary, or a deeply nested type
std::unique_ptr<Case> gen_large_case(Chooser& ch, int fmt = -1);
Guard store_case(const Case& c, Tree& t, Srl::Parser& p, Srl::Lib::Out::Source o, bool via_tree);
struct Got { std::unique_ptr<FieldBase> f; std::string extra; };
Got   fresh_got(const Case& c);
Guard restore_case(const Case& c, Got& g, Tree& t, Srl::Parser& p, Srl::Lib::In::Source i, bool via_tree, bool by_value = false);
bool  equal_case(const Case& c, const Got& g, std::string& why);
MV    model_case(const Case& c, bool via_tree);
std::string show_case(const Case& c);

// document written to / read from simulated devices
struct WritePlan { bool stream = true; size_t area = 0; std::vector<uint32_t> pieces; std::string prefix, rest; };   // rest: what the file holds behind the prefix before the document is written
WritePlan gen_write_plan(Chooser& ch);
struct ReadPlan { bool stream = true; InPlan in; bool value = false; };   // value: objects are returned instead of filled
ReadPlan gen_read_plan(Chooser& ch);
std::string show(const WritePlan& w);
std::string show(const ReadPlan& w);
// stores on a healthy device; fails the run if that does not work
std::string store_doc(const Case& c, Tree& t, Srl::Parser& p, const WritePlan& w, bool via_tree);
Guard read_doc(const Case& c, Got& g, Tree& t, Srl::Parser& p, const std::string& doc, ReadPlan& r, bool via_tree);
// runs fn with a source over the bytes: exact-size private memory or a simulated stream
template<class F> Guard with_source(const std::string& doc, ReadPlan& r, F&& fn)
{
    if(r.stream) {
        InStream is(doc, &r.in);
        if(r.in.error_throws) is.exceptions(std::ios::badbit);
        return guarded([&] { fn(Srl::Lib::In::Source(is)); });
    }
    std::unique_ptr<uint8_t[]> mem(new uint8_t[doc.size()]);
    memcpy(mem.get(), doc.data(), doc.size());
    return guarded([&] { fn(Srl::Lib::In::Source(mem.get(), doc.size())); });
}
}
namespace sim {
std::string damage(Chooser& ch, std::string d, const std::string& other);
std::string hostile(Chooser& ch, int fmt);
std::string align_json(Chooser& ch, const std::string& d, bool comments);
std::string gen_document(Chooser& ch, int fmt, int only = -1, bool large = false);
}
