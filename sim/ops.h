// Operations of the public interface with all their inputs prepared, so that they can be repeated exactly.
#pragma once
#include "cases.h"

namespace sim {
struct Fault {
    enum K { NONE, ALLOC, ICONV, USER, OUT, IN } k = NONE;
    uint64_t at = 0; bool sticky = false; uint64_t every = 0;
    OutFaults out; int64_t in_at = -1; bool in_throws = false;
};
struct Op {
    enum K { STORE, RESTORE, LOAD, CONVERT, OBJECT, TEXT, VALUE } k = STORE;
    std::shared_ptr<Case> c;
    bool via = false;            // by way of a tree
    int  fmt = 0, fmt2 = 0;      // LOAD, CONVERT
    std::string doc;             // RESTORE, LOAD, CONVERT
    bool valid = true;           // the document is undamaged
    WritePlan w; ReadPlan r;
    std::string text; int enc = 0, tool = 0;
    std::vector<MV> scalars;
    std::string show() const;
};
struct Bias { int k = -1, fmt = -1, fmt2 = -1, tool = -1, only = -1; const char* type = nullptr; };   // what all operations have in common
struct Outcome {
    Guard g; bool stream_good = true; bool fired = false, caught = false;   // a fault took effect; an exception was seen within the operation
    bool lenient = false;        // failures are not reported by request of the caller
    std::string bytes;           // produced
    MV content; bool has_content = false;
    std::string key(bool partial = false) const;            // everything observable, for comparison
};
struct Env { std::unique_ptr<Tree> t; std::unique_ptr<Srl::Parser> p[4]; Env(); };
Op gen_op(Chooser& ch, bool big = false, bool damaged_ok = true, bool foreign = false, const Bias* bias = nullptr);   // foreign: prepared without the library
void edit_session(Chooser& ch, bool faults, bool often = false);                       // c09.cpp
Outcome run_op(const Op& op, Tree& t, std::unique_ptr<Srl::Parser>* p, const Fault* f = nullptr, uint64_t* allocs = nullptr);
Fault gen_fault(Chooser& ch, const Op& op, uint64_t allocs);
std::string show(const Fault& f);
}
