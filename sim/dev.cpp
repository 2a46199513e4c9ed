#include "dev.h"
namespace sim {
std::vector<uint32_t> gen_pieces(Chooser& ch)
{
    std::vector<uint32_t> v;
    switch(ch.below(6)) {
        case 0: break;                                 // everything at once
        case 1: v = { 1 }; break;
        case 2: v = { ch.range(2, 40) }; break;
        case 3: v = { ch.range(1000, 1050) }; break;
        default: { auto n = ch.range(1, 6); for(uint32_t i = 0; i < n; i++) v.push_back(ch.chance(1, 4) ? ch.range(1, 1100) : ch.range(1, 9)); }
    }
    return v;
}
size_t gen_put_area(Chooser& ch)
{
    switch(ch.below(5)) { case 0: return 0; case 1: return 1; case 2: return ch.range(2, 64); case 3: return ch.range(1000, 1100); default: return 8191; }
}
const char* fmt_name(int f) { static const char* n[] = { "PSrl", "PMsgPack", "PJson", "PJson(spaced)" }; return n[f]; }
std::unique_ptr<Srl::Parser> make_parser(int fmt)
{
    switch(fmt) {
        case F_SRL: return std::unique_ptr<Srl::Parser>(new Srl::PSrl());
        case F_MSG: return std::unique_ptr<Srl::Parser>(new Srl::PMsgPack());
        case F_JSON: return std::unique_ptr<Srl::Parser>(new Srl::PJson(true));
        default: return std::unique_ptr<Srl::Parser>(new Srl::PJson(false));
    }
}
int gen_format(Chooser& ch) { return (int)ch.below(4); }
const char* verdict_name(Verdict v)
{
    static const char* n[] = { "ok", "rejected", "bad_alloc", "user-error", "io-error", "length-error" };
    return n[v];
}
}
