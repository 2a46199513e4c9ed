// Damaged and adversarial documents.
#include "cases.h"
namespace sim {
using namespace std;

static string vlq(uint64_t v) { string o; while(v >= 0x80) { o += (char)(v | 0x80); v >>= 7; } o += (char)v; return o; }
string damage(Chooser& ch, string d, const string& other)
{
    auto n = ch.range(1, 3);
    for(uint32_t k = 0; k < n; k++) {
        SpanScope sp(ch);
        auto pos = [&] { return d.empty() ? 0u : ch.below((uint32_t)min<size_t>(d.size(), 1u << 20)); };
        switch(ch.below(12)) {
            case 0: d.resize(pos()); break;
            case 1: if(!d.empty()) d[pos()] ^= (char)(1u << ch.below(8)); break;
            case 2: if(!d.empty()) d[pos()] = (char)ch.below(256); break;
            case 3: { string s; auto m = ch.range(1, 6); for(uint32_t i = 0; i < m; i++) s += (char)ch.below(256); d.insert(pos(), s); break; }
            case 4: { auto p = pos(); d.erase(p, ch.range(1, 8)); break; }
            case 5: if(!d.empty()) { auto p = pos(); auto q = ch.below((uint32_t)min<size_t>(d.size() - p, 64) + 1); d.insert(ch.below((uint32_t)d.size()), d.substr(p, q)); } break;   // duplicate a piece
            case 6: if(!other.empty()) { d = d.substr(0, pos()) + other.substr(ch.below((uint32_t)other.size())); } break;       // splice
            case 7: {   // an interesting number somewhere
                static const uint64_t nums[] = { 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull };
                auto v = nums[ch.below(16)];
                string s;
                if(ch.chance(1, 2)) s = vlq(v);
                else { auto b = ch.of(vector<int> { 1, 2, 4, 8 }); for(int i = 0; i < b; i++) s += (char)(v >> (8 * (b - 1 - i))); }
                auto p = pos();
                if(ch.chance(1, 2)) d.replace(p, min(s.size(), d.size() - p), s); else d.insert(p, s);
                break;
            }
            case 8: d += string(ch.range(1, 40), (char)ch.below(256)); break;
            case 9: d += other; break;
            case 10: if(!d.empty()) { auto p = pos(); char c = d[p]; d.insert(p, ch.range(1, 300), c); } break;
            case 11: { static const char sp[] = "{}[]\",:\\/* -0.eE+utfn\xdf\xdd\xc1\xcf\xdb\xc6\x00"; if(!d.empty()) d[pos()] = sp[ch.below(sizeof sp - 1)]; break; }
        }
    }
    return d;
}
// documents made to hurt
string hostile(Chooser& ch, int fmt)
{
    string d;
    auto rep = [&](const string& s, uint32_t n) { string o; while(n--) o += s; return o; };
    auto depth = [&] { return ch.of(vector<uint32_t> { 5, 100, 126, 127, 128, 129, 130, 1000, 20000 }) + ch.below(3); };
    auto mid = [&] { return ch.chance(1, 2) ? ch.of(vector<uint32_t> { 3, 50, 1000, 3000 }) : ch.chance(1, 2) ? ch.range(1, 140) : ch.of(vector<uint32_t> { 58, 122, 254, 1018, 2040 }) + ch.below(8); };
    if(fmt == F_JSON || fmt == F_JSONS) switch(ch.below(14)) {
        case 0: { auto n = depth(); d = rep("[", n) + (ch.chance(1, 2) ? "1" : "") + rep("]", n); break; }
        case 1: { auto n = depth(); d = rep("{\"a\":", n) + "1" + rep("}", n); break; }
        case 2: { auto n = mid(); d = "{"; for(uint32_t i = 0; i < n; i++) d += (i ? ",\"" : "\"") + string(ch.below(3), 'k') + "\":" + to_string(i); d += "}"; break; }
        case 3: d = "[" + string(mid(), '1') + "]"; break;
        case 4: d = "[1e" + string(mid(), '9') + "]"; break;
        case 5: d = "[0." + string(mid(), '0') + "1]"; break;
        case 6: d = "[\"" + rep("\\", mid()) + "\"]"; break;
        case 7: { auto n = mid(); d = "[\""; for(uint32_t i = 0; i < n; i++) d += ch.of(vector<string> { "\\u0000", "\\ud800", "\\udc00", "\\uFFFF", "\\u12", "\\ud83d\\ude00", "\\x", "\\n", "\\\"" }); d += ch.chance(1, 2) ? "\"]" : ""; break; }
        case 8: d = rep("/*", mid()) + "*/{}"; break;
        case 9: d = string(mid(), ' ') + "{" + string(mid(), ',') + "}"; break;
        case 10: d = "{\"a\"" + string(mid(), ':') + "1}"; break;
        case 11: { auto n = depth(); d = "{\"x\":" + rep("[", n) + rep("]", n) + ",\"value\":1,\"a\":2}"; break; }
        case 12: d = "//" + string(mid(), '/') + (ch.chance(1, 2) ? "\n[]" : ""); break;
        default: d = rep(ch.of(vector<string> { "[[],", "{\"a\":[", "]}", "\"", "tru", "-", "{}" }), mid()); break;
    }
    else if(fmt == F_MSG) switch(ch.below(10)) {
        case 0: { auto n = depth(); d = rep(ch.of(vector<string> { "\x91", string("\xdc\0\1", 3), string("\xdd\0\0\0\1", 5) }), n) + "\xc0"; break; }
        case 1: { auto n = depth(); d = rep(ch.of(vector<string> { "\x81\xa1" "a", string("\xdf\0\0\0\1\xa1" "a", 7) }), n) + "\x01"; break; }
        case 2: d = ch.of(vector<string> { "\xdd\xff\xff\xff\xff", "\xdf\xff\xff\xff\xff", "\xdf\x7f\xff\xff\xff\xa1", "\xdd\xff\xff\xff\xfe\x01" }) + string(ch.below(40), (char)ch.below(256)); break;
        case 3: d = "\x91" + ch.of(vector<string> { "\xdb", "\xc6" }) + ch.of(vector<string> { string("\xff\xff\xff\xff", 4), string("\x7f\xff\xff\xff", 4), string("\x00\x10\x00\x00", 4), string("\0\0\0\0", 4) }) + string(ch.below(2000), 'x'); break;
        case 4: d = string("\xdf", 1) + string("\0\0\0\2", 4) + "\xdb\xff\xff\xff\xf0" + string(ch.below(600), 'n'); break;
        case 5: d = rep("\x90", mid()); break;
        case 6: { auto n = mid(); d = string("\xdd\0\0", 3) + (char)(n >> 8) + (char)n + rep("\x90", n); break; }
        case 7: { auto n = mid(); d = string("\xdf\0\0", 3) + (char)(n >> 8) + (char)n; for(uint32_t i = 0; i < n; i++) d += "\xa1k\x01"; break; }
        case 8: d = "\x92" + string(1, (char)ch.range(0xc0, 0xdf)) + string(ch.below(40), (char)ch.below(256)); break;
        default: d = string(1, (char)ch.range(0x80, 0x9f)); { auto n = ch.below(60); for(uint32_t i = 0; i < n; i++) d += (char)ch.range(0x80, 0xff); } break;
    }
    else switch(ch.below(8)) {
        case 0: { auto n = depth(); d = rep("\x40", n) + rep(string("\0", 1), n); break; }
        case 1: { auto n = depth(); d = rep(ch.of(vector<string> { string("\x40", 1), string("\x80", 1), string("\x42\1a", 3) }), n); break; }
        case 2: d = "\x40" + string(1, (char)ch.below(256)) + rep("\xff", ch.range(1, 40)) + string(ch.below(20), (char)ch.below(256)); break;
        case 3: d = "\x40" + string(1, (char)ch.of(vector<uint32_t> { 0x10, 0x20, 0x12, 0x22, 0x14 })) + vlq(ch.u64()) + string(ch.below(2000), 'x'); break;
        case 4: d = "\x40"; { auto n = mid(); for(uint32_t i = 0; i < n; i++) { d += (char)0x46; d += vlq(ch.below(i + 2)); d += '\0'; } } break;
        case 5: d = rep(string("\x40\0", 2), mid()); break;
        case 6: d = "\x40"; { auto n = ch.below(80); for(uint32_t i = 0; i < n; i++) d += (char)ch.below(256); } break;
        default: { static const unsigned char ty[] = { 0x01, 0x09, 0x11, 0x21, 0x41, 0x81, 0x08, 0x10, 0x20, 0x40, 0x80, 0x03, 0x05, 0x07, 0x22, 0x26, 0x42, 0x46, 0x82, 0x00 };
            d = "\x40"; auto n = ch.range(1, 60); for(uint32_t i = 0; i < n; i++) { d += (char)ty[ch.below(sizeof ty)]; auto m = ch.below(4); for(uint32_t j = 0; j < m; j++) d += (char)ch.below(ch.chance(1, 3) ? 256 : 6); } }
    }
    return d;
}
// Whitespace or a comment between two tokens of a JSON document, of a size that brings some point of it to where the reader has to fetch more.
string align_json(Chooser& ch, const string& d, bool comments)
{
    vector<uint32_t> gaps, points;     // behind a token that opens or separates; anything
    bool in = false;
    for(size_t i = 0; i < d.size() && i < 1u << 16; i++) {
        char c = d[i];
        if(in) { if(c == '\\') { points.push_back(i); i++; } else if(c == '"') { in = false; points.push_back(i); } continue; }
        points.push_back(i);
        if(c == '"') in = true;
        else if(c == '{' || c == '[' || c == ',' || c == ':') gaps.push_back(i + 1);
        else if(c == '/') return d;
    }
    if(gaps.empty()) return d;
    auto at = ch.of(gaps);
    bool comment = comments && ch.chance(1, 2), line = comment && ch.chance(1, 3);
    string body;
    static const char junk[] = "*/\"\\{}[]:, x\n";
    uint32_t least = comment ? line ? 3 : 4 : 0;
    if(comment) { auto n = ch.below(6); for(uint32_t i = 0; i < n; i++) { char c = junk[ch.below(sizeof junk - 1)]; if((c == '/' && !line && !body.empty() && body.back() == '*') || (line && c == '\n')) c = ' '; body += c; } }
    // offset that matters: the end of the filling or a later point
    uint32_t off = at;
    if(ch.chance(1, 2)) { vector<uint32_t> later; for(auto p : points) if(p >= at) later.push_back(p); if(!later.empty()) off = ch.of(later); }
    int64_t want = 1024 * (int64_t)ch.range(1, 3) + (int64_t)ch.below(9) - 4;
    while(want < (int64_t)(off + least + body.size())) want += 1024;
    size_t fill = want - off - least - body.size();
    string s;
    if(!comment) s = string(fill, " \n\t\r"[ch.below(4)]);
    else { string pad(fill, ch.chance(1, 4) ? '*' : 'c'); s = line ? "//" + pad + body + "\n" : (body.empty() || body[0] != '/' || pad.empty() || pad.back() != '*') ? "/*" + pad + body + "*/" : "/*" + pad + " " + body.substr(1) + "*/"; }
    if(comment && !line && s.find("*/", 2) != s.size() - 2) return d;     // "/*/"
    count(comment ? "doc.comment-at-edge" : "doc.space-at-edge");
    return d.substr(0, at) + s + d.substr(at);
}
string gen_document(Chooser& ch, int fmt, int only, bool large)     // some valid document, by a foreign writer
{
    DocOpts o; o.binary = fmt < F_JSON; o.special_fp = fmt < F_JSON; o.dup_names = ch.chance(1, 6); o.only = only;
    if(large && ch.chance(1, 60)) { auto m = gen_large_doc(ch, o); Chooser priv; priv.init_private(ch.u64()); return encode(fmt, m, ch.chance(2, 3) ? &priv : nullptr); }
    auto m = gen_doc(ch, o);
    if(only < 0 && ch.chance(1, 8)) { MV w(Type::Object); w.items.push_back({ "x", MV::str(string(1024 * ch.range(1, 2) - ch.below(40), 'p')) }); w.items.push_back({ "y", m }); m = w; count("doc.pushed-to-edge"); }
    return encode(fmt, m, ch.chance(2, 3) ? &ch : nullptr);
}
}
