// Driver: forks one child per simulated run, collects, minimises, replays.
#include "core.h"
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <map>

namespace sim {
static std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
static std::vector<Finding>& findings() { static std::vector<Finding> v; return v; }
void add_scenario(const Scenario& s) { scenarios().push_back(s); }
void add_finding(const Finding& f) { findings().push_back(f); }
}
using namespace sim;
using namespace std;

static int err_fd = -1;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Outcome {
    string   cls, detail;     // cls empty: held
    bool     harness = false; // the machinery failed, not the code
    uint64_t hash = 0;
};

static const Scenario* choose_scenario(const string& prop, Chooser& ch)
{
    vector<const Scenario*> v; uint32_t sum = 0;
    for(auto& s : scenarios()) if(prop == s.prop && s.weight) { v.push_back(&s); sum += s.weight; }
    if(v.empty()) harness_error("no scenario for %s", prop.c_str());
    sort(v.begin(), v.end(), [](auto* a, auto* b) { return strcmp(a->name, b->name) < 0; });
    if(v.size() == 1) return v[0];
    uint32_t x = ch.below(sum);
    for(auto* s : v) { if(x < s->weight) return s; x -= s->weight; }
    return v[0];
}

static void reset_result()
{
    memset(R, 0, offsetof(Result, states));
    R->hash = 1469598103934665603ull; R->sched_hash = 1469598103934665603ull;
    memset(R->edges, 0, sizeof R->edges);
    R->trace[0] = 0;
}

struct RunSpec {
    string prop;
    uint64_t seed = 0;
    vector<uint32_t> rep; bool use_rep = false, extend = false;
    uint8_t fill = 0xA5;
};

static void child_main(const RunSpec& rs)
{
    dup2(err_fd, 2);
    A.fill = rs.fill;
    Chooser ch;
    ch.init(rs.seed, rs.use_rep ? rs.rep.data() : nullptr, (uint32_t)rs.rep.size(), rs.extend);
    auto* sc = choose_scenario(rs.prop, ch);
    R->flags = sc->flags;
    trace("scenario %s/%s", sc->prop, sc->name);
    ledger_reset();
    cov_on = true;
    try {
        sc->run(ch);
    } catch(std::exception& e) {
        harness_error("exception escaped from scenario %s: %s", sc->name, e.what());
    } catch(...) {
        harness_error("unknown exception escaped from scenario %s", sc->name);
    }
    if(sched_active) harness_error("scheduler still active");
    if(iconv_open_handles() != 0) {
        fail("iconv-handle-leak", "%llu converter handles are still open at the end of the run", (unsigned long long)iconv_open_handles());
    }
    auto left = ledger_live();
    if(left && !(sc->flags & SC_NO_LEAK_CHECK)) {
        // function-local statics stay alive once; a leak grows with every repetition
        vector<uint32_t> c(R->choices, R->choices + R->n_choices);
        auto hash = R->hash; auto nch = R->n_choices; auto nsp = R->n_spans; auto tl = R->trace_len;
        uint64_t grown = 0;
        for(int rep = 0; rep < 2; rep++) {
            auto before = ledger_live();
            R->n_choices = R->n_spans = 0;
            Chooser c2; c2.init(0, c.data(), (uint32_t)c.size());
            auto* s2 = choose_scenario(rs.prop, c2);
            try { s2->run(c2); } catch(...) { harness_error("exception escaped from repetition"); }
            auto after = ledger_live();
            grown = after > before ? after - before : 0;
            if(!grown) break;
        }
        memcpy(R->choices, c.data(), c.size() * 4);
        R->hash = hash; R->n_choices = nch; R->n_spans = nsp; R->trace_len = tl; R->trace[tl] = 0;
        if(grown) {
            ledger_describe(3);
            fail("leak", "%llu allocations made by the library are still live at the end of the run, again with every repetition",
                 (unsigned long long)grown);
        }
    }
    cov_on = false;
    R->steps += steps;
    R->peak_mem = max(R->peak_mem, A.peak);
    R->status = ST_OK;
}

static string slurp_err()
{
    string s; char buf[4096]; off_t o = 0; ssize_t n;
    while((n = pread(err_fd, buf, sizeof buf, o)) > 0 && s.size() < 20000) { s.append(buf, n); o += n; }
    return s;
}

static string classify_stderr(const string& e, int wst)
{
    auto p = e.find("ERROR: AddressSanitizer: ");
    if(p != string::npos) {
        p += 25;
        auto q = e.find_first_of(" \n", p);
        string k = e.substr(p, q - p);
        if(k == "requested") k = "allocation-size-too-big";
        string rw;
        if(e.find("READ of size", p) != string::npos) rw = ":read";
        else if(e.find("WRITE of size", p) != string::npos) rw = ":write";
        return "asan:" + k + rw;
    }
    p = e.find("runtime error: ");
    if(p != string::npos) {
        auto b = e.rfind('\n', p); b = b == string::npos ? 0 : b + 1;
        string loc = e.substr(b, p - b);
        auto sl = loc.rfind('/'); if(sl != string::npos) loc = loc.substr(sl + 1);
        while(!loc.empty() && (loc.back() == ' ' || loc.back() == ':')) loc.pop_back();
        // drop the column
        auto c = loc.rfind(':'); if(c != string::npos) loc = loc.substr(0, c);
        auto en = e.find('\n', p);
        string msg = e.substr(p + 15, min((size_t)40, en - p - 15));
        for(auto& ch : msg) if(ch >= '0' && ch <= '9') ch = '#';
        return "ubsan:" + loc + ":" + msg;
    }
    p = e.find("terminate called after throwing an instance of '");
    if(p != string::npos) {
        p += 48; auto q = e.find('\'', p);
        return "terminate:" + e.substr(p, q - p);
    }
    if(e.find("terminate called") != string::npos) return "terminate";
    if(e.find("pure virtual method called") != string::npos) return "pure-virtual-call";
    if(WIFSIGNALED(wst)) return "signal:" + to_string(WTERMSIG(wst));
    return "exit:" + to_string(WIFEXITED(wst) ? WEXITSTATUS(wst) : -1);
}

static Outcome judge(int st)
{
    Outcome o; o.hash = R->hash;
    if(R->status == ST_OK && WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    if(R->status == ST_VIOLATION) { o.cls = R->cls; o.detail = R->detail; if(o.cls == "leak") o.detail += "\n" + slurp_err().substr(0, 5000); return o; }
    if(R->status == ST_HARNESS_ERROR) { o.cls = R->cls; o.detail = R->detail; o.harness = true; return o; }
    auto e = slurp_err();
    o.cls = classify_stderr(e, st);
    o.detail = e.substr(0, 6000);
    if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM)) o.harness = true;
    return o;
}

// a fresh process for one run
static Outcome run_once(const RunSpec& rs)
{
    reset_result();
    if(ftruncate(err_fd, 0)) { }
    lseek(err_fd, 0, SEEK_SET);
    fflush(stdout);
    pid_t pid = fork();
    if(pid < 0) { perror("fork"); exit(2); }
    if(pid == 0) {
        // generous: only a hang outside instrumented code can reach it
        alarm(120);
        child_main(rs);
        _exit(0);
    }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    return judge(st);
}

// exploration: up to `batch` runs share a process, as long as each leaves nothing behind
struct Req { uint64_t seed; uint32_t n; bool use_rep, extend; uint8_t fill; uint32_t rep[MAX_CHOICES]; };
static Req* Q = nullptr;
static pid_t srv = -1;
static int to_srv = -1, from_srv = -1, srv_left = 0, batch = 24;
static void server_stop()
{
    if(srv < 0) return;
    close(to_srv); close(from_srv);
    int st; while(waitpid(srv, &st, 0) < 0 && errno == EINTR) { }
    srv = -1;
}
static Outcome run_shared(const RunSpec& rs, bool& fresh)
{
    if(batch <= 1) { fresh = true; return run_once(rs); }
    if(!Q) Q = (Req*)mmap(nullptr, sizeof(Req), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    reset_result();
    fresh = false;
    if(srv >= 0 && srv_left <= 0) server_stop();
    if(srv < 0) {
        fresh = true; srv_left = batch;
        if(ftruncate(err_fd, 0)) { }
        lseek(err_fd, 0, SEEK_SET);
        int p[2], q[2]; if(pipe(p) || pipe(q)) { perror("pipe"); exit(2); }
        fflush(stdout);
        srv = fork();
        if(srv < 0) { perror("fork"); exit(2); }
        if(srv == 0) {
            close(p[1]); close(q[0]);
            char c;
            while(read(p[0], &c, 1) == 1) {
                RunSpec r; r.prop = rs.prop; r.seed = Q->seed; r.use_rep = Q->use_rep; r.extend = Q->extend; r.fill = Q->fill;
                r.rep.assign(Q->rep, Q->rep + Q->n);
                alarm(120);
                child_main(r);
                alarm(0);
                char ok = A.live == 0 && ledger_live() == 0 && run_left_clean();
                if(write(q[1], &ok, 1) != 1) _exit(0);
            }
            _exit(0);
        }
        close(p[0]); close(q[1]); to_srv = p[1]; from_srv = q[0];
    }
    Q->seed = rs.seed; Q->use_rep = rs.use_rep; Q->extend = rs.extend; Q->fill = rs.fill; Q->n = (uint32_t)rs.rep.size();
    if(!rs.rep.empty()) memcpy(Q->rep, rs.rep.data(), rs.rep.size() * 4);
    char c = 1;
    srv_left--;
    ssize_t w = write(to_srv, &c, 1), n;
    (void)w;
    while((n = read(from_srv, &c, 1)) < 0 && errno == EINTR) { }
    if(n == 1) { if(!c) srv_left = 0; return judge(0); }
    // it died
    close(to_srv); close(from_srv);
    int st = 0;
    while(waitpid(srv, &st, 0) < 0 && errno == EINTR) { }
    srv = -1;
    return judge(st);
}

//---------------------------------------------------------------- minimisation
struct Shrinker {
    RunSpec base; string cls; vector<uint32_t> best; vector<Span> spans; double deadline; uint64_t tries = 0;
    Outcome best_out;
    bool attempt(const vector<uint32_t>& c)
    {
        if(now() > deadline) return false;
        RunSpec rs = base; rs.use_rep = true; rs.extend = false; rs.rep = c;
        tries++;
        auto o = run_once(rs);
        if(o.harness || o.cls != cls) return false;
        vector<uint32_t> nc(R->choices, R->choices + min<uint32_t>(R->n_choices, MAX_CHOICES));
        // normalise: trailing zeros are implied
        while(!nc.empty() && nc.back() == 0) nc.pop_back();
        auto less = [](const vector<uint32_t>& a, const vector<uint32_t>& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; };
        if(!less(nc, best)) return false;
        best = nc;
        spans.assign(R->spans, R->spans + R->n_spans);
        best_out = o;
        return true;
    }
    void run()
    {
        bool progress = true;
        while(progress && now() < deadline) {
            progress = false;
            // drop whole spans, large first
            auto sp = spans;
            sort(sp.begin(), sp.end(), [](const Span& a, const Span& b) { return a.e - a.b > b.e - b.b; });
            for(size_t i = 0; i < sp.size() && now() < deadline; i++) {
                auto s = sp[i];
                if(s.e <= s.b || s.b >= best.size()) continue;
                auto c = best;
                c.erase(c.begin() + s.b, c.begin() + min<size_t>(s.e, c.size()));
                if(attempt(c)) { progress = true; break; }
                // drop and lower the choice before it (usually a count)
                if(s.b > 0) for(size_t back = 1; back <= 2 && back <= s.b; back++) {
                    auto d = c; if(d.size() > s.b - back && d[s.b - back] > 0) { d[s.b - back]--; if(attempt(d)) { progress = true; break; } }
                }
                if(progress) break;
            }
            if(progress) continue;
            for(size_t blk = best.size() / 2; blk >= 1 && now() < deadline; blk /= 2) {
                for(size_t i = 0; i + blk <= best.size() && now() < deadline; i += blk) {
                    auto c = best; c.erase(c.begin() + i, c.begin() + i + blk);
                    if(attempt(c)) { progress = true; i = i >= blk ? i - blk : 0; continue; }
                    bool nz = false; for(size_t k = i; k < i + blk; k++) nz |= best[k] != 0;
                    if(nz && blk > 1) {
                        c = best; fill(c.begin() + i, c.begin() + i + blk, 0);
                        if(attempt(c)) progress = true;
                    }
                }
            }
            for(size_t i = 0; i < best.size() && now() < deadline; i++) {
                if(best[i] == 0) continue;
                auto c = best; c[i] = 0;
                if(attempt(c)) { progress = true; continue; }
                uint32_t lo = 0;
                for(int k = 0; k < 12 && i < best.size() && best[i] > lo + 1; k++) {
                    c = best; c[i] = lo + (best[i] - lo) / 2;
                    if(attempt(c)) progress = true; else lo = c[i];
                }
                if(i < best.size() && best[i] > 0) { c = best; c[i]--; if(attempt(c)) progress = true; }
            }
        }
    }
};

static string jstr(const string& s)
{
    string o = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { o += '\\'; o += c; }
        else if(c == '\n') o += "\\n";
        else if(c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static uint64_t cov_sig(uint32_t n)
{
    uint64_t h = 1469598103934665603ull;
    for(uint32_t i = 0; i < n; i++) {
        auto e = R->edges[i];
        if(!e) continue;
        int b = e < 2 ? 0 : e < 4 ? 1 : e < 16 ? 2 : e < 128 ? 3 : 4;
        uint32_t v[2] = { i, (uint32_t)b };
        h = fnv(v, sizeof v, h);
    }
    return h;
}

static void write_replay(const string& path, const RunSpec& rs, const string& cls, const string& detail, uint64_t hash,
                         const vector<uint32_t>& choices, const string& trc, uint64_t run, uint64_t orig, const string& variant,
                         int fill2 = -1, uint64_t hash2 = 0)
{
    ofstream f(path);
    f << "{\n \"property\": " << jstr(rs.prop) << ",\n \"class\": " << jstr(cls) << ",\n \"hash\": \"" << hex << hash << dec
      << "\",\n \"seed\": " << rs.seed << ",\n \"run\": " << run << ",\n \"variant\": " << jstr(variant) << ",\n \"fill\": " << (int)rs.fill << ",\n \"fill2\": " << fill2 << ",\n \"hash2\": \"" << std::hex << hash2 << std::dec << "\",\n \"choices_before_minimisation\": " << orig
      << ",\n \"detail\": " << jstr(detail) << ",\n \"trace\": [\n";
    istringstream is(trc); string l; bool first = true;
    while(getline(is, l)) { f << (first ? "  " : ",\n  ") << jstr(l); first = false; }
    f << "\n ],\n \"choices\": [";
    for(size_t i = 0; i < choices.size(); i++) f << (i ? "," : "") << choices[i];
    f << "]\n}\n";
}

static bool read_replay(const string& path, RunSpec& rs, string& cls, uint64_t& hash, int& fill2, uint64_t& hash2)
{
    ifstream f(path); if(!f) return false;
    stringstream ss; ss << f.rdbuf(); auto s = ss.str();
    auto get = [&](const string& key) {
        auto p = s.find("\n \"" + key + "\": "); if(p == string::npos) return string();
        p += key.size() + 6; auto e = s.find('\n', p); auto v = s.substr(p, e - p);
        if(!v.empty() && v.back() == ',') v.pop_back();
        if(v.size() > 1 && v[0] == '"') {
            string o; for(size_t i = 1; i + 1 < v.size(); i++) { if(v[i] == '\\' && v[i + 1] != 'u') { i++; o += v[i] == 'n' ? '\n' : v[i]; } else o += v[i]; }
            return o;
        }
        return v;
    };
    rs.prop = get("property"); cls = get("class"); hash = strtoull(get("hash").c_str(), nullptr, 16);
    rs.seed = strtoull(get("seed").c_str(), nullptr, 10); rs.fill = (uint8_t)atoi(get("fill").c_str());
    auto f2 = get("fill2"); fill2 = f2.empty() ? -1 : atoi(f2.c_str()); hash2 = strtoull(get("hash2").c_str(), nullptr, 16);
    auto p = s.find("\"choices\": ["); if(p == string::npos) return false;
    p += 12;
    while(p < s.size() && s[p] != ']') { rs.rep.push_back((uint32_t)strtoul(&s[p], nullptr, 10)); p = s.find_first_of(",]", p); if(s[p] == ',') p++; }
    rs.use_rep = true;
    return true;
}

int main(int argc, char** argv)
{
    // one address space layout for all executions, where the system allows it
    int pers = personality(0xffffffff);
    if(pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        if(personality(pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    map<string, string> opt; string cmd = argc > 1 ? argv[1] : "";
    vector<string> pos;
    for(int i = 2; i < argc; i++) {
        string a = argv[i];
        if(a.rfind("--", 0) == 0 && i + 1 < argc) { opt[a.substr(2)] = argv[++i]; } else pos.push_back(a);
    }
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(R == MAP_FAILED) { perror("mmap"); return 2; }
    err_fd = memfd_create("err", 0);
    if(err_fd < 0) { perror("memfd_create"); return 2; }
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 8u << 20; setrlimit(RLIMIT_STACK, &rl);

    if(cmd == "replay") {
        RunSpec rs; string cls; uint64_t hash, hash2; int fill2;
        if(pos.empty() || !read_replay(pos[0], rs, cls, hash, fill2, hash2)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
        auto o = run_once(rs);
        if(cls == "uninitialised-memory" && fill2 >= 0 && o.cls.empty()) {
            // two executions that differ only in the content of fresh memory
            RunSpec r2 = rs; r2.fill = (uint8_t)fill2;
            auto o2 = run_once(r2);
            if(o2.cls.empty() && o2.hash == hash2 && o2.hash != o.hash) o.cls = cls;
        }
        printf("class %s\nhash %llx\nharness %d\n", o.cls.c_str(), (unsigned long long)o.hash, o.harness);
        if(opt.count("verbose")) printf("%s\n--- detail\n%s\n", R->trace, o.detail.c_str());
        // also usable by hand: 1 when the file's violation shows
        return o.cls == cls && !cls.empty() ? 1 : o.cls.empty() ? 0 : 3;
    }
    if(cmd == "one") {
        RunSpec rs; rs.prop = opt["prop"];
        rs.seed = strtoull(opt["seed"].c_str(), nullptr, 10);
        auto o = run_once(rs);
        printf("%s\nclass [%s] hash %llx steps %llu choices %u\n%s\n", R->trace, o.cls.c_str(), (unsigned long long)o.hash, (unsigned long long)R->steps, R->n_choices, o.detail.c_str());
        return 0;
    }
    if(cmd == "findings") {
        for(auto& f : findings()) {
            if(opt["prop"] != f.prop) continue;
            if(ftruncate(err_fd, 0)) { }
            pid_t pid = fork();
            if(pid == 0) { dup2(err_fd, 2); alarm(60); reset_result(); bool s = false; try { s = f.shows(); } catch(...) { s = true; } _exit(s ? 1 : 0); }
            int st; waitpid(pid, &st, 0);
            bool shows = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            printf("finding %s %d %s\n", f.id, shows, f.what);
        }
        return 0;
    }
    if(cmd != "worker") { fprintf(stderr, "usage: sim worker|replay|one|findings\n"); return 2; }

    string prop = opt["prop"], outdir = opt["out"], variant = opt.count("variant") ? opt["variant"] : "";
    uint64_t seed = strtoull(opt["seed"].c_str(), nullptr, 10);
    uint64_t idx = strtoull(opt["index"].c_str(), nullptr, 10), of = max<uint64_t>(1, strtoull(opt["of"].c_str(), nullptr, 10));
    double seconds = atof(opt["seconds"].c_str());
    uint64_t max_runs = opt.count("max-runs") ? strtoull(opt["max-runs"].c_str(), nullptr, 10) : ~0ull;
    double shrink_s = opt.count("shrink") ? atof(opt["shrink"].c_str()) : 30;
    uint64_t audit = opt.count("audit") ? strtoull(opt["audit"].c_str(), nullptr, 10) : 16;

    double t0 = now();
    unordered_set<uint64_t> sigs, traces, scheds, states;
    map<string, uint64_t> counters;
    uint64_t runs = 0, steps_total = 0, max_steps = 0, unreproduced = 0, simt = 0, evals = 0, switches = 0, audited = 0, mutated = 0, unrepeated = 0, peak = 0;
    vector<uint8_t> seen(MAX_GUARDS, 0);
    struct Ent { vector<uint32_t> c; };
    vector<Ent> corpus;
    vector<string> samples;
    string viol_path, err, noted;
    uint64_t prop_h = fnv(prop.data(), prop.size());
    Chooser meta;    // the driver's own choices; not recorded
    uint64_t ms = seed * 0x9e3779b97f4a7c15ull + idx * 7919 + prop_h;
    auto mrand = [&](uint64_t n) { ms ^= ms << 13; ms ^= ms >> 7; ms ^= ms << 17; return (ms * 0x2545F4914F6CDD1Dull >> 33) % n; };

    if(opt.count("batch")) batch = atoi(opt["batch"].c_str());
    string stop_file = outdir + "/stop";
    for(uint64_t r = idx; runs < max_runs && now() - t0 < seconds && access(stop_file.c_str(), F_OK) != 0; r += of) {
        RunSpec rs; rs.prop = prop;
        uint64_t x = seed ^ prop_h; x = x * 0x9e3779b97f4a7c15ull + r; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull;
        rs.seed = x;
        rs.fill = r % 2 ? 0xA5 : 0x00;
        if(corpus.size() > 4 && mrand(100) < 40) {
            rs.use_rep = rs.extend = true;
            rs.rep = corpus[mrand(corpus.size())].c;
            mutated++;
            auto muts = 1 + mrand(4);
            for(uint64_t k = 0; k < muts && !rs.rep.empty(); k++) {
                auto p = mrand(rs.rep.size());
                switch(mrand(6)) {
                    case 0: rs.rep[p] = (uint32_t)(mrand(0x7fffffff)); break;
                    case 1: rs.rep[p]++; break;
                    case 2: rs.rep[p]--; break;
                    case 3: rs.rep.resize(p); break;
                    case 4: { auto n = 1 + mrand(8); rs.rep.erase(rs.rep.begin() + p, rs.rep.begin() + min<uint64_t>(p + n, rs.rep.size())); break; }
                    case 5: rs.rep[p] = rs.rep[mrand(rs.rep.size())]; break;
                }
            }
        }
        bool fresh_proc;
        auto began = now();
        auto o = run_shared(rs, fresh_proc);
        if(now() - began > 5) { printf("slow run: %.1f s, %llu steps\n%.*s\n", now() - began, (unsigned long long)R->steps, (int)min<size_t>(R->trace_len, 1200), R->trace); fflush(stdout); }
        if((!o.cls.empty() || o.harness) && !fresh_proc) {
            // only what shows in a process of its own counts
            RunSpec r2 = rs; r2.use_rep = true; r2.extend = false; r2.rep.assign(R->choices, R->choices + R->n_choices);
            auto cls = o.cls;
            o = run_once(r2);
            if(o.cls.empty()) unrepeated++;
            rs = r2;
        }
        runs++;
        steps_total += R->steps; max_steps = max<uint64_t>(max_steps, R->steps); simt += R->sim_time; evals += R->evals; switches += R->sched_switches; peak = max<uint64_t>(peak, R->peak_mem);
        for(uint32_t i = 0; i < R->n_counters; i++) counters[R->counters[i].name] += R->counters[i].n;
        sigs.insert(cov_sig(MAX_GUARDS)); traces.insert(R->hash);
        if(R->sched_switches) scheds.insert(R->sched_hash);
        for(uint32_t i = 0; i < R->n_states; i++) states.insert(R->states[i]);
        if(samples.size() < 3 && o.cls.empty()) samples.push_back(string(R->trace, min<uint32_t>(R->trace_len, 1500)));
        if(o.harness) { err = o.cls + ": " + o.detail; break; }
        vector<uint32_t> choices(R->choices, R->choices + R->n_choices);
        vector<Span> spans(R->spans, R->spans + R->n_spans);
        if(o.cls.empty()) {
            bool fresh = false;
            for(uint32_t i = 0; i < MAX_GUARDS; i++) {
                auto e = R->edges[i]; if(!e) continue;
                uint8_t b = e < 2 ? 1 : e < 4 ? 2 : e < 16 ? 4 : e < 128 ? 8 : 16;
                if(!(seen[i] & b)) { seen[i] |= b; fresh = true; }
            }
            if(fresh && choices.size() < 20000 && corpus.size() < 2000) corpus.push_back({ choices });
            // audit: same choices again, other fill of fresh memory: same events
            if(audit && r / of % audit == 0) {
                auto fl = R->flags;
                RunSpec r1 = rs; r1.use_rep = true; r1.extend = false; r1.rep = choices;
                auto o1 = run_once(r1);
                if(o1.harness) { err = o1.cls + ": " + o1.detail; break; }
                if(!o1.cls.empty()) {
                    // plain in a process of its own, hidden by what earlier runs left in the shared one
                    o = o1; rs = r1; choices.assign(R->choices, R->choices + R->n_choices); spans.assign(R->spans, R->spans + R->n_spans);
                    goto found;
                }
                o.hash = o1.hash;
                RunSpec r2 = rs; r2.use_rep = true; r2.extend = false; r2.rep = choices; r2.fill = (fl & SC_NO_FILL_CHECK) ? rs.fill : rs.fill ^ 0xA5;
                auto o2 = run_once(r2);
                audited++;
                if(o2.harness) { err = o2.cls + ": " + o2.detail; break; }
                if(o2.cls.empty() && o2.hash != o.hash) {
                    // the same fill must give the same events; then it is the content of fresh memory
                    RunSpec r3 = r2; r3.fill = rs.fill;
                    string trA; uint64_t hA;
                    auto o3 = run_once(r3); hA = o3.hash;
                    if(r2.fill == rs.fill) { err = "nondeterministic run (0), seed " + to_string(rs.seed); break; } trA.assign(R->trace, R->trace_len);
                    if(!o3.cls.empty() || o3.hash != o.hash) { err = "nondeterministic run, seed " + to_string(rs.seed) + " class " + o3.cls; break; }
                    auto o4 = run_once(r2);
                    string trB(R->trace, R->trace_len);
                    if(o4.hash != o2.hash) { err = "nondeterministic run (2), seed " + to_string(rs.seed); break; }
                    (void)hA;
                    string da, db; istringstream ia(trA), ib(trB); string la, lb;
                    while(getline(ia, la) && getline(ib, lb)) if(la != lb) { da = la; db = lb; break; }
                    viol_path = outdir + "/" + prop + "-" + to_string(idx) + ".json";
                    RunSpec w = rs; w.fill = r2.fill;
                    write_replay(viol_path, w, "uninitialised-memory", "the run depends on the content of fresh memory: [" + da + "] vs [" + db + "]", o2.hash, choices, trB, r, choices.size(), variant, rs.fill, o.hash);
                    break;
                }
                if(!o2.cls.empty()) { o = o2; rs = r2; choices.assign(R->choices, R->choices + R->n_choices); spans.assign(R->spans, R->spans + R->n_spans); if(o.harness) { err = o.cls + ": " + o.detail; break; } }
            }
        }
        found:
        if(!o.cls.empty()) {
            Shrinker s; s.base = rs; s.cls = o.cls; s.best = choices; s.spans = spans; s.deadline = now() + shrink_s; s.best_out = o;
            // must reproduce from its choices alone
            RunSpec r2 = rs; r2.use_rep = true; r2.extend = false; r2.rep = choices;
            auto o2 = run_once(r2);
            for(int again = 0; again < 3 && !o2.harness && !o2.cls.empty() && (o2.cls != o.cls || o2.hash != o.hash); again++) { o = o2; o2 = run_once(r2); }
            if((o2.cls != o.cls || o2.hash != o.hash) && ++unreproduced < 8) {
                // not to be believed; another run may show the same plainly. The check gives no verdict if none does
                if(noted.empty()) noted = "violation did not reproduce: seed " + to_string(rs.seed) + " " + o.cls + " / " + o2.cls + " " + o.detail.substr(0, 300);
                continue;
            }
            if(o2.cls != o.cls || o2.hash != o.hash) { err = "violation did not reproduce: seed " + to_string(rs.seed) + " " + o.cls + " / " + o2.cls + " " + o.detail.substr(0, 300); break; }
            // what there is should the time for minimising not suffice
            viol_path = outdir + "/" + prop + "-" + to_string(idx) + ".json";
            write_replay(viol_path, r2, o2.cls, o2.detail, o2.hash, choices, string(R->trace, R->trace_len), r, choices.size(), variant);
            write_replay(outdir + "/" + prop + "-" + to_string(idx) + ".full", r2, o2.cls, o2.detail, o2.hash, choices, string(R->trace, R->trace_len), r, choices.size(), variant);
            ofstream(stop_file) << "stop\n";
            s.run();
            RunSpec r3 = rs; r3.use_rep = true; r3.extend = false; r3.rep = s.best;
            auto o3 = run_once(r3);
            string trc(R->trace, R->trace_len);
            write_replay(viol_path, r3, o3.cls, o3.detail, o3.hash, s.best, trc, r, choices.size(), variant);
            break;
        }
    }
    server_stop();
    if(viol_path.empty() && err.empty()) err = noted;
    if(!viol_path.empty() || !err.empty()) ofstream(stop_file) << "stop\n";
    uint64_t edges = 0; for(auto b : seen) edges += b != 0;
    ofstream f(outdir + "/worker-" + to_string(idx) + ".json");
    f << "{\"runs\":" << runs << ",\"evals\":" << evals << ",\"steps\":" << steps_total << ",\"max_steps\":" << max_steps << ",\"sim_time\":" << simt << ",\"switches\":" << switches
      << ",\"distinct_coverage\":" << sigs.size() << ",\"distinct_traces\":" << traces.size() << ",\"distinct_schedules\":" << scheds.size()
      << ",\"audited\":" << audited << ",\"unrepeated\":" << unrepeated << ",\"mutated\":" << mutated << ",\"corpus\":" << corpus.size() << ",\"edges\":" << edges << ",\"peak_mem\":" << peak
      << ",\"wall\":" << now() - t0 << ",\"violation\":" << jstr(viol_path) << ",\"error\":" << jstr(err) << ",\"counters\":{";
    bool first = true;
    for(auto& c : counters) { f << (first ? "" : ",") << jstr(c.first) << ":" << c.second; first = false; }
    f << "},\"samples\":[";
    for(size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << jstr(samples[i]);
    f << "]}\n";
    f.close();
    ofstream b(outdir + "/sigs-" + to_string(idx) + ".bin", ios::binary);
    auto dump = [&](unordered_set<uint64_t>& s) { uint64_t n = s.size(); b.write((char*)&n, 8); for(auto v : s) b.write((const char*)&v, 8); };
    dump(sigs); dump(traces); dump(scheds); dump(states);
    return 0;
}
