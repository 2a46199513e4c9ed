// C08: threads working on separate trees do not affect each other.
#include "ops.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
namespace sim {
using namespace std;
struct Task { vector<Op> ops; uint64_t edit = 0; bool own_env = true; Env* env = nullptr; string result; };
static void work(Task& t)
{
    in_harness++;
    unique_ptr<Env> mine;
    in_harness--;
    if(t.edit) {
        Chooser c; c.init_private(t.edit);
        edit_session(c, false);
        t.result += "edited; ";
        return;
    }
    if(t.own_env) { LibScope l; mine.reset(new Env()); }
    auto& e = t.own_env ? *mine : *t.env;
    for(auto& o : t.ops) {
        auto r = run_op(o, *e.t, e.p);
        t.result += r.key(true) + "; ";
    }
}
static void enter(void* p) { work(*(Task*)p); }
// the result of a thread that is alone in a process of its own
static bool alone(Task& t, string& out)
{
    int p[2]; if(pipe(p)) harness_error("pipe");
    auto pid = fork();
    if(pid < 0) harness_error("fork");
    if(pid == 0) {
        alarm(60);
        close(p[0]);
        int nul = open("/dev/null", O_WRONLY); if(nul >= 0) dup2(nul, 2);
        R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        work(t);
        size_t done = 0; auto& s = t.result;
        while(done < s.size()) { auto k = write(p[1], s.data() + done, s.size() - done); if(k <= 0) _exit(3); done += k; }
        _exit(0);
    }
    close(p[1]);
    out.clear(); char b[4096]; ssize_t k;
    while((k = read(p[0], b, sizeof b)) > 0) out.append(b, k);
    close(p[0]);
    int st = 0; while(waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static void threads(Chooser& ch)
{
    static const uint32_t means[] = { 20, 150, 1000, 8000 };
    auto n = ch.range(2, 4);
    vector<Task> ts(n);
    sched_preempt_mean = means[ch.below(4)];
    sched_at_conflicts = ch.chance(3, 4);
    uint64_t sig = 0;
    Bias bias; bool alike = ch.chance(1, 2);           // threads doing the same things meet more often
    if(alike) { bias.k = ch.below(7); bias.fmt = gen_format(ch); bias.fmt2 = gen_format(ch); bias.tool = ch.below(5); bias.only = (int)ch.below(8) - 1; if(bias.only == 6) bias.only = 3;
        // one type, different values; the polymorphic ones go by way of what the process has registered
        if(ch.chance(1, 3)) {
            static const char* poly[] = { "unique<Base>", "vector<unique<Base>>", "Base*" };
            bias.type = ch.chance(1, 2) ? poly[ch.below(3)] : type_name(ch);
            bias.k = ch.pick({ 1, 3, 1 }); if(bias.k == 2) bias.k = Op::OBJECT;
        }
    }
    for(uint32_t i = 0; i < n; i++) {
        SpanScope sp(ch);
        if(!alike && ch.chance(1, 6)) ts[i].edit = 1 + ch.below(0x7fffffff);
        else { auto k = ch.range(1, 3); for(uint32_t j = 0; j < k; j++) { SpanScope sp2(ch); ts[i].ops.push_back(gen_op(ch, ch.chance(1, 12), true, true, alike ? &bias : nullptr)); } }
        ts[i].own_env = !ch.chance(1, 4);
        trace("thread %u%s", i, ts[i].edit ? ": edits" : "");
        for(auto& o : ts[i].ops) { trace("  %s", o.show().c_str()); sig = sig * 31 + o.k * 16 + o.fmt * 4 + o.fmt2; }
        sig = sig * 131 + (ts[i].edit ? 7 : 1);
    }
    vector<string> want(n);
    vector<unique_ptr<Env>> envs;
    for(auto& t : ts) { envs.emplace_back(t.own_env || t.edit ? nullptr : new Env()); t.env = envs.back().get(); }
    for(uint32_t i = 0; i < n; i++) if(!alone(ts[i], want[i])) { count("solo_failed"); trace("thread %u does not even finish alone", i); return; }
    vector<void*> args; for(auto& t : ts) args.push_back(&t);
    steps_begin(4000u << 20);
    sched_start(&ch, (int)n, enter, args.data(), 0, 0);
    steps_end();
    state(sig);
    for(uint32_t i = 0; i < n; i++) {
        R->evals++;
        if(ts[i].result != want[i]) fail("threads-interfere", "thread %u alone: %s\nwith others: %s", i, want[i].substr(0, 1500).c_str(), ts[i].result.substr(0, 1500).c_str());
    }
}
static Register r1("C08", "threads", 10, threads);
}
