#!/usr/bin/env python3
"""check.py PROP: builds the simulator from /repo's working tree, explores, gates and reports.

Exit 0: the property held on everything explored. Exit 1: VIOLATION line. Anything else: an error of the check."""
import concurrent.futures, hashlib, json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
NPROC = os.cpu_count() or 8

CORE = ["core.cpp", "main.cpp", "dev.cpp"]
MODEL = CORE + ["model.cpp", "codec.cpp"]
ZOO = MODEL + ["zoo.cpp", "zoo_a.cpp", "zoo_b.cpp", "zoo_c.cpp", "zoo_d.cpp", "zoo_e.cpp", "zoo_f.cpp", "zoo_g.cpp", "zoo_h.cpp", "zoo_i.cpp", "cases.cpp"]
# property -> sources, variant, seconds (quick)
PROPS = json.load(open(os.path.join(SIM, "props.json")))
SETS = {"CORE": CORE, "MODEL": MODEL, "ZOO": ZOO}

WRAPS = ["iconv_open", "iconv", "iconv_close", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock",
         "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock",
         "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "pthread_once"]
UBSAN = "signed-integer-overflow,float-cast-overflow,bounds,null,alignment,return,unreachable,shift,vla-bound,pointer-overflow,object-size,integer-divide-by-zero,bool"

def die(msg):
    print("check error: " + msg, flush=True)
    sys.exit(2)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def tree_hash(root, exts):
    out = []
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.relpath(os.path.join(d, f), root).encode() + b"=" + hashlib.sha256(read(os.path.join(d, f))).digest())
    return sha(*out)

def build(prop, spec):
    variant = spec.get("variant", "edge")
    odir = os.path.join(BUILD, "obj-" + variant)
    os.makedirs(odir, exist_ok=True)
    cov = "trace-pc-guard" + (",trace-loads,trace-stores" if variant == "fine" else "")
    allow = os.path.join(BUILD, "cov-allow.txt")
    ignore = os.path.join(BUILD, "cov-ignore.txt")
    with open(allow, "w") as f: f.write("src:*\nfun:*3Srl*\n")
    with open(ignore, "w") as f: f.write("fun:_ZN3sim*\nfun:_ZNK3sim*\nfun:_ZTv*3sim*\nfun:_ZThn*3sim*\n")
    san = ["-fsanitize=address," + UBSAN, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    base = ["-O1", "-DNDEBUG", "-I" + os.path.join(REPO, "include"), "-w"] + san
    hdr_repo = tree_hash(os.path.join(REPO, "include"), (".h", ".hpp"))
    hdr_lib = tree_hash(os.path.join(REPO, "src/lib"), (".h",))
    hdr_sim = tree_hash(SIM, (".h",))
    jobs = []
    libdir = os.path.join(REPO, "src/lib")
    for d, dirs, files in sorted(os.walk(libdir)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            if f.endswith(".cpp"):
                jobs.append((p, ["clang++", "-std=c++17"] + base + ["-fsanitize-coverage=" + cov], (hdr_repo, hdr_lib)))
            elif f.endswith(".c"):
                jobs.append((p, ["clang", "-std=c99"] + base + ["-fsanitize-coverage=" + cov], (hdr_lib,)))
    srcs = []
    for s in spec["src"]:
        srcs += SETS.get(s, [s])
    for s in srcs:
        fl = ["clang++", "-std=c++17"] + base + ["-I" + SIM]
        if s not in ("core.cpp", "main.cpp", "model.cpp", "codec.cpp"):
            fl += ["-fsanitize-coverage=" + cov, "-fsanitize-coverage-allowlist=" + allow, "-fsanitize-coverage-ignorelist=" + ignore]
        jobs.append((os.path.join(SIM, s), fl, (hdr_repo, hdr_sim) if s not in ("core.cpp", "main.cpp") else (hdr_sim,)))
    objs, todo = [], []
    for p, fl, deps in jobs:
        o = os.path.join(odir, os.path.basename(p) + "-" + sha(read(p), p, " ".join(fl), *deps) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((p, fl, o))
    todo.sort(key=lambda j: -os.path.getsize(j[0]) - (200000 if "zoo" in j[0] else 0) - (100000 if "/sim/c" in j[0] else 0))
    def run(j):
        p, fl, o = j
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(fl + ["-c", p, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            os.replace(tmp, o)
        return p, r
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for p, r in ex.map(run, todo):
            if r.returncode != 0:
                die("cannot compile %s\n%s" % (p, r.stdout[:6000]))
    exe = os.path.join(BUILD, "sim-%s-%s" % (prop, sha(*objs)))
    if not os.path.exists(exe):
        cmd = ["clang++"] + san + ["-fsanitize-coverage=" + cov, "-o", exe + ".tmp"] + objs + ["-lpthread"] + ["-Wl,--wrap=" + w for w in WRAPS]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            die("cannot link\n" + r.stdout[:6000])
        os.replace(exe + ".tmp", exe)
    # drop binaries of older trees
    for f in os.listdir(BUILD):
        if f.startswith("sim-%s-" % prop) and os.path.join(BUILD, f) != exe:
            try: os.unlink(os.path.join(BUILD, f))
            except OSError: pass
    return exe, len(todo)

def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", l.strip())
            if m: out[(m.group(1), m.group(2))] = m.group(3)
    return out

def sigset(path):
    out = []
    try: b = read(path)
    except OSError: return [set(), set(), set(), set()]
    off = 0
    for _ in range(4):
        n, = struct.unpack_from("<Q", b, off); off += 8
        out.append(set(struct.unpack_from("<%dQ" % n, b, off))); off += 8 * n
    return out

def main():
    if len(sys.argv) < 2: die("usage: check.py PROP [--build-only]")
    prop = sys.argv[1]
    if prop not in PROPS: die("unknown property " + prop)
    spec = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    exe, compiled = build(prop, spec)
    t_build = time.time() - t0
    if "--build-only" in sys.argv:
        print(exe); return 0
    seconds = spec.get("quick", 30) if tier == "quick" else spec.get("thorough", 540)
    if "SIM_SECONDS" in os.environ: seconds = float(os.environ["SIM_SECONDS"])
    out = os.path.join(VERIF, "out", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = dict(os.environ); env.pop("SIM_REEXEC", None)
    env["LC_ALL"] = "C"
    workers = min(NPROC, 8)
    procs = []
    for i in range(workers):
        log = open(os.path.join(out, "log-%d.txt" % i), "w")
        procs.append(subprocess.Popen([exe, "worker", "--prop", prop, "--seed", str(seed), "--index", str(i), "--of", str(workers),
            "--seconds", str(seconds), "--shrink", str(spec.get("shrink", 25 if tier == "quick" else 90)), "--out", out,
            "--variant", spec.get("variant", "edge"), "--batch", str(spec.get("batch", 24))], stdout=log, stderr=subprocess.STDOUT, env=env, cwd=out))
    deadline = time.time() + seconds + 240
    for i, p in enumerate(procs):
        try: p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            for q in procs: q.kill()
    stats, errors, viols = [], [], []
    sets = [set(), set(), set(), set()]
    for i in range(workers):
        try: w = json.load(open(os.path.join(out, "worker-%d.json" % i)))
        except Exception as e:
            # ended before it was done minimising; what it found is kept
            v = os.path.join(out, "%s-%d.json" % (prop, i))
            if os.path.exists(v):
                viols.append(v)
                continue
            die("worker %d wrote no result: %s\n%s" % (i, e, open(os.path.join(out, "log-%d.txt" % i)).read()[-2000:]))
        stats.append(w)
        if w["error"]: errors.append(w["error"])
        if w["violation"]: viols.append(w["violation"])
        for k, s in enumerate(sigset(os.path.join(out, "sigs-%d.bin" % i))): sets[k] |= s
    # gate: every violation must replay in fresh processes
    good, gate_fail = [], []
    def again(v):
        return subprocess.run([exe, "replay", v], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        replays = list(ex.map(again, [v for v in viols for _ in range(2)]))
    def verdict(r):
        m = dict(l.split(" ", 1) for l in r.stdout.splitlines() if " " in l)
        return (r.returncode in (1, 3), m.get("class", ""), int(m.get("hash", "0"), 16), m.get("harness", "0").strip() == "1")
    believed = lambda g: g[0] and g[1] and not g[3]
    for k, v in enumerate(viols):
        try: j = json.load(open(v))
        except Exception as e:
            gate_fail.append("%s: %s" % (v, e)); continue
        got = [verdict(r) for r in replays[2 * k : 2 * k + 2]]
        if not all(believed(g) for g in got) and os.path.exists(v[:-5] + ".full"):
            # what minimising made of it shows only now and then: the choices as they were found
            with open(v[:-5] + ".full") as f, open(v, "w") as g: g.write(f.read())
            j = json.load(open(v))
            got = [verdict(again(v)) for _ in range(2)]
        if not all(believed(g) for g in got):
            gate_fail.append("%s: replays gave %s" % (v, got))
            continue
        if any(g[1] != j["class"] or g[2] != int(j["hash"], 16) for g in got):
            # code which uses memory it must not depends on what the process did before: what a fresh
            # process makes of the choices is the record, as long as every fresh process makes the same of them
            if got[0][1:3] != got[1][1:3]:
                more = [verdict(again(v)) for _ in range(3)]
                if not all(believed(g) for g in more):
                    gate_fail.append("%s: replays differ: %s" % (v, "; ".join(str(g[:3]) for g in got + more)))
                    continue
                print("note: every replay of %s violates the property, but not the same way each time (%s)" % (v, ", ".join(sorted({g[1] for g in got + more}))))
            j["class"], j["hash"] = got[0][1], "%016x" % got[0][2]
            with open(v, "w") as f: json.dump(j, f, indent=1)
        good.append((len(j["choices"]), v, j))
    good.sort(key=lambda g: (g[0], g[1]))
    # known findings
    known = known_findings()
    lines = []
    if any(k[0] == prop for k in known):
        r = subprocess.run([exe, "findings", "--prop", prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        for l in r.stdout.splitlines():
            m = re.match(r"finding (\S+) (\d) (.*)", l)
            if m and m.group(2) == "1" and (prop, m.group(1)) in known:
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, m.group(1))]))
    for l in lines: print(l)
    # evidence
    tot = lambda k: sum(s[k] for s in stats)
    counters = {}
    for s in stats:
        for k, n in s["counters"].items(): counters[k] = counters.get(k, 0) + n
    wall_x = max((s["wall"] for s in stats), default=0)
    runs = tot("runs")
    samples = [x for s in stats for x in s["samples"]][:6]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(sets[1]),
            "rule": "One evaluation is one simulated run: a seeded sequence of choices decides workload, transfer splitting, faults and schedule. "
                    + "Non-trivial: it ran the real library to a verdict; distinct: its complete event trace differs from every other run's (trace hash).",
            "samples": samples,
            "oracle_checks": tot("evals"),
            "runs_per_hour": int(runs / wall_x * 3600) if wall_x else 0,
            "seeds_per_hour": int((runs - tot("mutated")) / wall_x * 3600) if wall_x else 0,
            "fresh_seeds": runs - tot("mutated"), "mutated_runs": tot("mutated"), "corpus": tot("corpus"),
            "library_steps": tot("steps"), "library_steps_max_run": max((s["max_steps"] for s in stats), default=0), "simulated_time_units": tot("sim_time"),
            "distinct_coverage_signatures": len(sets[0]), "distinct_interleavings": len(sets[2]), "distinct_states": len(sets[3]),
            "scheduling_switches": tot("switches"), "edges_reached_max_worker": max((s["edges"] for s in stats), default=0),
            "determinism_audits": tot("audited"),
            "faults_fired": {k[6:]: n for k, n in sorted(counters.items()) if k.startswith("fault.")},
            "probes": {k: n for k, n in sorted(counters.items()) if not k.startswith("fault.")},
            "peak_bytes_in_library": max(s["peak_mem"] for s in stats),
            "real_components": "all of /repo/include/Srl and /repo/src/lib, compiled from the working tree; libstdc++ containers; glibc iconv",
            "stub_components": spec.get("stubs", "stream devices (SimFile, split sources), allocator failure decisions, iconv_open failure decisions, user types"),
            "build_s": round(t_build, 1), "objects_compiled": compiled, "workers": workers,
        },
        "wall_s": round(time.time() - t0, 1),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d runs (%d distinct traces, %d coverage signatures, %d interleavings), %d audits, build %.0fs, %.0fs" %
          (prop, tier, seed, runs, len(sets[1]), len(sets[0]), len(sets[2]), tot("audited"), t_build, time.time() - t0))
    if good:
        for n, v, j in good:
            print("violation class %s (%d choices): %s" % (j["class"], n, j["detail"][:400].replace("\n", " | ")))
        print("VIOLATION property=%s replay=%s" % (prop, good[0][1]), flush=True)
        return 1
    if gate_fail: die("a violation did not replay: " + "; ".join(gate_fail)[:2000])
    if errors: die("; ".join(errors)[:3000])
    if runs == 0: die("no run completed")
    return 0

if __name__ == "__main__":
    sys.exit(main())
