#!/usr/bin/env python3
"""Runs the check of one property:  check.py <property> [quick|thorough]

Builds the simulator from /repo's working tree, searches seeded programs and fault
sequences on all cores, confirms every violation in a fresh process from its replay
file, and writes evidence/<property>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Anything else: the check failed.
"""
import glob, json, os, re, resource, shutil, struct, subprocess, sys, time, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
SEQ = ["vector", "small_vector", "static_vector", "compact_vector", "devector", "segmented_vector", "segmented_devector"]
ORD = [p + "_flat_" + k for p in ("small", "static") for k in ("set", "multiset", "map", "multimap")]
UNO = [p + "_unordered_flat_" + k for p in ("small", "static") for k in ("set", "multiset", "map", "multimap")]
ALL = SEQ + ORD + UNO
HEAP = [f for f in ALL if not f.startswith("static")]

# property -> families simulated, programs in the quick tier, seconds in the thorough tier
SPEC = {
    "C01": (SEQ, 500000), "C02": (ORD, 600000), "C03": (UNO, 700000),
    "C04": (ALL, 100000), "C05": (HEAP, 100000), "C06": (HEAP, 250000),
    "C07": (SEQ + UNO, 160000), "C08": (ALL, 90000), "C09": (ALL, 250000),
    "C10": (ALL, 500000), "C11": (ALL, 500000), "C12": (ALL, 700000),
    "C13": (ALL, 400000), "C14": (ALL, 400000), "C15": (ALL, 80000),
    "C16": (ALL, 300000), "C17": (ALL, 26000), "C18": (ALL, 500000),
    "C19": (ALL, 32000), "C20": (ALL, 110000),
}
NPROC = 8
QUICK_CAP, THOROUGH_TIME = 150, 540


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def sources(families, extra=()):
    srcs = ["core.cpp", "env.cpp", "seq_ops.cpp", "assoc_ops.cpp", "main.cpp"]
    srcs = [s for s in srcs if os.path.exists(os.path.join(SIM, s))] + list(extra)
    cfgs = []
    for f in families:
        cfgs += [os.path.basename(x) for x in glob.glob(os.path.join(SIM, "cfg_%s_[0-9]*.cpp" % f))]
    return srcs + sorted(cfgs)


def build(name, families, defs="", opt="-O0", extra=()):
    bdir = os.path.join(HERE, "build", name)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-j%d" % NPROC, "BUILD=" + bdir, "REPO=" + REPO, "OPT=" + opt, "DEFS=" + defs,
                            "SRCS=" + " ".join(sources(families, extra))], cwd=SIM, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        die("the simulator does not build against " + REPO)
    return os.path.join(bdir, "simw")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def worker_cmd(binary, prop, seed, k, count, cap, work, extra=()):
    cmd = [binary, "run", "--prop", prop, "--seed", str(seed), "--start", str(k), "--stride", str(NPROC),
           "--out", "%s/w%d.json" % (work, k), "--dir", work, "--progress", "%s/p%d" % (work, k)] + list(extra)
    if count: cmd += ["--count", str(count)]
    if cap: cmd += ["--time", str(cap)]
    return cmd


def read_hashes(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return set()
    return set(struct.unpack("<%dQ" % (len(b) // 8), b))


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def record_info(path):
    info = {"ops": []}
    for l in open(path):
        w = l.split()
        if not w: continue
        if w[0] == "config": info["config"] = w[1]
        elif w[0] == "violation": info["kind"] = w[1]; info["at"] = int(w[3])
        elif w[0] == "op": info["ops"].append(w[1])
        elif w[0] == "text": info["text"] = l[5:].strip()
    at = info.get("at", -1)
    info["op"] = info["ops"][at] if 0 <= at < len(info["ops"]) else "end"
    return info


def matches(finding, prop, info):
    if "id" in finding or finding["property"] != prop or finding["kind"] != info.get("kind") or finding["op"] != info.get("op"): return False
    return re.search(finding["config"], info.get("config", "")) and re.search(finding["text"], info.get("text", "")) is not None


def run_workers(binary, prop, seed, quick, work):
    total = SPEC[prop][1]
    procs = []
    t0 = time.time()
    for k in range(NPROC):
        cnt = (total // NPROC) if quick else 0
        cap = QUICK_CAP if quick else THOROUGH_TIME
        procs.append(subprocess.Popen(worker_cmd(binary, prop, seed, k, cnt, cap, work), stdout=subprocess.DEVNULL,
                                      stderr=open("%s/err%d" % (work, k), "w"), preexec_fn=limits))
    bad = []
    for k, p in enumerate(procs):
        try:
            p.wait(timeout=max(1, (QUICK_CAP if quick else THOROUGH_TIME) + 90 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
        if p.returncode != 0: bad.append((k, p.returncode))
    return bad, time.time() - t0


def dead_worker(binary, prop, seed, k, rc, work, replays):
    """A worker that died: the run it was in must kill a fresh process too."""
    err = open("%s/err%d" % (work, k)).read()[-600:]
    try:
        idx = int(open("%s/p%d" % (work, k)).read(20).split()[0])
    except Exception:
        die("worker %d ended with %d: %s" % (k, rc, err))
    cmd = [binary, "run", "--prop", prop, "--seed", str(seed), "--start", str(idx), "--count", "1", "--out", work + "/d.json", "--dir", work]
    r = [subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=200, preexec_fn=limits).returncode for _ in range(2)]
    if r[0] == 0 or r[0] != r[1]: die("worker %d ended with %d in run %d, which does not repeat (%s): %s" % (k, rc, idx, r, err))
    path = os.path.join(replays, "%s-dead-%d.replay" % (prop, idx))
    with open(path, "w") as f:
        f.write("simdead 1\nproperty %s\nseed %d\nrun %d\nstatus %d\ncommand %s\n" % (prop, seed, idx, r[0], " ".join(cmd[1:8])))
    return path


def replay_history(binary, prop, seed, runs, run, work):
    """Executes the given runs in one fresh process; what the last one showed."""
    out = work + "/h.json"
    if os.path.exists(out): os.remove(out)
    spec = ["--list", ",".join(map(str, runs))] if not isinstance(runs, dict) else ["--start", str(runs["start"]), "--stride", str(runs["stride"]), "--count", str(runs["count"])]
    subprocess.run([binary, "run", "--prop", prop, "--seed", str(seed), "--out", out, "--dir", work, "--max-viol", "1000000"] + spec, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300, preexec_fn=limits)
    try: j = json.load(open(out))
    except Exception: return None
    for x in j.get("seen", []):
        if x["run"] == run: return (x["kind"], x["hash"], x["text"])
    return None


def history(binary, prop, seed, start, run, work, replays):
    """A violation that its run alone does not show: state outside the containers made the earlier runs part of it.
    Looks for a short list of runs that shows it twice alike; the list is the replay file."""
    cands = [[run]] + [[start + i * NPROC, run] for i in range(40) if start + i * NPROC < run]
    cands += [list(range(max(start, run - n * NPROC), run + 1, NPROC)) for n in (1, 2, 4, 8, 16, 64, 256)]
    cands.append({"start": start, "stride": NPROC, "count": (run - start) // NPROC + 1})
    t0 = time.time()
    for c in cands:
        a = replay_history(binary, prop, seed, c, run, work)
        if a is None or time.time() - t0 > 200: continue
        b = replay_history(binary, prop, seed, c, run, work)
        if a != b: continue
        path = os.path.join(replays, "%s-history-%d.replay" % (prop, run))
        with open(path, "w") as f:
            f.write("simhistory 1\nproperty %s\nseed %d\nrun %d\nruns %s\nviolation %s op -1\nhash %s\ntext %s\n" % (prop, seed, run, json.dumps(c), a[0], a[1], a[2]))
        return path
    return None


def finish(prop, tier, seed, viols, cov, wall, assumptions):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2),
          "violations": len(viols), "assumptions": assumptions}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in viols: print("VIOLATION property=%s replay=%s" % (prop, p))
    sys.exit(1 if viols else 0)


RULE = ("an evaluation is one complete simulated run: a generated program of container calls with its fault sequence, executed from fresh state to teardown with every "
        "oracle evaluated after every call. Non-trivial: %s. Distinct: by the hash of the run's full event trace (element operations, comparisons, allocator calls, "
        "faults, outcomes, in order).")
ASSUME = ["the element types, comparators and allocators of the simulated environment stand for user types: they obey the standard's requirements except that they fail when told to",
          "sampling, not enumeration: a clean run is evidence over the runs counted here"]


def merge(work, files=None):
    tot, hashes, sigs = {}, set(), set()
    cfgs, samples, viols = {}, [], []
    for p in files or ["%s/w%d.json" % (work, k) for k in range(NPROC)]:
        if not os.path.exists(p): continue
        j = json.load(open(p))
        for key, v in j.items():
            if isinstance(v, (int, float)): tot[key] = tot.get(key, 0) + v
            elif key in ("fired", "fired_mode", "foreign"):
                d = tot.setdefault(key, {})
                for a, b in v.items(): d[a] = d.get(a, 0) + b
        for a, b in j["configs"].items(): cfgs[a] = cfgs.get(a, 0) + b
        samples += j["samples"][:1]; viols += j["violations"]
        hashes |= read_hashes(p + ".hashes"); sigs |= read_hashes(p + ".sigs")
    return tot, hashes, sigs, cfgs, samples, viols


def coverage(tot, hashes, sigs, cfgs, samples, search_s, build_s, nontriv):
    runs = int(tot.get("runs", 0))
    return {
        "evaluations": runs, "distinct_nontrivial": len(hashes), "rule": RULE % nontriv, "samples": samples[:4],
        "programs_seeds": int(tot.get("programs", 0)), "runs_per_hour": int(runs / search_s * 3600) if search_s else 0,
        "seeds_per_hour": int(tot.get("programs", 0) / search_s * 3600) if search_s else 0,
        "simulated_time": "the library has no clock; simulated progress is counted in events (%d element/comparator/allocator/iterator events)" % int(tot.get("events", 0)),
        "calls_executed": int(tot.get("ops", 0) - tot.get("ops_skipped", 0)), "calls_that_failed": int(tot.get("ops_failed", 0)),
        "container_model_comparisons": int(tot.get("checks", 0)), "fault_points_passed": int(tot.get("fault_points", 0)),
        "faults_fired": tot.get("fired", {}), "faults_fired_by_mode": tot.get("fired_mode", {}),
        "length_errors": int(tot.get("length_errors", 0)), "range_errors": int(tot.get("range_errors", 0)),
        "distinct_call_states": len(sigs), "call_state_measure": "distinct (call, outcome, failing fault kind, size class, free-capacity class, storage kind) tuples",
        "released_blocks_handed_out_again": int(tot.get("reused", 0)),
        "fiber_switches": int(tot.get("switches", 0)),
        "determinism_rechecks": int(tot.get("determinism_checked", 0)), "determinism_failures": int(tot.get("determinism_bad", 0)),
        "calls_showing_a_known_finding": int(tot.get("known", 0)),
        "outside_property_kinds_seen": tot.get("foreign", {}),
        "runs_by_config": cfgs, "build_s": round(build_s, 1),
        "real_code": "all of /repo/include/sfl compiled unmodified from the working tree", "stubs": "elements, comparators, predicates, input ranges and allocators (with their heap) are simulated; nothing of sfl is stubbed",
    }


def build_fib():
    return build("fib", SPEC["C17"][0], defs="-DSIM_PREEMPT -fsanitize-coverage=trace-pc,trace-stores -fsanitize-coverage-allowlist=allow.txt", extra=["preempt.cpp"])


def build_mem():
    return build("mem", SPEC["C19"][0], defs="-fsanitize=undefined -fno-sanitize=vptr,function -fsanitize-trap=undefined -fsanitize-coverage=trace-pc,trace-loads,trace-stores -fsanitize-coverage-allowlist=allow.txt", extra=["preempt.cpp"])


def replay(path):
    """check.py replay FILE: executes a recorded violation again; exit 1 if it is still there, 0 if not"""
    head = open(path).read()
    prop = re.search(r"^property (\S+)", head, re.M).group(1)
    if prop == "C14":
        import noexc
        d = noexc.differ(sys.modules[__name__], noexc.builds(sys.modules[__name__]), path)
        print("replay: " + ("both builds agree" if d is None else "call %d differs; %s" % d))
        sys.exit(0 if d is None else 1)
    binary = build_fib() if prop == "C17" else build_mem() if prop == "C19" else build("all", SPEC[prop][0])
    if head.startswith("simhistory"):
        g = lambda k: re.search(r"^%s (.*)" % k, head, re.M).group(1)
        work = os.path.join(HERE, "build", "work-replay"); os.makedirs(work, exist_ok=True)
        a = replay_history(binary, prop, int(g("seed")), json.loads(g("runs")), int(g("run")), work)
        shutil.rmtree(work, ignore_errors=True)
        print("replay: " + ("no violation" if a is None else "%s: %s\nhash %s" % (a[0], a[2], a[1])))
        sys.exit(0 if a is None else 1 if a[1] == g("hash") else 4)
    if head.startswith("simdead"):
        r = subprocess.run([binary] + re.search(r"^command (.*)", head, re.M).group(1).split() + ["--count", "1", "--out", "/dev/null", "--dir", HERE + "/build"], preexec_fn=limits)
        sys.exit(1 if r.returncode else 0)
    sys.exit(subprocess.run([binary, "replay", "--file", path], preexec_fn=limits).returncode)


def main():
    sys.path.insert(0, HERE)
    # findings that the simulator itself has to know, so that the runs go on past them
    os.environ["SIM_KNOWN"] = ",".join(k["id"] for k in known_findings()["findings"] if "id" in k)
    prop = sys.argv[1]
    if prop == "--setup":
        # checks build for themselves; this only shows early whether they can
        for tool in ("clang++", "make"):
            if not shutil.which(tool): die(tool + " is missing")
        r = subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-w", "-I.", "-I%s/include" % REPO, "cfg_vector_1.cpp"], cwd=SIM)
        sys.exit(2 if r.returncode else 0)
    if prop == "replay": return replay(sys.argv[2])
    if prop not in SPEC: die("unknown property " + prop)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    quick = tier != "thorough"
    t0 = time.time()
    replays = os.path.join(HERE, "replays"); os.makedirs(replays, exist_ok=True)
    for f in glob.glob(os.path.join(replays, prop + "-*")): os.remove(f)
    work = os.path.join(HERE, "build", "work-" + prop)
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try:
        if prop == "C14":
            import noexc
            return noexc.run(sys.modules[__name__], prop, tier, seed, quick, work, replays, t0)
        if prop == "C17":
            binary = build_fib()
        elif prop == "C19":
            binary = build_mem()
        else:
            binary = build("all", SPEC[prop][0])
        build_s = time.time() - t0
        bad, search_s = run_workers(binary, prop, seed, quick, work)
        tot, hashes, sigs, cfgs, samples, found = merge(work)
        viols, known = [], known_findings()
        seen_known = set()
        for k, rc in bad: viols.append(dead_worker(binary, prop, seed, k, rc, work, replays))
        unrepeated = []
        for k in range(NPROC):
            try: unrepeated += [(k, x["run"]) for x in json.load(open("%s/w%d.json" % (work, k))).get("seen", []) if not x["repeats"]]
            except OSError: pass
        for f in sorted(found):
            dst = os.path.join(replays, os.path.basename(f)); shutil.copy(f, dst)
            r = subprocess.run([binary, "replay", "--file", dst], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, preexec_fn=limits)
            print(r.stdout.strip())
            if r.returncode in (0, 4):
                run = int(re.search(r"-(\d+)-\d+\.replay$", dst).group(1))
                os.remove(dst); unrepeated.append((run % NPROC, run)); continue
            if r.returncode != 1: die("the recorded violation %s does not replay (status %d)" % (dst, r.returncode))
            info = record_info(dst)
            hit = [k for k in known["findings"] if matches(k, prop, info)]
            if hit: seen_known.add(hit[0]["what"]); os.remove(dst)
            else: viols.append(dst)
        for k, run in sorted(unrepeated, key=lambda x: x[1])[:4]:
            if viols: break
            h = history(binary, prop, seed, k, run, work, replays)
            if h: viols.append(h)
            else: die("the violation seen in run %d does not repeat in a fresh process" % run)
        for k in known["findings"]:
            if k["property"] == prop: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if tot.get("determinism_bad", 0) and not viols: die("%d executions were not repeatable" % tot["determinism_bad"])
        if not viols and int(tot.get("programs", 0)) == 0: die("nothing was explored")
        nontriv = "the scheduler switched tasks in it" if prop == "C17" else "a failure was injected or a limit error was raised in it" if tot.get("want_fault", 0) else "at least four calls were executed"
        cov = coverage(tot, hashes, sigs, cfgs, samples, search_s, build_s, nontriv)
        if prop == "C17":
            cov["distinct_interleavings"] = len(hashes)
            cov["interleaving_measure"] = "distinct hashes of the whole event trace, which includes every switch (from, to, calls and basic-block counts at that point)"
            cov["call_state_measure"] += "; plus distinct pairs of (call in progress, inside the library or not) at a switch"
        finish(prop, tier, seed, viols, cov, time.time() - t0, ASSUME)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
