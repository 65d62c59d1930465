"""C14: the same seeded programs run in the ordinary build and in the SFL_NO_EXCEPTIONS build; every call must have the same
results, element operations and allocator calls, and end in abort exactly where the ordinary build throws."""
import os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor


def trace_of(C, binary, path):
    r = subprocess.run([binary, "trace", "--file", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60, preexec_fn=C.limits)
    return r.stdout if r.returncode == 0 else "status %d" % r.returncode


def differ(C, bins, path):
    """None if both builds do the same, else (index of the first call that differs, text)"""
    a, b = (trace_of(C, x, path).split("\n") for x in bins)
    if a == b: return None
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]: n += 1
    return n, "with exceptions: %s; without: %s" % (a[-2:-1] or a, b[-2:-1] or b)


def write(path, head, ops, tail):
    with open(path, "w") as f: f.write("".join(head + ops + tail))


def minimise(C, bins, path, work):
    lines = open(path).readlines()
    head = [l for l in lines if not l.startswith(("op ", "violation", "hash", "text", "sched"))]
    ops = [l for l in lines if l.startswith("op ")]
    tmp = os.path.join(work, "min.replay")
    def bad(o):
        write(tmp, head, o, []); return differ(C, bins, tmp)
    step = max(1, len(ops) // 2)
    while step:
        i = 0
        while i < len(ops):
            t = ops[:i] + ops[i + step:]
            if t and bad(t): ops = t
            else: i += step
        step //= 2
    for i in range(len(ops)):
        for f in "abcde":
            if re.search(r"\b%s=0\b" % f, ops[i]): continue
            t = list(ops); t[i] = re.sub(r"\b%s=-?\d+" % f, f + "=0", ops[i])
            if bad(t): ops = t
    at, text = bad(ops)
    write(path, head, ops, ["violation noexc op %d\n" % min(at, len(ops) - 1), "hash 0\n", "text %s\n" % text])
    return text


def builds(C):
    fam = C.SPEC["C14"][0]
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(C.build, "ndebug", fam, "-DNDEBUG")
        b = ex.submit(C.build, "noexc", fam, "-DSFL_NO_EXCEPTIONS -DNDEBUG")
        return [a.result(), b.result()]


def run(C, prop, tier, seed, quick, work, replays, t0):
    bins = builds(C)
    build_s = time.time() - t0
    total = C.SPEC[prop][1]
    chunk = total // C.NPROC if quick else 60000
    search0 = time.time()
    budget = C.QUICK_CAP if quick else C.THOROUGH_TIME
    dead = []

    def shard(k, base, sub):
        out = []
        d = os.path.join(work, "%s-%d" % (sub, k)); os.makedirs(d, exist_ok=True)
        for m, b in enumerate(bins):
            cmd = [b, "noexc", "--prop", prop, "--seed", str(seed), "--start", str(base + k), "--stride", str(C.NPROC), "--count", str(chunk), "--out", "%s/w%d.json" % (d, m), "--dir", d]
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600, preexec_fn=C.limits)
            if r.returncode: dead.append("worker ended with %d: %s" % (r.returncode, r.stderr[-300:]))
        ts = ["%s/w%d.json.trace" % (d, m) for m in range(2)]
        n = 0
        with open(ts[0]) as f, open(ts[1]) as g:
            for x, y in zip(f, g):
                n += 1
                if x != y and len(out) < 4: out.append((int(x.split()[0]), x.split()[1]))
        same_len = sum(1 for _ in open(ts[0])) == sum(1 for _ in open(ts[1]))
        if not same_len: dead.append("the two builds ran different numbers of programs")
        for p in ts: os.remove(p)
        return out

    bad, rounds = [], 0
    while True:
        with ThreadPoolExecutor(C.NPROC) as ex:
            for o in ex.map(lambda k: shard(k, rounds * chunk * C.NPROC, "r%d" % rounds), range(C.NPROC)): bad += o
        rounds += 1
        if dead: C.die(dead[0])
        if bad or quick or time.time() - search0 > budget: break
    search_s = time.time() - search0

    viols, seen = [], set()
    for idx, cfg in bad:
        fam = re.sub(r"_EK.*", "", cfg)
        if fam in seen or len(viols) >= 3: continue
        path = os.path.join(replays, "%s-%s-%d.replay" % (prop, fam, idx))
        subprocess.run([bins[0], "noexc", "--prop", prop, "--seed", str(seed), "--start", str(idx), "--count", "1", "--out", work + "/one.json", "--dir", work, "--file", path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        first, again = differ(C, bins, path), differ(C, bins, path)
        if not first or first != again: C.die("the difference in run %d does not repeat" % idx)
        text = minimise(C, bins, path, work)
        if differ(C, bins, path) is None: C.die("the recorded difference %s does not replay" % path)
        seen.add(fam); viols.append(path)
        print("replay: %s: %s" % (cfg, text))
    # merge the reports of both builds
    tots = []
    for m in range(2):
        sub = os.path.join(work, "m%d" % m); os.makedirs(sub)
        n = 0
        allr = []
        for r in range(rounds):
            for k in range(C.NPROC): allr.append("%s/r%d-%d/w%d.json" % (work, r, k, m))
        tots.append(C.merge(sub, allr))
    tot, hashes, sigs, cfgs, samples, _ = tots[0]
    cov = C.coverage(tot, hashes, sigs, cfgs, samples, search_s, build_s, "at least four calls were executed")
    cov["builds_compared"] = ["ordinary, NDEBUG", "SFL_NO_EXCEPTIONS, NDEBUG"]
    cov["events_in_no_exceptions_build"] = int(tots[1][0].get("events", 0))
    cov["runs_in_no_exceptions_build"] = int(tots[1][0].get("runs", 0))
    C.finish(prop, tier, seed, viols, cov, time.time() - t0, C.ASSUME + ["both builds of the simulator itself keep exceptions on, so that it can observe a throw where an abort is due"])
