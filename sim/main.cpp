// Worker: seeded search over programs and fault sequences, minimisation, replay.
#include "props.hpp"
#include "fibers.hpp"
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <errno.h>
#include <algorithm>
#include <unordered_set>
#include <map>
#include <cxxabi.h>

using namespace sim;

// ------------------------------------------------------------ crash handling
static volatile int g_last_signal = 0;
static void on_signal(int sig) {
    g_last_signal = sig;
    const char* nm = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "watchdog";
    if (!W.escape) { static const char m[] = "signal outside a run\n"; if (write(2, m, sizeof m - 1)) {} _exit(3); }
    if (W.viol.kind == V_NONE) {
        W.viol.kind = W.relabel ? V_SCHED : sig == SIGVTALRM ? V_HANG : V_CRASH; W.viol.op_index = W.op_index;
        W.viol.text = std::string(W.phase) + ": " + nm + (W.window ? " during the call" : " while inspecting the result");
    }
    W.window = false;
    siglongjmp(*W.escape, 1);
}
static void install_signals() {
    static char stk[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
}
static void watchdog(int ms) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = ms / 1000; t.it_value.tv_usec = (ms % 1000) * 1000; setitimer(ITIMER_VIRTUAL, &t, nullptr); }

// ------------------------------------------------------------ one execution
struct Result { bool violated = false; Violation v; uint64_t hash = 0, obs = 0, limits = 0, done_ops = 0; bool run_fault = false; int stop_op = -1; uint64_t sched_hash = 0; };

static Result execute_here(Driver& d, const Program& p, RunObs& o) {
    Result r;
    sigjmp_buf jb;
    W.begin_run();
    W.arena.reuse = p.flags & REUSE;
    const uint64_t lim0 = W.st.length_errors + W.st.range_errors, ops0 = W.st.ops - W.st.ops_skipped;
    W.escape = &jb;
    W.count_by_kind = o.counts != nullptr;
    watchdog(4000);
    if (sigsetjmp(jb, 1) == 0) {
        if (W.watch_memory) g_access_hook = check_access;
        d.exec(p, o);
    } else {
        auto* g = __cxxabiv1::__cxa_get_globals(); g->caughtExceptions = nullptr; g->uncaughtExceptions = 0;
        r.violated = true;
    }
    watchdog(0); g_access_hook = nullptr;
    if (r.violated) W.viol.op_index = d.map_op(W.task, W.viol.op_index);
    W.escape = nullptr; W.relabel = false; W.window = false; W.harness = 0; W.yield_hook = nullptr;
    r.v = W.viol; r.hash = W.hash; r.obs = o.obs; r.run_fault = W.run_fault; r.stop_op = o.stop_op;
    r.limits = W.st.length_errors + W.st.range_errors - lim0; r.done_ops = W.st.ops - W.st.ops_skipped - ops0;
    ++W.st.runs; W.st.events += W.events;
    return r;
}

// Executions of interleaved tasks get a process each: state the library keeps outside its objects
// then starts the same way every time, so that one program is one execution even if there is such state.
struct Shared { int done; Result* unused; bool violated, run_fault; int kind, op_index, stop_op; char text[1200]; uint64_t hash, obs, limits, done_ops; Stats st; uint32_t nsig; uint64_t sig[8192]; };
static Result execute(Driver& d, const Program& p, RunObs& o) {
    if (!d.forked()) return execute_here(d, p, o);
    static Shared* S = nullptr;
    if (!S) { void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) { perror("mmap"); _exit(3); } S = static_cast<Shared*>(m); W.arena.init(); }
    S->done = 0; S->nsig = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0) {
        std::unordered_set<uint64_t> sg; RunObs oc = o; oc.sigs = &sg;
        Result r = execute_here(d, p, oc);
        S->violated = r.violated; S->run_fault = r.run_fault; S->kind = r.v.kind; S->op_index = r.v.op_index; S->stop_op = r.stop_op;
        snprintf(S->text, sizeof S->text, "%s", r.v.text.c_str()); S->hash = r.hash; S->obs = r.obs; S->limits = r.limits; S->done_ops = r.done_ops; S->st = W.st;
        for (uint64_t x : sg) if (S->nsig < 8192) S->sig[S->nsig++] = x;
        S->done = 1; _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r;
    if (!S->done) { r.violated = true; r.v.kind = V_SCHED; r.v.op_index = -1; char b[80]; snprintf(b, sizeof b, "the process of the run died (status %d)", st); r.v.text = b; r.hash = uint64_t(st) + 99; ++W.st.runs; return r; }
    r.violated = S->violated; r.run_fault = S->run_fault; r.v.kind = VKind(S->kind); r.v.op_index = S->op_index; r.v.text = S->text; r.stop_op = S->stop_op;
    r.hash = S->hash; r.obs = S->obs; r.limits = S->limits; r.done_ops = S->done_ops; W.st = S->st;
    if (o.sigs) for (uint32_t i = 0; i < S->nsig; ++i) o.sigs->insert(S->sig[i]);
    return r;
}

// ------------------------------------------------------------ replay files
static const char* const mode_names[5] = {"none", "once", "persist", "oom_window", "total"};
struct Record { std::string prop, config; uint64_t seed = 0, run = 0, hash = 0; Program p; Violation v; };
static int op_code(const OpInfo* t, int n, const std::string& s) { for (int i = 0; i < n; ++i) if (s == t[i].name) return i; return -1; }
static void write_record(const std::string& path, Driver& d, const Record& r) {
    FILE* f = fopen(path.c_str(), "w"); if (!f) { perror("replay file"); _exit(3); }
    int n; const OpInfo* t = d.ops(n);
    fprintf(f, "simreplay 1\nproperty %s\nconfig %s\nfound_by seed=%llu run=%llu\nmax_elems %lld\nflags %u\n", r.prop.c_str(), r.config.c_str(), (unsigned long long)r.seed, (unsigned long long)r.run, (long long)r.p.max_elems, r.p.flags);
    for (size_t i = 0; i < r.p.ops.size(); ++i) {
        const Op& o = r.p.ops[i];
        fprintf(f, "op %s c=%d a=%d b=%d d=%d e=%d fault=%s mask=%u at=%d win=%d", t[o.code].name, o.c, o.a, o.b, o.d, o.e, mode_names[o.fmode], o.fmask, o.fat, o.fwin);
        if (d.forked()) fprintf(f, " task=%d", o.task);
        if (o.fmode) { fprintf(f, " #"); for (int k = 0; k < F_COUNT; ++k) if (o.fmask & (1u << k)) fprintf(f, " %s", fault_names[k]); }
        fprintf(f, "\n");
    }
    if (!r.p.sched.empty()) { fprintf(f, "sched"); for (int x : r.p.sched) fprintf(f, " %d", x); fprintf(f, "\n"); }
    fprintf(f, "violation %s op %d\nhash %016llx\ntext %s\n", vkind_names[r.v.kind], r.v.op_index, (unsigned long long)r.hash, r.v.text.c_str());
    fclose(f);
}
static Driver* find_driver(const std::string& name) {
    static std::map<std::string, std::unique_ptr<Driver>> cache;
    auto it = cache.find(name); if (it != cache.end()) return it->second.get();
    for (auto& c : configs()) if (c.name == name) { cache[name] = c.make(); return cache[name].get(); }
    return nullptr;
}
static Driver* make_fibers(const std::string& name) {
    static std::map<std::string, std::unique_ptr<Driver>> cache;
    auto it = cache.find(name); if (it != cache.end()) return it->second.get();
    for (auto& c : configs()) if (c.name == name) { cache[name] = std::unique_ptr<Driver>(new FiberDriver(c.name, c.make)); return cache[name].get(); }
    return nullptr;
}
static Driver* driver_for(const std::string& prop, const std::string& cfg) { return prop == "C17" ? make_fibers(cfg) : find_driver(cfg); }
static bool read_record(const std::string& path, Record& r) {
    FILE* f = fopen(path.c_str(), "r"); if (!f) { perror(path.c_str()); return false; }
    char line[1 << 16]; Driver* d = nullptr;
    while (fgets(line, sizeof line, f)) {
        char a[256], b[256]; unsigned long long u, w; long long l; Op o;
        if (sscanf(line, "property %255s", a) == 1) r.prop = a;
        else if (sscanf(line, "config %255s", a) == 1) { r.config = a; }
        else if (sscanf(line, "found_by seed=%llu run=%llu", &u, &w) == 2) { r.seed = u; r.run = w; }
        else if (sscanf(line, "max_elems %lld", &l) == 1) r.p.max_elems = l;
        else if (sscanf(line, "flags %llu", &u) == 1) r.p.flags = uint32_t(u);
        else if (strncmp(line, "op ", 3) == 0) {
            if (!d) d = driver_for(r.prop, r.config);
            if (!d) { fprintf(stderr, "unknown config %s\n", r.config.c_str()); fclose(f); return false; }
            int n; const OpInfo* t = d->ops(n); unsigned m;
            if (sscanf(line, "op %255s c=%d a=%d b=%d d=%d e=%d fault=%255[a-z_] mask=%u at=%d win=%d", a, &o.c, &o.a, &o.b, &o.d, &o.e, b, &m, &o.fat, &o.fwin) != 10) { fprintf(stderr, "bad line %s", line); fclose(f); return false; }
            int code = op_code(t, n, a); if (code < 0) { fprintf(stderr, "unknown op %s\n", a); fclose(f); return false; }
            if (const char* tk = strstr(line, " task=")) o.task = uint8_t(atoi(tk + 6));
            o.code = uint16_t(code); o.fmask = m; for (int k = 0; k < 5; ++k) if (!strcmp(b, mode_names[k])) o.fmode = uint8_t(k);
            r.p.ops.push_back(o);
        } else if (strncmp(line, "sched", 5) == 0) { char* q = line + 5; for (;;) { char* e; long v = strtol(q, &e, 10); if (e == q) break; r.p.sched.push_back(int32_t(v)); q = e; } }
        else if (sscanf(line, "violation %255s op %lld", a, &l) == 2) { for (int k = 0; k < V_COUNT; ++k) if (!strcmp(a, vkind_names[k])) r.v.kind = VKind(k); r.v.op_index = int(l); }
        else if (sscanf(line, "hash %llx", &u) == 1) r.hash = u;
        else if (strncmp(line, "text ", 5) == 0) { r.v.text = line + 5; while (!r.v.text.empty() && r.v.text.back() == '\n') r.v.text.pop_back(); }
    }
    fclose(f); return true;
}

// ------------------------------------------------------------ ownership
static void own(const Prop& pr) {
    W.enabled = pr.pf.fibers || pr.pf.prop == "C14" ? ~0ull : pr.pf.kinds | pr.kinds_after_fault;
    W.own_cls = pr.own_cls; W.watch_memory = pr.pf.prop == "C19"; W.limits = pr.pf.prop == "C12"; W.past_limit = false;
}
static bool owned(const Prop& pr, Driver& d, const Program& p, const Result& r) {
    if (r.v.kind == V_NONE) return false;
    if (pr.pf.kinds >> r.v.kind & 1) return true;
    if (r.run_fault && (pr.kinds_after_fault >> r.v.kind & 1)) return true;
    if (pr.own_cls && r.v.op_index >= 0 && r.v.op_index < int(p.ops.size())) {
        const Op& o = p.ops[size_t(r.v.op_index)]; int n; const OpInfo* t = d.ops(n);
        if ((t[o.code].cls & pr.own_cls) && (!pr.own_cls_fault || o.fmode != FM_NONE)) return true;
    }
    return false;
}
static Result run_plain(Driver& d, const Program& p) { RunObs o; return execute(d, p, o); }

static int minimise(const Prop& pr, Driver& d, Program& best, Result& br) {
    int budget = 4000, tries = 0; time_t t0 = time(nullptr);
    VKind kind = br.v.kind; const bool hang = kind == V_HANG;
    if (hang) budget = 12;
    auto ok = [&](const Program& q) -> bool {
        if (budget-- <= 0 || time(nullptr) - t0 > 25) return false;
        ++tries; Result r = run_plain(d, q);
        if (r.violated && r.v.kind == kind && owned(pr, d, q, r)) { br = r; return true; }
        return false;
    };
    // truncate behind the failing op
    if (br.v.op_index >= 0 && br.v.op_index + 1 < int(best.ops.size())) { Program q = best; q.ops.resize(size_t(br.v.op_index) + 1); if (ok(q)) best = q; }
    bool again = true;
    while (again && budget > 0) {
        again = false;
        for (size_t chunk = std::max<size_t>(1, best.ops.size() / 2); chunk >= 1 && budget > 0; chunk /= 2) {
            for (size_t at = 0; at + chunk <= best.ops.size() && budget > 0;) {
                Program q = best; q.ops.erase(q.ops.begin() + long(at), q.ops.begin() + long(at + chunk));
                if (ok(q)) { best = q; again = true; } else at += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.ops.size(); ++i) if (best.ops[i].fmode) { Program q = best; q.ops[i].fmode = FM_NONE; q.ops[i].fmask = 0; q.ops[i].fat = q.ops[i].fwin = 0; if (ok(q)) { best = q; again = true; } }
        for (size_t i = 0; i < best.ops.size(); ++i) {
            if (best.ops[i].fmode == FM_PERSIST || best.ops[i].fmode == FM_TOTAL) { Program q = best; q.ops[i].fmode = FM_ONCE; if (ok(q)) { best = q; again = true; } }
            if (best.ops[i].fmode) for (int k = 0; k < F_COUNT; ++k) if (best.ops[i].fmask != (1u << k) && (best.ops[i].fmask >> k & 1)) for (int at = 0; at < 4; ++at) { Program q = best; q.ops[i].fmask = 1u << k; q.ops[i].fat = at; if (ok(q)) { best = q; again = true; break; } }
        }
        if (!best.sched.empty()) {
            for (size_t chunk = std::max<size_t>(1, best.sched.size() / 2); chunk >= 1 && budget > 0; chunk /= 2) {
                for (size_t at = 0; at + chunk <= best.sched.size() && budget > 0;) { Program q = best; q.sched.erase(q.sched.begin() + long(at), q.sched.begin() + long(at + chunk)); if (ok(q)) { best = q; again = true; } else at += chunk; }
                if (chunk == 1) break;
            }
        }
    }
    // smaller parameters
    for (int pass = 0; pass < 2; ++pass) for (size_t i = 0; i < best.ops.size() && budget > 0; ++i) for (int f = 0; f < 5; ++f) {
        auto get = [&](Op& o) -> int32_t& { return f == 0 ? o.a : f == 1 ? o.b : f == 2 ? o.d : f == 3 ? o.fat : o.c; };
        int32_t cur = get(best.ops[i]);
        for (int32_t cand : {0, 1, 2, 3, cur % 8, cur % 40, cur % 840, cur >= 200 ? 200 + (cur - 200) / 2 : 0, cur / 2, cur - 1}) {
            cur = get(best.ops[i]);
            if (cand < 0 || cand >= cur) continue;
            Program q = best; get(q.ops[i]) = cand; if (ok(q)) { best = q; break; }
        }
    }
    { Program q = best; if (q.max_elems) { q.max_elems = 0; if (ok(q)) best = q; } }
    if (best.flags & REUSE) { Program q = best; q.flags &= ~REUSE; if (ok(q)) best = q; }
    br = run_plain(d, best);
    return tries;
}

// ------------------------------------------------------------ search
struct Args { std::string mode, prop, out, dir, file, only, progress, list; uint64_t seed = 1, start = 0, count = 0, stride = 1; double time_s = 0; int max_viol = 3; };

static std::string jstr(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }

static bool family_ok(const Prop& p, Driver& d) {
    std::string f = d.family();
    const bool uno = f.find("unordered") != std::string::npos, flat = f.find("flat") != std::string::npos, st = f.find("static") != std::string::npos;
    uint32_t fam = uno ? FA_UNO : flat ? FA_ORD : FA_SEQ;
    if (!(p.fams & fam)) return false;
    if (p.heap_only && st) return false;
    return d.applies(p.pf);
}

static bool pick_fault(Rng& r, const Profile& pf, const OpCount& oc, Op& op) {
    uint32_t avail = 0; for (int k = 0; k < F_COUNT; ++k) if (oc.kind[k] && (pf.fault_mask >> k & 1)) avail |= 1u << k;
    if (!avail) return false;
    uint32_t mask = pf.fault_mask;
    if (r.chance(1, 2)) { int k; do k = int(r.below(F_COUNT)); while (!(avail >> k & 1)); mask = 1u << k; }
    uint64_t tot = 0; for (int k = 0; k < F_COUNT; ++k) if (mask >> k & 1) tot += oc.kind[k];
    int m; do m = 1 + int(r.below(4)); while (!(pf.modes >> m & 1));
    op.fmode = uint8_t(m); op.fmask = mask; op.fat = int32_t(r.below(uint32_t(tot)));
    if (m == FM_OOM_WINDOW) { op.fmask = 1u << F_ALLOC; op.fwin = int32_t(r.below(5)); }
    return true;
}

struct Search {
    Args a; Prop pr; std::vector<Driver*> ds;
    std::unordered_set<uint64_t> sigs, hashes;
    std::map<std::string, uint64_t> cfg_runs;
    std::vector<std::string> viol_files, samples; std::unordered_set<std::string> seen_viol;
    struct Seen { uint64_t run; VKind kind; uint64_t hash; std::string text; bool repeats; }; std::vector<Seen> seen;
    uint64_t programs = 0, determinism_checked = 0, determinism_bad = 0, minim = 0; int nviol = 0;
    uint64_t ops_by_outcome[5] = {};

    bool one(Driver& d, const Program& p, uint64_t run, RunObs& o, Result* res = nullptr) {
        o.sigs = &sigs;
        const uint64_t switches0 = W.st.switches;
        Result r = execute(d, p, o);
        const bool trivial = pr.pf.fibers ? W.st.switches == switches0 : pr.pf.fault_pct ? !(r.run_fault || r.limits) : r.done_ops < 4;
        if (!trivial && hashes.size() < 3000000) hashes.insert(r.hash);
        if (res) *res = r;
        if ((r.hash & 255) == 7) { // same program, same execution
            RunObs o2; Result q = execute(d, p, o2); ++determinism_checked;
            if (q.hash != r.hash || q.v.kind != r.v.kind) { ++determinism_bad; fprintf(stderr, "determinism check failed: run %llu %s\n", (unsigned long long)run, d.name().c_str()); }
        }
        if (r.violated) {
            if (!owned(pr, d, p, r)) { ++W.st.foreign[r.v.kind]; if (getenv("SIM_FOREIGN")) fprintf(stderr, "foreign %s %s run %llu op %d: %s\n", vkind_names[r.v.kind], d.name().c_str(), (unsigned long long)run, r.v.op_index, r.v.text.c_str()); return true; }
            int n; const OpInfo* t = d.ops(n);
            std::string site = d.family() + "|" + vkind_names[r.v.kind] + "|" + (r.v.op_index >= 0 && r.v.op_index < int(p.ops.size()) ? t[p.ops[size_t(r.v.op_index)].code].name : "end");
            if (seen_viol.count(site)) return true;
            if (nviol >= a.max_viol) return true;
            seen_viol.insert(site);
            Program best = p; Result br = r;
            seen.push_back({run, r.v.kind, r.hash, r.v.text, true});
            Result g1 = run_plain(d, p), g2 = run_plain(d, p);
            // not a violation of this run alone: something outlives the containers, so the runs before it belong to the execution
            if (!g1.violated || g1.v.kind != r.v.kind || g1.hash != g2.hash) { seen.back().repeats = false; fprintf(stderr, "violation does not repeat: run %llu %s %s\n", (unsigned long long)run, d.name().c_str(), r.v.text.c_str()); return true; }
            minim += uint64_t(minimise(pr, d, best, br));
            Record rec; rec.prop = a.prop; rec.config = d.name(); rec.seed = a.seed; rec.run = run; rec.p = best; rec.v = br.v; rec.hash = br.hash;
            char nm[256]; snprintf(nm, sizeof nm, "%s/%s-%s-%llu-%d.replay", a.dir.c_str(), a.prop.c_str(), d.family().c_str(), (unsigned long long)run, nviol);
            write_record(nm, d, rec); ++nviol;
            viol_files.push_back(nm);
            return true;
        }
        return false;
    }
    void run_index(uint64_t idx) {
        Rng r(mix(mix(a.seed * 0x9E37u + 17, idx), std::hash<std::string>()(a.prop)));
        Driver& d = *ds[r.below(uint32_t(ds.size()))];
        ++cfg_runs[d.name()]; ++programs;
        Program p; d.gen(r, pr.pf, p);
        if (!pr.pf.fibers && mix(mix(a.seed, idx), 77) % 3 == 0) p.flags |= REUSE;
        int n; const OpInfo* t = d.ops(n);
        RunObs o; std::vector<OpCount> counts; o.counts = &counts; Result res;
        bool v = one(d, p, idx, o, &res);
        if (samples.size() < 3 && programs % 97 == 5) { std::string s = d.name() + ":"; for (auto& op : p.ops) { s += " "; s += t[op.code].name; } samples.push_back(s.substr(0, 300)); }
        if (pr.pf.fibers && !v) for (int k = 0; k < 5; ++k) { Program q = p; d.resched(r, q); RunObs o2; if (one(d, q, idx, o2)) break; }
        if (v || pr.pf.fibers) return;
        const Profile& pf = pr.pf;
        if (!pf.fault_pct || !r.chance(uint32_t(pf.fault_pct), 100)) return;
        auto eligible = [&](const Op& op, const OpCount& oc) { if (!(pf.fault_ops == OC_ANY || (t[op.code].cls & pf.fault_ops))) return false; for (int k = 0; k < F_COUNT; ++k) if (oc.kind[k] && (pf.fault_mask >> k & 1)) return true; return false; };
        if (pf.modes == (1u << FM_TOTAL)) { // every eligible call meets total failure
            Program q = p; for (auto& op : q.ops) if ((t[op.code].cls & pf.fault_ops) && r.chance(5, 6)) { op.fmode = FM_TOTAL; op.fmask = pf.fault_mask; }
            RunObs o2; one(d, q, idx, o2); return;
        }
        // earlier failures, so that the victim call starts from a state left by one
        Program q = p;
        if (r.chance(2, 5)) {
            int k = 1 + int(r.below(4));
            for (int i = 0; i < k; ++i) { size_t at = r.below(uint32_t(q.ops.size())); if (at < counts.size()) { Profile any = pf; if (r.chance(1, 2)) any.fault_mask = (1u << F_COUNT) - 1; pick_fault(r, any, counts[at], q.ops[at]); } }
            counts.clear(); RunObs o2; o2.counts = &counts; if (one(d, q, idx, o2)) return;
        }
        int victims = pf.sweep ? 1 + int(r.below(2)) : 0;
        for (int vi = 0; vi < victims; ++vi) {
            std::vector<size_t> el; for (size_t i = 0; i < q.ops.size() && i < counts.size(); ++i) if (!q.ops[i].fmode && eligible(q.ops[i], counts[i])) el.push_back(i);
            if (el.empty()) break;
            size_t at = el[r.below(uint32_t(el.size()))];
            if (!p.hot.empty() && r.chance(3, 4)) { std::vector<size_t> h; for (size_t i : el) if (std::find(p.hot.begin(), p.hot.end(), int(i)) != p.hot.end()) h.push_back(i); if (!h.empty()) at = h[r.below(uint32_t(h.size()))]; }
            uint64_t tot = 0; for (int k = 0; k < F_COUNT; ++k) if (pf.fault_mask >> k & 1) tot += counts[at].kind[k];
            const uint64_t most = p.big ? 6 : 40, step = tot > most ? tot / most : 1; const uint64_t off = step > 1 ? r.below(uint32_t(step)) : 0;
            for (uint64_t k = off; k < tot; k += step) {
                Program z = q; z.ops[at].fmode = FM_ONCE; z.ops[at].fmask = pf.fault_mask; z.ops[at].fat = int32_t(k);
                if ((pf.modes >> FM_PERSIST & 1) && r.chance(1, 5)) z.ops[at].fmode = FM_PERSIST;
                RunObs o2; if (one(d, z, idx, o2)) break;
            }
        }
        // several failures spread over the run
        int multi = pf.sweep ? 1 : 4;
        for (int m = 0; m < multi; ++m) {
            Program z = p; int k = 1 + int(r.below(5)); bool any = false;
            for (int i = 0; i < k; ++i) { size_t at = r.below(uint32_t(z.ops.size())); if (at < counts.size() && eligible(z.ops[at], counts[at])) any |= pick_fault(r, pf, counts[at], z.ops[at]); }
            if (!any) continue;
            RunObs o2; if (one(d, z, idx, o2)) break;
        }
    }
    void report(double wall) {
        FILE* f = fopen(a.out.c_str(), "w"); if (!f) { perror("out"); _exit(3); }
        const Stats& s = W.st;
        fprintf(f, "{\"want_fault\":%d,\"programs\":%llu,\"runs\":%llu,\"ops\":%llu,\"ops_skipped\":%llu,\"ops_failed\":%llu,\"fault_points\":%llu,\"events\":%llu,\"checks\":%llu,\"allocs\":%llu,\"reused\":%llu,\"length_errors\":%llu,\"range_errors\":%llu,\"armed_not_fired\":%llu,\"switches\":%llu,",
            int(pr.pf.fault_pct > 0 && !pr.pf.fibers), (unsigned long long)programs, (unsigned long long)s.runs, (unsigned long long)s.ops, (unsigned long long)s.ops_skipped, (unsigned long long)s.ops_failed, (unsigned long long)s.fault_points, (unsigned long long)s.events, (unsigned long long)s.checks, (unsigned long long)s.allocs, (unsigned long long)s.reused, (unsigned long long)s.length_errors, (unsigned long long)s.range_errors, (unsigned long long)s.armed_not_fired, (unsigned long long)s.switches);
        fprintf(f, "\"determinism_checked\":%llu,\"determinism_bad\":%llu,\"minimise_runs\":%llu,\"known\":%llu,\"wall\":%.3f,\"fired\":{", (unsigned long long)determinism_checked, (unsigned long long)determinism_bad, (unsigned long long)minim, (unsigned long long)s.known, wall);
        for (int k = 0; k < F_COUNT; ++k) fprintf(f, "%s\"%s\":%llu", k ? "," : "", fault_names[k], (unsigned long long)s.fired[k]);
        fprintf(f, "},\"fired_mode\":{"); for (int k = 1; k < 5; ++k) fprintf(f, "%s\"%s\":%llu", k > 1 ? "," : "", mode_names[k], (unsigned long long)s.fired_mode[k]);
        fprintf(f, "},\"foreign\":{"); bool first = true; for (int k = 0; k < V_COUNT; ++k) if (s.foreign[k]) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", vkind_names[k], (unsigned long long)s.foreign[k]); first = false; }
        fprintf(f, "},\"configs\":{"); first = true; for (auto& c : cfg_runs) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(c.first).c_str(), (unsigned long long)c.second); first = false; }
        fprintf(f, "},\"samples\":["); first = true; for (auto& x : samples) { fprintf(f, "%s%s", first ? "" : ",", jstr(x).c_str()); first = false; }
        fprintf(f, "],\"violations\":["); first = true; for (auto& x : viol_files) { fprintf(f, "%s%s", first ? "" : ",", jstr(x).c_str()); first = false; }
        fprintf(f, "],\"seen\":["); first = true; for (auto& x : seen) { fprintf(f, "%s{\"run\":%llu,\"kind\":\"%s\",\"hash\":\"%016llx\",\"repeats\":%s,\"text\":%s}", first ? "" : ",", (unsigned long long)x.run, vkind_names[x.kind], (unsigned long long)x.hash, x.repeats ? "true" : "false", jstr(x.text).c_str()); first = false; }
        fprintf(f, "]}\n"); fclose(f);
        auto dump = [&](const char* ext, const std::unordered_set<uint64_t>& z) { std::string nm = a.out + ext; FILE* g = fopen(nm.c_str(), "wb"); for (uint64_t x : z) fwrite(&x, 8, 1, g); fclose(g); };
        dump(".sigs", sigs); dump(".hashes", hashes);
    }
};
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

// ------------------------------------------------------------ build-mode comparison (C14)
#ifdef SFL_NO_EXCEPTIONS
static const bool no_exceptions = true;
#else
static const bool no_exceptions = false;
#endif
// The results of the calls up to the first error the library reports, and how the run ended. With exceptions the report
// has to be an exception, without them an abort: the other way round is told apart and so never equal.
static Result trace(Driver& d, const Program& p, RunObs& o, std::vector<uint64_t>& lines, std::string& end) {
    o.op_obs = &lines; o.stop_on_error = true;
    Result r = execute(d, p, o);
    const bool win_abort = r.violated && r.v.kind == V_CRASH && g_last_signal == SIGABRT && r.v.text.find("during the call") != std::string::npos;
    char b[256];
    if (o.stop_op >= 0) snprintf(b, sizeof b, no_exceptions ? "thrown_at %d" : "error_at %d", o.stop_op);
    else if (win_abort) snprintf(b, sizeof b, no_exceptions ? "error_at %d" : "abort_at %d", r.v.op_index);
    else if (r.violated) snprintf(b, sizeof b, "violation %s %d", vkind_names[r.v.kind], r.v.op_index);
    else snprintf(b, sizeof b, "done %016llx", (unsigned long long)mix(r.hash, r.obs));
    end = b;
    return r;
}

int main(int argc, char** argv) {
    Args a; if (argc < 2) return 2;
    a.mode = argv[1];
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") a.prop = v; else if (k == "--seed") a.seed = strtoull(v.c_str(), nullptr, 10); else if (k == "--start") a.start = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--count") a.count = strtoull(v.c_str(), nullptr, 10); else if (k == "--stride") a.stride = strtoull(v.c_str(), nullptr, 10); else if (k == "--time") a.time_s = atof(v.c_str());
        else if (k == "--out") a.out = v; else if (k == "--dir") a.dir = v; else if (k == "--file") a.file = v; else if (k == "--only") a.only = v; else if (k == "--progress") a.progress = v; else if (k == "--list") a.list = v; else if (k == "--max-viol") a.max_viol = atoi(v.c_str());
    }
    std::sort(configs().begin(), configs().end(), [](const Config& x, const Config& y) { return x.name < y.name; });
    install_signals();
    if (a.mode == "list") { for (auto& c : configs()) printf("%s\n", c.name.c_str()); return 0; }
    if (a.mode == "replay" || a.mode == "trace") {
        Record r; if (!read_record(a.file, r)) return 2;
        Prop pr; if (!make_prop(r.prop, pr)) return 2;
        own(pr);
        Driver* d = driver_for(r.prop, r.config); if (!d) { fprintf(stderr, "unknown config\n"); return 2; }
        if (a.mode == "trace") { RunObs o; std::vector<uint64_t> l; std::string e; trace(*d, r.p, o, l, e); for (uint64_t x : l) printf("%016llx\n", (unsigned long long)x); printf("%s\n", e.c_str()); return 0; }
        Result x = run_plain(*d, r.p);
        if (!x.violated) { printf("replay: no violation, hash %016llx\n", (unsigned long long)x.hash); return 0; }
        const bool same = x.hash == r.hash && x.v.kind == r.v.kind;
        int n; const OpInfo* t = d->ops(n);
        printf("replay: %s at op %d (%s): %s\nhash %016llx %s\n", vkind_names[x.v.kind], x.v.op_index, x.v.op_index >= 0 && x.v.op_index < int(r.p.ops.size()) ? t[r.p.ops[size_t(x.v.op_index)].code].name : "end of run", x.v.text.c_str(), (unsigned long long)x.hash, same ? "identical to the recorded execution" : "DIFFERENT from the recorded execution");
        return same ? 1 : 4;
    }
    Search s; s.a = a; if (!make_prop(a.prop, s.pr)) { fprintf(stderr, "unknown property\n"); return 2; }
    own(s.pr);
    for (auto& c : configs()) { Driver* d = driver_for(a.prop, c.name); if (family_ok(s.pr, *d) && (a.only.empty() || c.name.find(a.only) != std::string::npos)) s.ds.push_back(d); }
    if (s.ds.empty()) { fprintf(stderr, "no configuration\n"); return 2; }
    double t0 = now();
    if (a.mode == "noexc") {
        FILE* f = fopen((a.out + ".trace").c_str(), "w"); if (!f) { perror("out"); return 3; }
        for (uint64_t i = 0; a.count == 0 || i < a.count; ++i) {
            if (a.time_s > 0 && now() - t0 > a.time_s) break;
            uint64_t idx = a.start + i * a.stride;
            Rng r(mix(mix(a.seed * 0x9E37u + 17, idx), 1414)); Driver& d = *s.ds[r.below(uint32_t(s.ds.size()))]; Program p; d.gen(r, s.pr.pf, p);
            ++s.cfg_runs[d.name()]; ++s.programs;
            int n; const OpInfo* t = d.ops(n);
            if (s.samples.size() < 3 && s.programs % 97 == 5) { std::string x = d.name() + ":"; for (auto& op : p.ops) { x += " "; x += t[op.code].name; } s.samples.push_back(x.substr(0, 300)); }
            if (!a.file.empty()) { Record rec; rec.prop = a.prop; rec.config = d.name(); rec.seed = a.seed; rec.run = idx; rec.p = p; rec.v.kind = V_NOEXC; write_record(a.file, d, rec); }
            RunObs o; o.sigs = &s.sigs; std::vector<uint64_t> l; std::string e; Result x = trace(d, p, o, l, e);
            uint64_t h = 1; for (uint64_t v : l) h = mix(h, v);
            if (x.done_ops >= 4 && s.hashes.size() < 3000000) s.hashes.insert(x.hash);
            fprintf(f, "%llu %s %zu %016llx %s\n", (unsigned long long)idx, d.name().c_str(), l.size(), (unsigned long long)h, e.c_str());
        }
        fclose(f);
        s.report(now() - t0);
        return 0;
    }
    char* progress = nullptr; // index of the run in progress, readable after this process is gone
    if (!a.progress.empty()) {
        int fd = open(a.progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, 64) == 0) { void* m = mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) progress = (char*)m; }
    }
    if (!a.list.empty()) { // exactly these runs, in this order
        for (const char* q = a.list.c_str(); *q;) { char* e; uint64_t i = strtoull(q, &e, 10); if (e == q) break; s.run_index(i); q = *e ? e + 1 : e; }
    } else for (uint64_t i = 0; (a.count == 0 || i < a.count); ++i) {
        if (a.time_s > 0 && now() - t0 > a.time_s) break;
        if (s.nviol >= a.max_viol) break;
        if (progress) snprintf(progress, 64, "%llu\n", (unsigned long long)(a.start + i * a.stride));
        s.run_index(a.start + i * a.stride);
    }
    s.report(now() - t0);
    return 0;
}
