// Command line of one simulator process.
//   sim gen CHECK SEED                          print the plan of a seed
//   sim run CHECK SEED0 COUNT STRIDE SECS DIR TAG   run seeds, write failing plans to DIR
//   sim replay FILE [-v]                        re-execute a plan; exit 1 if it violates
//   sim minimise FILE CLASS SECS OUT            shrink a failing plan, same class
//   sim calib CHECK SEED0 COUNT                 print the largest ratios the oracles saw
#include "common.h"
#include <sys/personality.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <ctime>
#include <cstdlib>
double *calib_table();
static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; } // real time: batch budgets only

static std::string slurp(const char *f) { std::string s; FILE *fp = fopen(f, "rb"); if (!fp) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n); fclose(fp); return s; }
static void spit(const std::string &f, const std::string &s) { int fd = (int)syscall(SYS_openat, -100, f.c_str(), 01101, 0644); if (fd < 0) { _exit(5); } size_t o = 0; while (o < s.size()) { ssize_t w = write(fd, s.data() + o, s.size() - o); if (w <= 0) _exit(5); o += w; } close(fd); }
static void say(const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t w = write(1, s.data() + o, s.size() - o); if (w <= 0) return; o += w; } }

static int cmd_run(int argc, char **argv) {
    std::string id = argv[2]; u64 s0 = strtoull(argv[3], 0, 10), cnt = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10); double secs = atof(argv[6]); std::string dir = argv[7], tag = argv[8];
    double t0 = now(); i64 runs = 0, nontriv = 0, selfchk = 0; std::map<std::string, i64> fired, probes; std::set<u64> hists, covs, scheds, plans; std::map<std::string, int> seen;
    std::string sample; int afd = (int)syscall(SYS_openat, -100, (dir + "/" + tag + ".at").c_str(), 01101, 0644);
    for (u64 k = 0; k < cnt; k++) {
        if (now() - t0 > secs) break;
        u64 seed = s0 + k * stride; Plan p; (void)!pwrite(afd, &seed, 8, 0); /* the seed under way, should the process die */
        { Plan g; std::string err; gen_plan(id, seed, g); if (!plan_parse(plan_text(g), p, err)) { say("NONDET seed=" + std::to_string(seed) + " unreadable plan\n"); continue; } } // what runs is what a replay file says
        RunStat st; auto v = run_check(p, st); runs++;
        for (auto &kv : st.fired) fired[kv.first] += kv.second; for (auto &kv : st.probes) probes[kv.first] += kv.second;
        if (st.nontrivial) { nontriv++; hists.insert(st.hash); if (sample.empty() && k > 3) sample = plan_text(p); }
        covs.insert(st.covs.begin(), st.covs.end()); if (st.schedhash) scheds.insert(st.schedhash);
        plans.insert(st.hash);
        if (k % 40 == 7) { // determinism self-check: the same plan again, as generated, gives the same history (also if the text form loses anything)
            Plan q; gen_plan(id, seed, q); RunStat s2; run_check(q, s2); selfchk++;
            if (s2.hash != st.hash || plan_text(p) != plan_text(q)) { say("NONDET seed=" + std::to_string(seed) + "\n"); spit(dir + "/nondet-" + id + "-" + std::to_string(seed) + ".plan", plan_text(p)); }
        }
        for (auto &x : v) if (seen[x.cls]++ < 3) { std::string f = dir + "/" + id + "-" + x.cls + "-" + std::to_string(seed) + ".plan"; spit(f, plan_text(p)); say("V\t" + x.cls + "\t" + std::to_string(seed) + "\t" + f + "\t" + x.detail + "\n"); }
        else say("v\t" + x.cls + "\t" + std::to_string(seed) + "\n");
    }
    std::string o;
    auto line = [&](const std::string &k, i64 v) { o += "S\t" + k + "\t" + std::to_string(v) + "\n"; };
    line("runs", runs); line("nontrivial", nontriv); line("execs", g_tot_execs); line("ticks", g_tot_ticks); line("simns", g_tot_simns); line("switches", g_tot_switches); line("selfchk", selfchk);
    for (auto &kv : fired) o += "F\t" + kv.first + "\t" + std::to_string(kv.second) + "\n";
    for (auto &kv : probes) o += "P\t" + kv.first + "\t" + std::to_string(kv.second) + "\n";
    say(o);
    auto dump = [&](const char *n, const std::set<u64> &s) { std::string b; for (u64 x : s) b.append((const char *)&x, 8); spit(dir + "/" + tag + "." + n, b); };
    dump("hist", hists); dump("cov", covs); dump("sched", scheds);
    if (!sample.empty()) spit(dir + "/" + tag + ".sample", sample);
    close(afd); say("DONE\n");
    return 0;
}
static int cmd_replay(int argc, char **argv) {
    Plan p; std::string err; if (!plan_parse(slurp(argv[2]), p, err)) { say("cannot read plan: " + err + "\n"); return 2; }
    if (!check_exists(p.check)) { say("unknown check\n"); return 2; }
    if (argc > 3 && !strcmp(argv[3], "-v")) { ExecOpts o; o.trace = true; o.tickcap = 8000000000ll; History h; exec_plan(p, h, o); }
    RunStat st; auto v = run_check(p, st); char b[64];
    for (auto &x : v) say("V\t" + x.cls + "\t" + x.detail + "\n");
    snprintf(b, sizeof b, "HASH %016llx\n", (unsigned long long)st.hash); say(b);
    return v.empty() ? 0 : 1;
}
static bool fails(const Plan &p, const std::string &cls) { RunStat st; for (auto &x : run_check(p, st)) if (x.cls == cls) return true; return false; }
static int cmd_minimise(int argc, char **argv) {
    Plan p; std::string err; if (!plan_parse(slurp(argv[2]), p, err)) return 2;
    std::string cls = argv[3]; double secs = atof(argv[4]), t0 = now(); int tried = 0;
    if (!fails(p, cls)) { say("does not fail\n"); return 3; }
    auto attempt = [&](const Plan &q) { if (now() - t0 > secs) return false; tried++; if (!fails(q, cls)) return false; p = q; return true; };
    auto drop_op = [&](Plan &q, size_t t, size_t i) { q.tasks[t].erase(q.tasks[t].begin() + i); std::vector<Fault> nf; for (auto f : q.faults) { if (f.task == (int)t) { if (f.op == (int)i) continue; if (f.op > (int)i) f.op--; } nf.push_back(f); } q.faults = nf; };
    bool any = true;
    while (any && now() - t0 < secs) {
        any = false;
        for (size_t i = p.faults.size(); i-- > 0;) { Plan q = p; q.faults.erase(q.faults.begin() + i); any |= attempt(q); }
        for (size_t t = 0; t < p.tasks.size(); t++) for (size_t i = p.tasks[t].size(); i-- > 0;) { if (i >= p.tasks[t].size()) continue; Plan q = p; drop_op(q, t, i); any |= attempt(q); }
        for (size_t chunk = p.sched.size(); chunk >= 1; chunk /= 2) for (size_t i = 0; i + chunk <= p.sched.size();) { Plan q = p; q.sched.erase(q.sched.begin() + i, q.sched.begin() + i + chunk); if (attempt(q)) any = true; else i += chunk; }
        { Plan q = p; Env e; e.sig = p.env.sig; e.rnd = p.env.rnd; q.env = e; if (plan_text(q) != plan_text(p)) { if (attempt(q)) any = true; else {
            std::vector<std::function<void(Env &)>> z{[](Env &e) { e.fill = 0; e.fseed = 1; }, [](Env &e) { e.gap = 0; }, [](Env &e) { e.zero = 0; }, [](Env &e) { e.reuse = 0; }, [](Env &e) { e.base = 1000000000; }, [](Env &e) { e.out = 0; }, [](Env &e) { e.tick = 7; e.read = 40; }};
            for (auto &f : z) { Plan q2 = p; f(q2.env); if (plan_text(q2) != plan_text(p)) any |= attempt(q2); } } } }
        for (size_t t = 0; t < p.tasks.size(); t++) for (size_t i = 0; i < p.tasks[t].size(); i++) { std::vector<std::string> ks; for (auto &kv : p.tasks[t][i].a) ks.push_back(kv.first); for (auto &k : ks) { if (k == "w" || k == "prob" || k == "i" || k == "v" || k == "mode") continue; Plan q = p; q.tasks[t][i].a.erase(k); any |= attempt(q); } }
        for (size_t i = 0; i < p.probs.size(); i++) {
            auto field = [&](int ProbSpec::*m, int lo) { while (p.probs[i].*m > lo) { Plan q = p; q.probs[i].*m -= 1; if (!attempt(q)) break; any = true; } };
            field(&ProbSpec::n, 1); field(&ProbSpec::l, 0); field(&ProbSpec::p, 0); field(&ProbSpec::e, 0); field(&ProbSpec::nb, 0); field(&ProbSpec::ni, 0); field(&ProbSpec::nc, 0); field(&ProbSpec::ncon, 0); field(&ProbSpec::nf, 0);
            if (p.probs[i].lat) { Plan q = p; q.probs[i].lat = 0; any |= attempt(q); }
            if (p.probs[i].pm || p.probs[i].dm) { Plan q = p; q.probs[i].pm = q.probs[i].dm = 0; any |= attempt(q); }
            if (p.probs[i].scale) { Plan q = p; q.probs[i].scale = 0; any |= attempt(q); }
            while (!p.probs[i].q.empty()) { Plan q = p; q.probs[i].q.pop_back(); if (!attempt(q)) break; any = true; }
        }
        // unreferenced problems
        for (size_t i = p.probs.size(); i-- > 1;) { bool used = false; for (auto &t : p.tasks) for (auto &o : t) if (o.a.count("prob") && o.geti("prob", 0) == (i64)i) used = true; if (used || i + 1 != p.probs.size()) continue; Plan q = p; q.probs.pop_back(); any |= attempt(q); }
    }
    p.note = ""; spit(argv[5], plan_text(p)); say("minimised after " + std::to_string(tried) + " candidate runs\n");
    return 0;
}
int main(int argc, char **argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !std::getenv("ECOSIM_NOASLR")) {
        int o = personality(0xffffffff); if (personality(o | ADDR_NO_RANDOMIZE) != -1) { setenv("ECOSIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
    }
    if (argc < 2) { say("usage: sim gen|run|replay|minimise|calib ...\n"); return 2; }
    std::string c = argv[1];
    if (c == "gen" && argc >= 4) { Plan p; gen_plan(argv[2], strtoull(argv[3], 0, 10), p); say(plan_text(p)); return 0; }
    if (c == "run" && argc >= 9) return cmd_run(argc, argv);
    if (c == "replay" && argc >= 3) return cmd_replay(argc, argv);
    if (c == "minimise" && argc >= 6) return cmd_minimise(argc, argv);
    if (c == "calib" && argc >= 5) { u64 s0 = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10); for (u64 s = s0; s < s0 + n; s++) { Plan p; gen_plan(argv[2], s, p); RunStat st; run_check(p, st); } char b[100]; for (int i = 0; i < 24; i++) { snprintf(b, sizeof b, "%d %.4g\n", i, calib_table()[i]); say(b); } return 0; }
    return 2;
}
