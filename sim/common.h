// Shared types of the ECOS deterministic simulator.  Everything in here is
// independent of the index type the library was compiled with.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>

typedef int64_t i64;
typedef uint64_t u64;
typedef long double ld;

// ---------------------------------------------------------------- PRNG
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    i64 range(i64 a, i64 b) { if (b <= a) return a; return a + (i64)(next() % (u64)(b - a + 1)); } // inclusive
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
    double signedmag(double a, double b) { double v = uni(a, b); return chance(0.5) ? v : -v; }
    double gauss() { double u = 0; for (int i = 0; i < 6; i++) u += unit(); return (u - 3.0) * 1.41421356; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};
static inline u64 mix64(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
static inline u64 dbits(double d) { u64 u; memcpy(&u, &d, 8); return u; }

// ---------------------------------------------------------------- problems
#define MAXSLOT 8 // workspaces of one client thread
struct ProbSpec {
    std::string kind = "opt"; // opt pinf dinf weak mip
    u64 seed = 1;
    int n = 3, p = 0, l = 3, e = 0;
    std::vector<int> q;
    int dens = 60;    // percent
    int scale = 0;    // tenths of a decade of row/column scaling
    int pm = 0, dm = 0; // tenths of a decade by which the primal (h, b) and the dual (c) data are larger
    int lat = 0;      // bit 0: small integer matrices, bit 1: feasible points on the boundary too, bit 2: an equality twice, bit 3: no objective
    int nf = 0;       // mixed-integer: so many booleans more, each with a cost and nothing else
    int var = 0;      // same structure (sparsity pattern), different numbers
    // mip
    int nb = 0, ni = 0, nc = 0, rng = 3, ncon = 2, opt = 0;
};

struct Problem {
    i64 n = 0, m = 0, p = 0, l = 0, ncones = 0, nex = 0;
    std::vector<i64> q;
    std::vector<double> Gpr, Apr, c, h, b;
    std::vector<i64> Gjc, Gir, Ajc, Air;
    bool hasA = false;
    int unb = 0;   // mixed-integer: a continuous variable falls without limit, so feasible means unbounded
    int truth = 0; // 1 = optimum exists (strictly feasible both sides), 2 = primal infeasible, 3 = unbounded, 4 = feasible + bounded (weak), 0 unknown
    // mip
    std::vector<i64> boolv, intv;
    bool mip = false;
    // exact description used by the MIP reference
    struct Lin { std::vector<int> a; double rhs; };            // a'xi <= rhs over integer vars (bools first, then ints)
    struct Soc { std::vector<std::vector<int>> F; std::vector<int> g; double r; };
    struct Epi { int type; int col; double cost; std::vector<std::vector<int>> a; std::vector<double> b; }; // 0 max-affine, 1 norm, 2 exp(first), 3 equality (t = a'x+b), 4 interval (a0'x+b0 <= t <= a1'x+b1)
    std::vector<Lin> lins, eqs; std::vector<Soc> socs; std::vector<Epi> epis;
    std::vector<double> icost; std::vector<int> ilo, ihi;
    std::vector<char> fre; // an integer variable in no row and no other cost: its best value is known
    // h index (user numbering) of each Lin row, for updates
    std::vector<int> linrow; std::vector<int> lorow, hirow;
};

struct MipRef { bool feasible = false; double best = 0; i64 npoints = 0, nfeas = 0; double second = 1e300; };

Problem make_problem(const ProbSpec &s);
void apply_patch(Problem &P, const std::string &patch); // "h3:1.25,c0:-2"
MipRef mip_reference(const Problem &P);
bool mip_point_ok(const Problem &P, const std::vector<int> &xi, double *obj); // exact

// ---------------------------------------------------------------- plans
struct Env {
    int fill = 0;        // 0: zeros, 1: 0xFF, 2: random bytes, 3: plausible doubles, 4: 0x7f
    u64 fseed = 1;
    int gap = 0;         // extra space between blocks (seeded up to gap*16 bytes)
    int zero = 0;        // malloc(0): 0 -> non-NULL, 1 -> NULL
    int reuse = 0;       // LIFO reuse of freed blocks
    i64 base = 1000000000ll;  // monotonic clock at start (ns)
    i64 tick = 7;        // ns per basic block
    i64 read = 40;       // ns per clock read
    u64 rnd = 1;         // rand() stream
    int out = 0;         // stdout: 0 ok, 1 fails, 2 slow, 3 flaky
    int sig = 0;         // initial SIGINT disposition 0 DFL 1 IGN 2 app handler
};
struct Op {
    std::string kind;
    std::map<std::string, std::string> a;
    i64 geti(const char *k, i64 d) const { auto it = a.find(k); return it == a.end() ? d : strtoll(it->second.c_str(), 0, 0); }
    double getd(const char *k, double d) const { auto it = a.find(k); return it == a.end() ? d : strtod(it->second.c_str(), 0); }
    std::string gets(const char *k, const char *d) const { auto it = a.find(k); return it == a.end() ? std::string(d) : it->second; }
};
struct Fault {
    std::string kind;      // sigint kktfail kktpert kktnan amdoom oom clockjump
    int task = 0, op = 0;
    i64 tick = -1;         // fires at this local tick of the op
    i64 sys = -1;          // or at the sys-th intercepted call of the op (before it)
    i64 nth = -1;          // or at the nth call of the faulted function in the op
    double mag = 0; u64 seed = 0; i64 delta = 0; i64 cnt = 1;
};
struct Plan {
    std::string check = "C00";
    u64 seed = 0;
    std::string note;
    Env env;
    std::vector<ProbSpec> probs;
    std::vector<std::vector<Op>> tasks;
    std::vector<std::pair<int, i64>> sched; // (task, quantum)
    std::vector<Fault> faults;
};
std::string plan_text(const Plan &p);
bool plan_parse(const std::string &txt, Plan &p, std::string &err);

// ---------------------------------------------------------------- histories
enum { IN_PCOST, IN_DCOST, IN_PRES, IN_DRES, IN_PINF, IN_DINF, IN_PINFRES, IN_DINFRES, IN_GAP, IN_RELGAP, IN_SIGMA, IN_MU, IN_STEP, IN_KAPOVERT, IN_TAU, IN_N };
struct Rec {
    i64 task = 0, op = 0, ret = 0, iter = 0;
    i64 t0 = 0, t1 = 0;          // simulated time
    i64 k0 = 0, k1 = 0;          // task-local ticks at begin and end
    i64 sigdelta = 0;            // 1 if the SIGINT disposition differs from the one before the op
    i64 netalloc = 0;            // library blocks alive after minus before
    i64 sysn = 0, nfact = 0, nsolv = 0; // intercepted calls, factorizations, solves in the op
    i64 nrel = 0, nbad = 0, ninacc = 0, nloose = 0; // relaxations solved inside a branch-and-bound solve; without a verdict; with a reduced-accuracy verdict; 'optimal' by the uncorrected gap test only
    i64 interrupts = 0;          // SIGINTs that reached a library handler during this op
    i64 int_iter = 0;            // info->iter (or -1) at the first of them
    i64 int_tick = 0;            // local tick of the first of them
    i64 int_bbiter = 0, int_fact = 0, nalloc = 0, namd = 0, appsig = 0;
    double gU = 0, gL = 0;
    i64 outbytes = 0; u64 outhash = 0;
    std::string text;            // what a verbose solve printed
    double tsetup = 0, tsolve = 0;
    std::vector<double> info;    // IN_N entries
    std::vector<double> x, y, s, z, x2, eq;
    std::vector<double> data;    // caller arrays snapshot (G,A,c,h,b)
    u64 idxhash = 0;             // hash of caller index arrays
    i64 idx_ok = 1;
    i64 twodiff = 0;             // after bsolve: bits x,y,s,z,info where the two copies the caller can read differ
};
struct History {
    bool crashed = false; int crash_sig = 0; int exitcode = 0;
    bool hang = false, killed = false;   // killed = SIGINT with default disposition
    bool cpu = false, asan = false;
    int last_task = -1, last_op = -1;
    i64 ticks = 0, simns = 0, switches = 0;
    u64 hash = 0, schedhash = 0, covhash = 0; i64 covcount = 0;
    i64 oomfired = 0, amdfired = 0;
    i64 appsig = 0, ignsig = 0, sigend = 0;
    int inlib = 0;
    struct Sig { i64 task, op, tick, iter, disp, bb, nf, ns, lib; };
    std::vector<Sig> sigs;
    std::vector<std::string> viol;       // in-run invariant violations (memory)
    std::map<std::string, i64> fired;    // fault kind -> times fired
    std::vector<Rec> recs;
    const Rec *find(int task, int op) const { for (auto &r : recs) if (r.task == task && r.op == op) return &r; return nullptr; }
};
struct ExecOpts { bool trace = false; i64 tickcap = 600000000ll; };
void exec_plan(const Plan &p, History &h, const ExecOpts &o = ExecOpts());
extern const char *sim_variant;
extern i64 g_tot_ticks, g_tot_simns, g_tot_execs, g_tot_switches;

// ---------------------------------------------------------------- checks
struct Viol { std::string cls, detail; };
struct RunStat {
    bool nontrivial = false;
    u64 hash = 0, schedhash = 0, covhash = 0;
    std::map<std::string, i64> fired, probes;
    std::vector<u64> covs;
};
bool check_exists(const std::string &id);
void gen_plan(const std::string &id, u64 seed, Plan &p);             // may execute clean baselines to place faults
std::vector<Viol> run_check(const Plan &p, RunStat &st);             // pure function of the plan
