// Workload generators and oracles, one pair per property.
//
// gen_plan(id, seed)  : one integer decides the whole run (problems, operation
//                       history, settings, environment, schedule, faults).
// run_check(plan)     : executes the plan (and, where the oracle needs them,
//                       comparison runs derived from the plan alone) and
//                       returns the violations.  Pure function of the plan and
//                       the library code.
#include "common.h"
#include <cstdarg>

typedef std::vector<Viol> Viols;
static std::string S(const char *f, ...) { char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static void add(Viols &v, const std::string &cls, const std::string &d) { for (auto &x : v) if (x.cls == cls) return; v.push_back({cls, d}); }
static std::string fmtd(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
typedef std::map<std::string, std::string> KV;
static Op mk(const std::string &k, KV a = {}) { Op o; o.kind = k; o.a = a; return o; }
static std::string I(i64 v) { return std::to_string(v); }

enum { OPTIMAL = 0, PINF = 1, DINF = 2, INACC = 10, MAXIT = -1, NUMERICS = -2, OUTCONE = -3, SIGINTX = -4, FATAL = -7, SETUPFAIL = -1000, NA = -9999 };
enum { MI_OPT = 0, MI_INF = 1, MI_UNB = 2, MI_MAXFEAS = 10, MI_MAXNO = 11, MI_MAXUNB = 12 };
static bool is_opt(i64 r) { return r == OPTIMAL || r == OPTIMAL + INACC; }
static bool is_pinf(i64 r) { return r == PINF || r == PINF + INACC; }
static bool is_dinf(i64 r) { return r == DINF || r == DINF + INACC; }
static bool is_verdict(i64 r) { return is_opt(r) || is_pinf(r) || is_dinf(r); }

// ---------------------------------------------------------------- execution
static RunStat *g_st;
static void exec(const Plan &p, History &h, i64 cap = 0) {
    ExecOpts o; bool bb = false; for (auto &t : p.tasks) for (auto &op : t) if (op.kind[0] == 'b') bb = true;
    o.tickcap = cap ? cap : bb ? 8000000000ll : 60000000ll;
    if (SIM_FINE) o.tickcap = bb ? 6000000000ll : 600000000ll; // a tick there is a memory access
    exec_plan(p, h, o);
    if (g_st) {
        g_st->hash = mix64(g_st->hash, h.hash);
        for (auto &kv : h.fired) g_st->fired[kv.first] += kv.second;
        g_st->covs.push_back(h.covhash);
    }
}
static void probe(const std::string &n, i64 k = 1) { if (g_st) g_st->probes[n] += k; }
// crash, hang, memory violations: reported by whichever check sees them
static bool basic(const Plan &p, const History &h, Viols &v, bool mem = false) {
    if (h.crashed) {
        std::string op = h.last_task >= 0 && h.last_task < (int)p.tasks.size() && h.last_op >= 0 && h.last_op < (int)p.tasks[h.last_task].size() ? p.tasks[h.last_task][h.last_op].kind : "?";
        if (h.oomfired) add(v, "crash-oom", "crash in " + op + " after a failed allocation outside the ordering package");
        else add(v, h.asan ? "asan" : "crash", S("%s in operation %d.%d (%s)", h.asan ? "memory error" : S("signal %d", h.crash_sig).c_str(), h.last_task, h.last_op, op.c_str()));
        return false;
    }
    if (h.hang) { add(v, "hang", S("operation %d.%d did not return within the step cap", h.last_task, h.last_op)); return false; }
    for (auto &s : h.viol) if (mem || s.compare(0, 5, "leak:") != 0) { std::string c = s.substr(0, s.find(':')); if (c == "plan") continue; if (h.oomfired && c == "leak") c = "leak-oom"; add(v, c, s); }
    return true;
}

// ---------------------------------------------------------------- model of a client's workspaces
struct Model { bool live = false, bb = false; int prob = -1; std::map<std::string, std::string> patch; KV set, bset; i64 solves = 0; };
static std::string patch_text(const Model &m) { std::string o; for (auto &kv : m.patch) o += (o.empty() ? "" : ",") + kv.first + ":" + kv.second; return o; }
static Problem model_problem(const Plan &p, const Model &m) { Problem P = make_problem(p.probs[m.prob]); apply_patch(P, patch_text(m)); return P; }
// truth of the data in force: generator's truth, unless entries were changed in a way that may affect it
static int model_truth(const Plan &p, const Model &m, const Problem &orig) {
    for (auto &kv : m.patch) {
        int i = atoi(kv.first.c_str() + 1); double v = atof(kv.second.c_str());
        if (kv.first[0] == 'h') { if (v == orig.h[i]) continue; if (orig.truth == 1 && i < orig.l && v > orig.h[i]) continue; return 0; }
        if (v != orig.c[i]) return 0;
    }
    return orig.truth;
}
typedef std::function<void(const Op &, int task, int opi, const Rec &, const Model &before, const Model &after)> WalkF;
static void walk(const Plan &p, const History &h, WalkF f) {
    for (size_t t = 0; t < p.tasks.size(); t++) {
        std::map<i64, Model> ms;
        for (size_t i = 0; i < p.tasks[t].size(); i++) {
            const Op &op = p.tasks[t][i]; const Rec *r = h.find((int)t, (int)i);
            if (!r) return;
            Model &m = ms[op.geti("w", 0) % MAXSLOT]; Model b = m;
            if (r->ret != NA) {
                if (op.kind == "setup" || op.kind == "bsetup") {
                    m = Model(); m.live = r->ret == 0; m.bb = op.kind == "bsetup"; m.prob = (int)op.geti("prob", 0);
                    std::string pt = op.gets("patch", ""); size_t q = 0; while (q < pt.size()) { size_t e = pt.find(',', q); if (e == std::string::npos) e = pt.size(); std::string it = pt.substr(q, e - q); size_t c = it.find(':'); if (c != std::string::npos) m.patch[it.substr(0, c)] = it.substr(c + 1); q = e + 1; }
                    if (m.bb) for (auto &kv : op.a) if (kv.first != "prob" && kv.first != "w" && kv.first != "patch") m.bset[kv.first] = kv.second;
                }
                else if (op.kind == "set") { for (auto &kv : op.a) if (kv.first != "w") m.set[kv.first] = kv.second; }
                else if (op.kind == "bset") { for (auto &kv : op.a) if (kv.first != "w") m.bset[kv.first] = kv.second; }
                else if (op.kind == "upd") { m.prob = (int)op.geti("prob", 0); m.patch.clear(); }
                else if (op.kind == "updh" || op.kind == "bupdh") m.patch["h" + I(op.geti("i", 0))] = op.geti("raw", 0) && r->x.size() ? fmtd(r->x[0]) : op.gets("v", "0");
                else if (op.kind == "updc" || op.kind == "bupdc") m.patch["c" + I(op.geti("i", 0))] = op.geti("raw", 0) && r->x.size() ? fmtd(r->x[0]) : op.gets("v", "0");
                else if (op.kind == "cleanup" || op.kind == "bcleanup") m = Model();
            }
            f(op, (int)t, (int)i, *r, b, m);
            if (op.kind == "solve" || op.kind == "bsolve") m.solves++;
        }
    }
}
static double setd(const Model &m, const char *k, double d) { auto it = m.set.find(k); return it == m.set.end() ? d : atof(it->second.c_str()); }

// a fresh workspace with the same data and settings, solved once, no faults
static Plan fresh_plan(const Plan &p, const Model &m, int pert) {
    Plan q; q.check = p.check; q.probs = p.probs; q.env.rnd = p.env.rnd; q.env.sig = 2; q.tasks.resize(1);
    if (m.bb) {
        KV a = m.bset; a["prob"] = I(m.prob); if (!m.patch.empty()) a["patch"] = patch_text(m); if (!a.count("verbose")) a["verbose"] = "0";
        q.tasks[0].push_back(mk("bsetup", a)); if (!m.set.empty()) q.tasks[0].push_back(mk("set", m.set)); q.tasks[0].push_back(mk("bsolve")); q.tasks[0].push_back(mk("bcleanup"));
    } else {
        KV a; a["prob"] = I(m.prob); if (!m.patch.empty()) a["patch"] = patch_text(m); if (pert) a["pert"] = I(pert);
        q.tasks[0].push_back(mk("setup", a)); if (!m.set.empty()) { KV s = m.set; s["verbose"] = "0"; q.tasks[0].push_back(mk("set", s)); } q.tasks[0].push_back(mk("solve")); q.tasks[0].push_back(mk("cleanup"));
    }
    return q;
}
static const Rec *solve_rec(const Plan &q, const History &h) { for (size_t i = 0; i < q.tasks[0].size(); i++) if (q.tasks[0][i].kind == "solve" || q.tasks[0][i].kind == "bsolve") return h.find(0, (int)i); return nullptr; }

// compare a solve with what a fresh workspace gives.  Data are equal only up
// to rounding, so the comparison is made only where the fresh result itself
// does not change under rounding-level perturbations of the data.
static void compare_fresh(const Plan &p, const Model &m, const Rec &r, Viols &v, const std::string &cls) {
    std::vector<Rec> fr;
    for (int k = 0; k < 5; k++) {
        Plan q = fresh_plan(p, m, k); History h; exec(q, h);
        if (!basic(q, h, v)) return;
        const Rec *s = solve_rec(q, h); if (!s || s->ret == NA) return;
        fr.push_back(*s);
        if (k == 0 && s->ret == r.ret && (r.ret != OPTIMAL || fabs(s->info[IN_PCOST] - r.info[IN_PCOST]) <= 1e-6 * (1 + fabs(r.info[IN_PCOST])))) { probe("fresh_equal"); return; }
    }
    for (auto &f : fr) if (f.ret != fr[0].ret) { probe("fresh_unstable"); return; }
    double lo = 1e300, hi = -1e300; for (auto &f : fr) { lo = std::min(lo, f.info[IN_PCOST]); hi = std::max(hi, f.info[IN_PCOST]); }
    if (r.ret != fr[0].ret) { add(v, cls + "-code", S("solve %lld.%lld returned %lld, a fresh workspace with the same data and settings returns %lld", (long long)r.task, (long long)r.op, (long long)r.ret, (long long)fr[0].ret)); return; }
    if (is_opt(r.ret)) {
        double tol = (r.ret == OPTIMAL ? 1e-5 : 2e-2) * (1 + fabs(lo)) + 3 * (hi - lo) + 100 * setd(m, "abstol", 1e-8) + 100 * setd(m, "reltol", 1e-8) * fabs(lo) + 1000 * setd(m, "feastol", 1e-8) * (1 + fabs(lo));
        if (!(fabs(r.info[IN_PCOST] - fr[0].info[IN_PCOST]) <= tol)) add(v, cls + "-cost", S("solve %lld.%lld reports cost %.10g, a fresh workspace %.10g", (long long)r.task, (long long)r.op, r.info[IN_PCOST], fr[0].info[IN_PCOST]));
        else probe("fresh_close");
    }
}

// ---------------------------------------------------------------- facts about a returned point, from the caller's data
struct Ev { double rp_eq = 0, rp_in = 0, rd = 0, cx = 0, hz = 0, by = 0, sz = 0, nx = 0, ny = 0, nz = 0, ns = 0, Atz = 0, Gxs = 0, Ax = 0, sviol = 0, zviol = 0, nb = 0, nh = 0, nc = 0; bool nan = false, nanp = false, nand = false; };
static double nrm(const std::vector<ld> &v) { ld s = 0; for (ld d : v) s += d * d; return (double)sqrtl(s); }
static double nrmd(const std::vector<double> &v) { ld s = 0; for (double d : v) s += (ld)d * d; return (double)sqrtl(s); }
// violation of cone membership, relative to the size of the cone's entries
static double cone_viol(const Problem &P, const std::vector<double> &u, bool dual) {
    double w = 0; i64 k = 0;
    for (i64 i = 0; i < P.l; i++, k++) w = std::max(w, -u[k] / (1 + fabs(u[k])));
    for (i64 qi : P.q) { ld t = 0; for (i64 i = 1; i < qi; i++) t += (ld)u[k + i] * u[k + i]; double nn = (double)sqrtl(t); w = std::max(w, (nn - u[k]) / (1 + nn)); k += qi; }
    for (i64 e = 0; e < P.nex; e++, k += 3) {
        double a = u[k], b = u[k + 1], c = u[k + 2], sc = 1 + fabs(a) + fabs(b) + fabs(c), d;
        if (!dual) { if (b <= 0 || c <= 0) d = std::max(-b, -c) / sc + 1e-300; else d = (a - c * log(b / c)) / sc; if (b <= 0 || c <= 0) d = std::max(d, (std::max(-b, -c) > 0 ? d : 0.0)); }
        else { if (a >= 0 || b <= 0) d = std::max(a, -b) / sc; else d = (a + a * log(-b / a) - c) / sc; }
        w = std::max(w, d);
    }
    return w;
}
static Ev evaluate(const Problem &P, const Rec &r) {
    Ev e; std::vector<ld> rd(P.n), ri(P.m), rq(P.p), atz(P.n), gx(P.m), ax(P.p);
    for (auto *v : {&r.x, &r.s}) for (double d : *v) if (!std::isfinite(d)) e.nan = e.nanp = true;
    for (auto *v : {&r.y, &r.z}) for (double d : *v) if (!std::isfinite(d)) e.nan = e.nand = true;
    for (i64 j = 0; j < P.n; j++) {
        for (i64 k = P.Gjc[j]; k < P.Gjc[j + 1]; k++) { gx[P.Gir[k]] += (ld)P.Gpr[k] * r.x[j]; atz[j] += (ld)P.Gpr[k] * r.z[P.Gir[k]]; }
        if (P.hasA) for (i64 k = P.Ajc[j]; k < P.Ajc[j + 1]; k++) { ax[P.Air[k]] += (ld)P.Apr[k] * r.x[j]; atz[j] += (ld)P.Apr[k] * r.y[P.Air[k]]; }
        rd[j] = atz[j] + P.c[j]; 
    }
    ld cx = 0, hz = 0, by = 0, sz = 0;
    for (i64 j = 0; j < P.n; j++) cx += (ld)P.c[j] * r.x[j];
    for (i64 i = 0; i < P.m; i++) { ri[i] = gx[i] + r.s[i] - P.h[i]; gx[i] += r.s[i]; hz += (ld)P.h[i] * r.z[i]; sz += (ld)r.s[i] * r.z[i]; }
    for (i64 i = 0; i < P.p; i++) { rq[i] = ax[i] - P.b[i]; by += (ld)P.b[i] * r.y[i]; }
    e.rp_eq = nrm(rq); e.rp_in = nrm(ri); e.rd = nrm(rd); e.cx = (double)cx; e.hz = (double)hz; e.by = (double)by; e.sz = (double)sz;
    e.nx = nrmd(r.x); e.ny = nrmd(r.y); e.nz = nrmd(r.z); e.ns = nrmd(r.s); e.Atz = nrm(atz); e.Gxs = nrm(gx); e.Ax = nrm(ax);
    e.nb = P.p ? nrmd(P.b) : 0; e.nh = nrmd(P.h); e.nc = nrmd(P.c);
    e.sviol = cone_viol(P, r.s, false); e.zviol = cone_viol(P, r.z, true);
    return e;
}
static double spread(const ProbSpec &s) { return pow(10.0, 2.0 * s.scale / 10.0) * (s.n > 12 ? 4 : 1); } // equilibration may scale rows by this much more
static double g_calib[24]; // largest observed ratios (for calibration runs)
static void calib(int i, double v) { if (v > g_calib[i]) g_calib[i] = v; }
double *calib_table() { return g_calib; }

static const double F_RES = 12, F_GAP = 4, F_CERT = 20;
static void oracle_optimal(const Plan &p, const Model &m, const Problem &P, const Rec &r, Viols &v) {
    if (!is_opt(r.ret)) return;
    bool in = r.ret != OPTIMAL;
    double ft = in ? setd(m, "feastol_inacc", 1e-4) : setd(m, "feastol", 1e-8), at = in ? setd(m, "abstol_inacc", 5e-5) : setd(m, "abstol", 1e-8), rt = in ? setd(m, "reltol_inacc", 5e-5) : setd(m, "reltol", 1e-8);
    Ev e = evaluate(P, r); double sp = spread(p.probs[m.prob]);
    std::string at_ = S("solve %lld.%lld (code %lld)", (long long)r.task, (long long)r.op, (long long)r.ret);
    probe(in ? "optimal_inacc_checked" : "optimal_checked");
    if (e.nan) { add(v, "opt-nan", at_ + ": optimal with non-finite entries"); return; }
    double tau = std::max(1.0, r.info[IN_TAU]), floor_ = 1e-11 * (1 + e.nx + e.ns + e.nh + e.nb);
    double bp = ft * (1 + e.nb + tau * e.nx), bi = ft * (1 + e.nh + tau * (e.nx + e.ns)), bd = ft * (1 + e.nc + tau * (e.ny + e.nz));
    calib(0, (e.rp_eq - floor_) / (bp * sp)); calib(1, (e.rp_in - floor_) / (bi * sp)); calib(2, (e.rd - 1e-11 * (1 + e.nz + e.ny + e.nc)) / (bd * sp));
    if (!(e.rp_eq <= F_RES * sp * bp + floor_)) add(v, "opt-eq", at_ + S(": ||Ax-b|| = %.3g, tolerance %.3g", e.rp_eq, bp));
    if (!(e.rp_in <= F_RES * sp * bi + floor_)) add(v, "opt-ineq", at_ + S(": ||Gx+s-h|| = %.3g, tolerance %.3g", e.rp_in, bi));
    if (!(e.rd <= F_RES * sp * bd + 1e-11 * (1 + e.nz + e.ny + e.nc))) add(v, "opt-dual", at_ + S(": ||A'y+G'z+c|| = %.3g, tolerance %.3g", e.rd, bd));
    double gb = std::max(at / std::min(1.0, r.info[IN_TAU] * r.info[IN_TAU]), rt * std::max(fabs(e.cx), fabs(e.hz + e.by)) / std::min(1.0, r.info[IN_TAU] * r.info[IN_TAU]));
    calib(3, e.sz / gb); calib(in ? 15 : 4, e.sz / std::max(at, rt * std::max(fabs(e.cx), fabs(e.hz + e.by))));
    if (!(e.sz <= F_GAP * gb + 1e-12)) add(v, "opt-gap", at_ + S(": s'z = %.3g, tolerance %.3g", e.sz, gb));
    else if (p.check == "C01") { // the gap in the caller's units
        double gs = std::max(at, rt * std::max(fabs(e.cx), fabs(e.hz + e.by)));
        if (!(e.sz <= F_GAP * gs + 1e-12)) add(v, "opt-gap-tau", at_ + S(": s'z = %.3g, tolerance %.3g, but within it times tau^2 (tau = %.3g)", e.sz, gs, r.info[IN_TAU]));
    }
    calib(5, e.sviol); calib(6, e.zviol);
    if (!(e.sviol <= 1e-8)) add(v, "opt-scone", at_ + S(": s outside its cone by %.3g", e.sviol));
    if (!(e.zviol <= 1e-8)) add(v, "opt-zcone", at_ + S(": z outside its dual cone by %.3g", e.zviol));
    // weak duality ties the two costs together: c'x + h'z + b'y = s'z + residual terms
    double slack = e.nx * e.rd + e.nz * e.rp_in + e.ny * e.rp_eq, d = fabs(e.cx + e.hz + e.by);
    if (!(d <= e.sz + slack + 1e-9 * (1 + fabs(e.cx)) * sp)) add(v, "opt-duality", at_ + S(": costs differ by %.3g", d));
    int tr = model_truth(p, m, make_problem(p.probs[m.prob]));
    if (tr == 2 || tr == 3) add(v, "opt-truth", at_ + (tr == 2 ? ": optimal on a primal infeasible problem" : ": optimal on an unbounded problem"));
}
static void oracle_infeasible(const Plan &p, const Model &m, const Problem &P, const Rec &r, Viols &v) {
    if (!is_pinf(r.ret) && !is_dinf(r.ret)) return;
    bool in = r.ret >= INACC; Ev e = evaluate(P, r); double sp = spread(p.probs[m.prob]);
    double ft = in ? setd(m, "feastol_inacc", 1e-4) : setd(m, "feastol", 1e-8), tau = r.info[IN_TAU];
    std::string at_ = S("solve %lld.%lld (code %lld)", (long long)r.task, (long long)r.op, (long long)r.ret);
    int tr = model_truth(p, m, make_problem(p.probs[m.prob]));
    probe(is_pinf(r.ret) ? (in ? "pinf_inacc_checked" : "pinf_checked") : (in ? "dinf_inacc_checked" : "dinf_checked"));
    if (is_pinf(r.ret) ? e.nand : e.nanp) { add(v, "cert-nan", at_ + ": certificate with non-finite entries"); return; }
    if (is_pinf(r.ret)) {
        double sc = std::max(e.ny + e.nz, 1 / tau), imp = -(e.hz + e.by);
        calib(7, e.Atz / (ft * sc * sp)); calib(9, e.zviol);
        calib(11, e.Atz / imp);
        if (!(e.Atz <= F_CERT * sp * ft * sc + 1e-11 * sc)) add(v, "cert-pinf-res", at_ + S(": ||A'y+G'z|| = %.3g, tolerance %.3g", e.Atz, ft * sc));
        if (!(imp > 0)) add(v, "cert-pinf-sign", at_ + S(": h'z+b'y = %.3g is not negative", -imp));
        if (!(e.zviol <= 1e-8)) add(v, "cert-pinf-cone", at_ + S(": z outside its dual cone by %.3g", e.zviol));
        if (tr == 1) add(v, "cert-truth", at_ + ": infeasible verdict on a strictly feasible problem");
        if (tr == 3 || tr == 4) add(v, "cert-truth", at_ + ": primal infeasible verdict on a feasible problem");
    } else {
        double sc1 = std::max(e.nx, 1 / tau), sc2 = std::max(e.nx + e.ns, 1 / tau), imp = -e.cx;
        calib(8, std::max(e.Ax / (ft * sc1 * sp), e.Gxs / (ft * sc2 * sp))); calib(10, e.sviol); calib(12, std::max(e.Ax, e.Gxs) / imp);
        if (!(e.Ax <= F_CERT * sp * ft * sc1 + 1e-11 * sc1) || !(e.Gxs <= F_CERT * sp * ft * sc2 + 1e-11 * sc2)) add(v, "cert-dinf-res", at_ + S(": ||Ax|| = %.3g ||Gx+s|| = %.3g, tolerance %.3g", e.Ax, e.Gxs, ft * sc2));
        if (!(imp > 0)) add(v, "cert-dinf-sign", at_ + S(": c'x = %.3g is not negative", e.cx));
        if (!(e.sviol <= 1e-8)) add(v, "cert-dinf-cone", at_ + S(": s outside its cone by %.3g", e.sviol));
        if (tr == 1 || tr == 4) add(v, "cert-truth", at_ + ": unbounded verdict on a bounded feasible problem");
        if (tr == 2) add(v, "cert-truth", at_ + ": dual infeasible verdict on a problem with a strictly feasible dual");
    }
}
static bool near_(double a, double b, double rel, double abs_) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (std::isinf(a) || std::isinf(b)) return a == b; return fabs(a - b) <= rel * std::max(fabs(a), fabs(b)) + abs_; }
// the statistics reported with a returned point are those of that point
static void oracle_stats(const Plan &p, const Model &m, const Problem &P, const Rec &r, Viols &v) {
    if (r.ret == FATAL) return;
    std::string at_ = S("solve %lld.%lld (code %lld, iteration %lld)", (long long)r.task, (long long)r.op, (long long)r.ret, (long long)r.iter);
    i64 wp = is_pinf(r.ret), wd = is_dinf(r.ret);
    if ((r.info[IN_PINF] != 0) != (wp != 0) || (r.info[IN_DINF] != 0) != (wd != 0)) add(v, "stat-flags", at_ + S(": pinf=%g dinf=%g", r.info[IN_PINF], r.info[IN_DINF]));
    Ev e = evaluate(P, r); double tau = r.info[IN_TAU];
    if (e.nan) { probe("stat_nan_point"); if (is_verdict(r.ret) && !(wp && !e.nand) && !(wd && !e.nanp)) add(v, "stat-nan", at_ + ": verdict with a non-finite point"); return; }
    probe("stat_checked"); if (!is_verdict(r.ret)) probe("stat_nonverdict_checked");
    double sp = spread(p.probs[m.prob]);
    double acx = 0; for (i64 j = 0; j < P.n; j++) acx += fabs(P.c[j] * r.x[j]);
    double ad = 0; for (i64 i = 0; i < P.m; i++) ad += fabs(P.h[i] * r.z[i]); for (i64 i = 0; i < P.p; i++) ad += fabs(P.b[i] * r.y[i]);
    if (!near_(r.info[IN_PCOST], e.cx, 1e-9, 1e-9 * acx + 1e-300)) add(v, "stat-pcost", at_ + S(": reported primal cost %.10g, c'x = %.10g", r.info[IN_PCOST], e.cx));
    if (!near_(r.info[IN_DCOST], -(e.hz + e.by), 1e-9, 1e-9 * ad + 1e-300)) add(v, "stat-dcost", at_ + S(": reported dual cost %.10g, -h'z-b'y = %.10g", r.info[IN_DCOST], -(e.hz + e.by)));
    double asz = 0; for (i64 i = 0; i < P.m; i++) asz += fabs(r.s[i] * r.z[i]);
    if (!near_(r.info[IN_GAP], tau * tau * e.sz, 1e-8, 1e-10 * tau * tau * asz + 1e-300)) add(v, "stat-gap", at_ + S(": reported gap %.10g, s'z = %.10g (tau %.3g)", r.info[IN_GAP], tau * tau * e.sz, tau));
    // relative gap, as documented: gap over the cost that bounds the optimum away from zero
    double rg = r.info[IN_PCOST] < 0 ? r.info[IN_GAP] / -r.info[IN_PCOST] : r.info[IN_DCOST] > 0 ? r.info[IN_GAP] / r.info[IN_DCOST] : NAN;
    if (!near_(r.info[IN_RELGAP], rg, 1e-9, 1e-300)) add(v, "stat-relgap", at_ + S(": reported relative gap %.10g, gap/cost = %.10g", r.info[IN_RELGAP], rg));
    // residuals, in the scaled variables the solver measures them in
    if ((i64)r.eq.size() == P.n + P.p + P.m) {
        const double *xe = r.eq.data(), *ae = xe + P.n, *ge = ae + P.p;
        std::vector<ld> rx(P.n), ry(P.p), rz(P.m), sx(P.n), sy(P.p), sz(P.m), ss(P.m), b(P.p), hh(P.m), c(P.n);
        ld mag = 0;
        for (i64 j = 0; j < P.n; j++) { sx[j] = (ld)r.x[j] * xe[j] * tau; c[j] = (ld)P.c[j] / xe[j]; rx[j] = c[j] * tau; }
        for (i64 i = 0; i < P.p; i++) { sy[i] = (ld)r.y[i] * ae[i] * tau; b[i] = (ld)P.b[i] / ae[i]; ry[i] = -b[i] * tau; }
        for (i64 i = 0; i < P.m; i++) { sz[i] = (ld)r.z[i] * ge[i] * tau; ss[i] = (ld)r.s[i] / ge[i] * tau; hh[i] = (ld)P.h[i] / ge[i]; rz[i] = ss[i] - hh[i] * tau; }
        for (i64 j = 0; j < P.n; j++) {
            for (i64 k = P.Gjc[j]; k < P.Gjc[j + 1]; k++) { i64 i = P.Gir[k]; ld g = (ld)P.Gpr[k] / ge[i] / xe[j]; rz[i] += g * sx[j]; rx[j] += g * sz[i]; mag = std::max(mag, fabsl(g)); }
            if (P.hasA) for (i64 k = P.Ajc[j]; k < P.Ajc[j + 1]; k++) { i64 i = P.Air[k]; ld a = (ld)P.Apr[k] / ae[i] / xe[j]; ry[i] += a * sx[j]; rx[j] += a * sy[i]; mag = std::max(mag, fabsl(a)); }
        }
        double nx = nrm(sx), ny = nrm(sy), nz = nrm(sz), ns = nrm(ss);
        double py = P.p ? nrm(ry) / std::max(std::max(1.0, nrm(b)) + nx, 1.0) : 0, pz = nrm(rz) / std::max(std::max(1.0, nrm(hh)) + nx + ns, 1.0);
        double pres = std::max(py, pz) / tau, dres = nrm(rx) / std::max(std::max(1.0, nrm(c)) + ny + nz, 1.0) / tau;
        double eps = 1e-13 * (1 + (double)mag) * (P.n + P.m) / std::min(1.0, tau);
        calib(13, fabs(pres - r.info[IN_PRES]) / (1e-6 * pres + eps)); calib(14, fabs(dres - r.info[IN_DRES]) / (1e-6 * dres + eps));
        if (!near_(r.info[IN_PRES], pres, 1e-4, 10 * eps)) add(v, "stat-pres", at_ + S(": reported primal residual %.6g, actual %.6g", r.info[IN_PRES], pres));
        if (!near_(r.info[IN_DRES], dres, 1e-4, 10 * eps)) add(v, "stat-dres", at_ + S(": reported dual residual %.6g, actual %.6g", r.info[IN_DRES], dres));
        // infeasibility residuals: either absent, or those of the point, which then improves the objective
        ld cx = 0, hb = 0, acx2 = 0, ahb = 0;
        for (i64 j = 0; j < P.n; j++) rx[j] -= c[j] * tau, cx += c[j] * sx[j], acx2 += fabsl(c[j] * sx[j]);
        for (i64 i = 0; i < P.p; i++) ry[i] += b[i] * tau, hb += b[i] * sy[i], ahb += fabsl(b[i] * sy[i]);
        for (i64 i = 0; i < P.m; i++) rz[i] += hh[i] * tau, hb += hh[i] * sz[i], ahb += fabsl(hh[i] * sz[i]);
        double fl = 1e-13 * (1 + (double)mag) * (P.n + P.m);
        if (fabs(r.info[IN_PINFRES]) < 1e18) {
            probe("stat_pinfres"); double a = nrm(rx) / std::max(ny + nz, 1.0);
            calib(18, fabs(a - r.info[IN_PINFRES]) / (1e-6 * a + fl));
            if (!near_(r.info[IN_PINFRES], a, 1e-4, 10 * fl)) add(v, "stat-pinfres", at_ + S(": reported primal infeasibility residual %.6g, actual %.6g", r.info[IN_PINFRES], a));
            if (!(hb < 1e-12 * ahb)) add(v, "stat-pinfres", at_ + S(": primal infeasibility residual reported although h'z+b'y = %.3g", (double)hb));
        }
        if (fabs(r.info[IN_DINFRES]) < 1e18) {
            probe("stat_dinfres"); double a = std::max((P.p ? nrm(ry) : 0) / std::max(nx, 1.0), nrm(rz) / std::max(nx + ns, 1.0));
            calib(19, fabs(a - r.info[IN_DINFRES]) / (1e-6 * a + fl));
            if (!near_(r.info[IN_DINFRES], a, 1e-4, 10 * fl)) add(v, "stat-dinfres", at_ + S(": reported dual infeasibility residual %.6g, actual %.6g", r.info[IN_DINFRES], a));
            if (!(cx < 1e-12 * acx2)) add(v, "stat-dinfres", at_ + S(": dual infeasibility residual reported although c'x = %.3g", (double)cx));
        }
        // complementarity: mu is the average over the degree of the cone of s'z and kappa tau
        double D = (double)(P.l + P.ncones + 3 * P.nex), mu = (r.info[IN_GAP] + r.info[IN_KAPOVERT] * tau * tau) / (D + 1);
        if (!near_(r.info[IN_MU], mu, 1e-8, 1e-300)) add(v, "stat-mu", at_ + S(": reported mu %.10g, (gap + kappa tau)/(D+1) = %.10g", r.info[IN_MU], mu));
        if (tau > 0 && !(r.info[IN_KAPOVERT] > 0)) add(v, "stat-kapovert", at_ + S(": kappa/tau = %g", r.info[IN_KAPOVERT]));
    }
    // order-of-magnitude test of the residuals in the caller's own units
    double up = std::max(e.rp_eq, e.rp_in), ud = e.rd;
    double bp = r.info[IN_PRES] * (1 + e.nb + e.nh + tau * (e.nx + e.ns)), bd = r.info[IN_DRES] * (1 + e.nc + tau * (e.ny + e.nz));
    if (!(up <= 1000 * sp * bp + 1e-10 * (1 + e.nx + e.ns + e.nh + e.nb))) add(v, "stat-pres-units", at_ + S(": reported primal residual %.3g, the point misses the constraints by %.3g", r.info[IN_PRES], up));
    if (!(ud <= 1000 * sp * bd + 1e-10 * (1 + e.nz + e.ny + e.nc))) add(v, "stat-dres-units", at_ + S(": reported dual residual %.3g, the point misses the dual equations by %.3g", r.info[IN_DRES], ud));
    if (r.ret != OUTCONE && tau > 0) {
        // a certificate is (y,z) or (x,s): the other half is only what the last step left
        if (!wp && !(e.sviol <= 1e-7)) add(v, "stat-scone", at_ + S(": s outside its cone by %.3g", e.sviol));
        if (!wd && !(e.zviol <= 1e-7)) add(v, "stat-zcone", at_ + S(": z outside its dual cone by %.3g", e.zviol));
    }
}

// ---------------------------------------------------------------- generators: problems
static ProbSpec cont_spec(Rng &r, const std::string &kind, int size = 1) {
    ProbSpec s; s.kind = kind; s.seed = 1 + r.next() % 1000000007ull;
    s.n = (int)r.range(1, 3 + 4 * size); s.l = (int)r.range(0, 2 + 4 * size);
    int nq = r.chance(0.55) ? (int)r.range(1, 2) : 0; for (int i = 0; i < nq; i++) s.q.push_back((int)r.range(1, 4));
    s.e = r.chance(0.3) ? (int)r.range(1, 2) : 0;
    s.p = r.chance(0.6) ? (int)r.range(0, std::min(3, s.n - 1)) : 0;
    s.dens = r.chance(0.4) ? 100 : (int)r.range(30, 95);
    int m = s.l + 3 * s.e; for (int q : s.q) m += q;
    if (m < s.n - s.p) s.l += (int)r.range(0, s.n); // keep most instances non-degenerate
    if (s.l + 3 * s.e == 0 && s.q.empty()) s.l = 1;
    if (r.chance(0.12)) s.scale = (int)r.range(2, 10);
    else if (r.chance(0.12)) { if (r.chance(0.7)) s.pm = (int)r.range(-15, 40); if (r.chance(0.7)) s.dm = (int)r.range(-15, 40); }
    if (r.chance(0.12)) { s.lat = 1 + 2 * (int)r.range(0, 7); if (r.chance(0.15)) s.lat &= ~1; }
    if (r.chance(0.012)) { // a large one, for whatever depends on size
        s.n = (int)r.range(15, 50); s.l = (int)r.range(s.n / 2, 2 * s.n); s.q.clear(); int k = (int)r.range(0, 5); while (k--) s.q.push_back(r.chance(0.3) ? (int)r.range(15, 40) : (int)r.range(1, 8));
        s.e = r.chance(0.25) ? (int)r.range(1, 6) : 0; s.p = (int)r.range(0, 10); s.dens = (int)r.range(8, 35); s.scale = 0;
    }
    if (kind == "opt" && r.chance(0.02)) { s.l = -1; s.q.clear(); s.e = 0; s.n = (int)r.range(1, 6); s.p = (int)r.range(1, s.n); }
    return s;
}
static ProbSpec mip_spec(Rng &r, int size = 1) {
    ProbSpec s; s.kind = "mip"; s.seed = 1 + r.next() % 1000000007ull;
    s.nb = (int)r.range(0, 3 + size); s.ni = r.chance(0.6) ? (int)r.range(0, 1 + size) : 0; if (s.nb + s.ni == 0) s.nb = 2;
    s.nc = (int)r.range(0, 2); s.rng = (int)r.range(1, 3); s.ncon = (int)r.range(0, 3);
    s.opt = r.chance(0.2) ? 1 : 0; if (r.chance(0.35)) s.opt |= 4; if (r.chance(0.3)) s.opt |= 2; if (r.chance(0.3)) s.opt |= 8; if (r.chance(0.05)) s.opt |= 16; if (r.chance(0.06)) s.opt |= 32;
    if (r.chance(0.12)) s.opt |= 64; if (s.nc && r.chance(0.3)) s.opt |= 128; if (r.chance(0.12)) s.dm = (int)r.range(s.opt & 32 ? -10 : -40, 25);
    if (s.ni && s.ni < 3 && r.chance(0.05)) { s.rng = (int)r.range(4, s.ni == 1 ? 200 : 40); s.opt &= ~2; }
    return s;
}
// many more booleans, each with nothing but a cost. Features that leave relaxations undecided are turned off, since
// an undecided problem is split into 2^nf; where one stays undecided all the same, the node budget ends the splitting
static void many_free(Rng &r, ProbSpec &s) { s.nf = (int)r.range(5, 70); s.opt &= ~(1 | 2 | 32 | 64); s.dm = std::max(s.dm, -10); }
static void cap_nodes(const ProbSpec &s, KV &a) { int k = s.nf ? std::min(120, std::max(20, 2500 / s.nf)) : 0; if (k && (!a.count("maxit") || atoi(a["maxit"].c_str()) > k)) a["maxit"] = S("%d", k); }
static KV rnd_settings(Rng &r) {
    KV a;
    if (r.chance(0.25)) a["maxit"] = I(r.chance(0.5) ? r.range(0, 6) : r.range(5, 25));
    if (r.chance(0.2)) a["nitref"] = I(r.range(0, 9));
    if (r.chance(0.2)) { double t = r.pick(std::vector<double>{1e-6, 1e-7, 1e-5}); a["feastol"] = fmtd(t); }
    if (r.chance(0.15)) a["abstol"] = fmtd(r.pick(std::vector<double>{1e-6, 1e-7, 1e-4}));
    if (r.chance(0.15)) a["reltol"] = fmtd(r.pick(std::vector<double>{1e-6, 1e-7, 1e-4}));
    if (r.chance(0.05)) a["gamma"] = fmtd(r.uni(0.9, 0.99));
    if (r.chance(0.1)) a["feastol_inacc"] = fmtd(r.pick(std::vector<double>{1e-3, 1e-5, 1e-6}));
    if (r.chance(0.08)) a["abstol_inacc"] = fmtd(r.pick(std::vector<double>{1e-3, 1e-5, 1e-6}));
    if (r.chance(0.08)) a["reltol_inacc"] = fmtd(r.pick(std::vector<double>{1e-3, 1e-5, 1e-6}));
    if (r.chance(0.03)) a["maxbk"] = I(r.pick(std::vector<int>{0, 1, 3, 10, 30}));
    if (r.chance(0.03)) a["bkscale"] = fmtd(r.uni(0.5, 0.9));
    return a;
}
static Env rnd_env(Rng &r) {
    Env e; e.fill = (int)r.range(0, 4); e.fseed = 1 + r.next() % 100000; e.gap = r.chance(0.3) ? (int)r.range(1, 40) : 0; e.zero = r.chance(0.3); e.reuse = r.chance(0.5);
    e.base = r.range(1, 4000) * 1000000000ll - r.range(0, 200000); e.tick = r.range(1, 60); e.read = r.range(20, 300); e.rnd = 1 + r.next() % 1000000; e.sig = 2;
    return e;
}
// positions of asynchronous events: uniform, early, late, or around an intercepted call
static Fault place(Rng &r, const char *kind, int task, int op, const Rec &b) {
    Fault f; f.kind = kind; f.task = task; f.op = op; i64 T = std::max<i64>(1, b.k1);
    double u = r.unit();
    if (u < 0.15 && b.sysn > 0) f.sys = u < 0.08 ? r.range(1, b.sysn) : u < 0.12 ? r.range(1, std::min<i64>(b.sysn, 8)) : b.sysn - r.range(0, std::min<i64>(b.sysn - 1, 8));
    else if (u < 0.24) f.tick = r.range(1, std::min<i64>(T, 400));
    else if (u < 0.34) f.tick = std::max<i64>(1, T - r.range(0, std::min<i64>(T - 1, 400)));
    else if (u < 0.45) f.tick = r.range(1, std::max<i64>(1, T / 8));
    else f.tick = r.range(1, T);
    return f;
}
static Fault kkt_fault(Rng &r, int task, int op, const Rec &b) {
    Fault f; f.task = task; f.op = op; double u = r.unit();
    if (u < 0.2 && b.nfact > 0) { f.kind = "kktfail"; f.nth = r.range(1, b.nfact); f.seed = r.next() % 1000; }
    else if (u < 0.55) { f.kind = "kktpert"; f.nth = r.range(1, std::max<i64>(1, b.nsolv)); f.mag = pow(10, r.chance(0.2) ? r.uni(0.5, 7) : r.uni(-8, 0.5)); f.seed = 1 + r.next() % 1000; f.cnt = r.chance(0.5) ? 1 : r.chance(0.5) ? r.range(2, 12) : 100000; }
    else { f.kind = "kktnan"; f.nth = r.range(1, std::max<i64>(1, b.nsolv)); f.mag = r.pick(std::vector<double>{0, 0.5, 2, -1}); f.seed = r.next() % 1000; f.cnt = r.chance(0.7) ? 1 : r.range(2, 30); }
    return f;
}
struct Mix { double pinf = 0.1, dinf = 0.1, weak = 0.05; double fkkt = 0.4, fsig = 0.4, settings = 0.4, upd = 0.5, entry = 0.4; int minops = 1, maxops = 6; bool maxit = true; bool mixmode = false; double twoslots = 0.15; bool finalclean = false; };
static std::string pick_kind(Rng &r, const Mix &x) { double u = r.unit(); if (u < x.pinf) return "pinf"; if (u < x.pinf + x.dinf) return "dinf"; if (u < x.pinf + x.dinf + x.weak) return "weak"; return "opt"; }
static void add_entry_update(Rng &r, const Plan &p, const Model &cur, std::vector<Op> &ops, i64 slot) {
    Problem P = make_problem(p.probs[cur.prob]);
    bool h = r.chance(0.6) && P.m; i64 i = h ? r.range(0, P.m - 1) : r.range(0, P.n - 1);
    double o = h ? P.h[i] : P.c[i], v;
    if (h && i < P.l && r.chance(0.6)) v = o + r.uni(0.1, 2); // keeps feasibility
    else if (r.chance(0.3)) v = o;                            // back to the original value
    else v = o + r.signedmag(0.05, 0.6);
    KV a = {{"w", I(slot)}, {"i", I(i)}, {"v", fmtd(v)}};
    if (r.chance(0.12)) a["raw"] = "1"; // the caller writes back the number it reads in the workspace
    ops.push_back(mk(h ? "updh" : "updc", a));
}
// a history over one or two continuous workspaces
static void gen_history(Rng &r, Plan &p, const Mix &x, int size = 1) {
    int slots = r.chance(x.twoslots) ? 2 : 1; p.tasks.assign(1, {}); if (r.chance(0.01)) slots = (int)r.range(3, MAXSLOT - 2); // the last two are for the checks' own
   
    auto &ops = p.tasks[0]; std::vector<Model> ms(slots); std::vector<std::vector<int>> vars(slots);
    for (int s = 0; s < slots; s++) {
        ProbSpec b = cont_spec(r, pick_kind(r, x), size); bool full = b.dens == 100; int nv = (int)r.range(1, 3);
        for (int k = 0; k < nv; k++) { ProbSpec q = b; q.var = k; if (full && k) q.kind = pick_kind(r, x); if (!full && k && (b.kind == "opt" || b.kind == "weak")) q.kind = r.chance(0.8) ? "opt" : "weak"; vars[s].push_back(p.probs.size()); p.probs.push_back(q); }
        ms[s].prob = vars[s][0]; ops.push_back(mk("setup", {{"w", I(s)}, {"prob", I(ms[s].prob)}, {"adj", I(r.chance(0.15))}}));
    }
    int no = (int)r.range(x.minops, x.maxops); if (r.chance(0.01)) no = (int)r.range(12, 40); // many operations on one workspace
    for (int k = 0; k < no; k++) {
        int s = (int)r.range(0, slots - 1);
        if (r.chance(x.settings)) { KV a = rnd_settings(r); if (!x.maxit) a.erase("maxit"); if (!a.empty()) { a["w"] = I(s); ops.push_back(mk("set", a)); } }
        if (k && r.chance(x.upd)) {
            ms[s].prob = vars[s][r.range(0, (i64)vars[s].size() - 1)]; std::string mode = r.chance(0.4) ? "new" : r.chance(0.8) ? "same" : "adj";
            KV a{{"w", I(s)}, {"prob", I(ms[s].prob)}, {"mode", mode}}; if (x.mixmode && r.chance(0.1)) { a["mode"] = "mix"; a["mask"] = I(r.range(1, 30)); }
            ops.push_back(mk("upd", a));
        }
        if (r.chance(x.entry)) { int c = (int)r.range(1, 2); while (c--) add_entry_update(r, p, ms[s], ops, s); }
        if (r.chance(0.9)) ops.push_back(mk("solve", {{"w", I(s)}}));
    }
    for (int s = 0; s < slots; s++) { if (x.finalclean) ops.push_back(mk("set", {{"w", I(s)}, {"maxit", "100"}})); ops.push_back(mk("solve", {{"w", I(s)}})); ops.push_back(mk("cleanup", {{"w", I(s)}, {"keep", I(r.chance(0.5) ? 0 : r.range(1, 4))}})); }
}
// place faults in the solves of a history, using a fault-free run to learn its length
static void gen_faults(Rng &r, Plan &p, double fkkt, double fsig, bool sparelast = false) {
    History h; exec_plan(p, h); if (h.crashed || h.hang) return;
    for (size_t t = 0; t < p.tasks.size(); t++) {
        std::map<i64, int> last; for (size_t i = 0; i < p.tasks[t].size(); i++) if (p.tasks[t][i].kind == "solve") last[p.tasks[t][i].geti("w", 0)] = (int)i;
        for (size_t i = 0; i < p.tasks[t].size(); i++) {
            auto &op = p.tasks[t][i]; if (op.kind != "solve" && op.kind != "bsolve") continue;
            if (sparelast && last[op.geti("w", 0)] == (int)i) continue;
            const Rec *b = h.find((int)t, (int)i); if (!b || b->ret == NA) continue;
            if (r.chance(fkkt)) { p.faults.push_back(kkt_fault(r, (int)t, (int)i, *b)); if (r.chance(0.25)) p.faults.push_back(kkt_fault(r, (int)t, (int)i, *b)); }
            if (r.chance(fsig)) { p.faults.push_back(place(r, "sigint", (int)t, (int)i, *b)); if (r.chance(0.15)) p.faults.push_back(place(r, "sigint", (int)t, (int)i, *b)); }
        }
    }
}
static KV bsettings(Rng &r, bool maxit) {
    KV a; if (r.chance(0.85)) { a["strat"] = I(r.range(0, 4)); a["node"] = I(r.range(0, 2)); }
    if (r.chance(0.4)) a["eta"] = I(r.range(0, 6));
    if (r.chance(0.3)) { a["rgap"] = fmtd(r.pick(std::vector<double>{1e-6, 1e-4, 1e-2})); }
    if (r.chance(0.2)) { a["agap"] = fmtd(r.pick(std::vector<double>{1e-6, 1e-4, 1e-2})); }
    if (r.chance(0.08)) a["itol"] = fmtd(r.pick(std::vector<double>{1e-3, 1e-5, 1e-6}));
    if (maxit) a["maxit"] = I(r.chance(0.5) ? r.range(1, 6) : r.chance(0.85) ? r.range(3, 30) : r.range(20, 150)); else if (r.chance(0.3)) a["maxit"] = I(r.range(300, 2000));
    return a;
}

// ---------------------------------------------------------------- MIP oracle
static void oracle_mip(const Plan &p, const Model &m, const Rec &r, Viols &v, bool disturbed, bool budgeted) {
    Problem P = model_problem(p, m); MipRef ref = mip_reference(P);
    std::string at_ = S("bsolve %lld.%lld (code %lld, %lld nodes)", (long long)r.task, (long long)r.op, (long long)r.ret, (long long)r.iter);
    double agap = 1e-6, rgap = 1e-3; if (m.bset.count("agap")) agap = atof(m.bset.at("agap").c_str()); if (m.bset.count("rgap")) rgap = atof(m.bset.at("rgap").c_str());
    double itol = 1e-4; if (m.bset.count("itol")) itol = atof(m.bset.at("itol").c_str());
    int N = (int)P.ilo.size();
    double sens = 0; for (double c : P.icost) sens += fabs(c); for (auto &E : P.epis) { double a = 0; for (auto &row : E.a) for (int w : row) a += abs(w); sens += fabs(E.cost) * a * (E.type == 2 ? 30 : 1); }
    if (P.unb) {
        if (r.ret == MI_OPT && !disturbed) add(v, "mip-truth", at_ + ": reported optimal on a problem without a lower bound");
        else if (r.ret == MI_INF && ref.feasible) add(v, disturbed ? "mip-false-infeasible-fault" : "mip-false-infeasible", at_ + ": an unbounded problem was reported infeasible");
        else if (r.ret != MI_OPT && r.ret != MI_INF && r.ret != MI_UNB && !disturbed && !budgeted && P.intv.empty() && r.nbad + r.ninacc == 0) add(v, "mip-unfinished", at_ + ": no verdict within a generous node budget");
        if (r.ret == MI_UNB) probe("mip_unbounded");
        return;
    }
    if (r.ret == MI_OPT || r.ret == MI_MAXFEAS) {
        probe(r.ret == MI_OPT ? "mip_optimal" : "mip_feasible");
        std::vector<int> xi(N); bool ok = true; double worst = 0;
        // residual tolerances are relative to the point: an absurdly large one (possible only after injected faults) is within them wherever it lies
        if (disturbed && nrmd(r.x2) > 1e4) { probe("mip_huge_point"); return; }
        for (int i = 0; i < N; i++) { i64 col = i < (int)P.boolv.size() ? P.boolv[i] : P.intv[i - P.boolv.size()]; double x = r.x2[col]; if (!std::isfinite(x) || fabs(x) > 1e6) { ok = false; worst = x; break; } xi[i] = (int)lround(x); worst = std::max(worst, fabs(x - xi[i])); }
        if (!ok || worst > 1.5 * itol) { add(v, "mip-integral", at_ + S(": the point is off the integers by %.3g", worst)); return; }
        double obj;
        if (!mip_point_ok(P, xi, &obj)) { add(v, "mip-feasible", at_ + ": the integer point is not feasible"); return; }
        double unit = r.nbad + r.ninacc ? 1 : std::max(1e-3, std::min(1.0, pow(10.0, p.probs[m.prob].dm / 10.0))); // the magnitude of the costs
        double tol = 3 * std::max(itol, 1e-4) * sens + 1e-4 * (unit + fabs(obj)), ux = 0;
        for (auto &E : P.epis) if (E.type == 2) { double t = E.b[0]; for (int i = 0; i < N; i++) t += E.a[0][i] * xi[i]; tol += 10 * std::max(itol, 1e-4) * E.cost * exp(t); }
        for (i64 j = 0; j < P.n; j++) ux += P.c[j] * r.x2[j];
        if (!(ux >= obj - tol) || (r.ret == MI_OPT && !(ux <= obj + tol + std::max(agap, rgap * fabs(obj) * 1.01)))) add(v, r.nloose ? "mip-gap-tau" : "mip-point", at_ + S(": c'x = %.8g, cost of the integer point %.8g", ux, obj));
        if (!(fabs(r.info[IN_PCOST] - ux) <= 1e-6 * (1 + fabs(ux)))) add(v, "mip-cost", at_ + S(": reported cost %.8g, c'x = %.8g", r.info[IN_PCOST], ux));
        if (r.twodiff & 15) add(v, "mip-x", at_ + S(": the two copies of the solution differ (mask %lld)", (long long)r.twodiff));
        if (r.twodiff & 16) add(v, "mip-info", at_ + ": the two copies of the statistics of the returned point differ");
        if (!ref.feasible) add(v, "mip-truth", at_ + ": a solution for an infeasible problem");
        else if (r.ret == MI_OPT && obj > ref.best + std::max(agap, rgap * std::max(fabs(obj), fabs(ref.best)) * 1.01) + tol)
            add(v, r.nloose ? "mip-gap-tau" : disturbed ? "mip-subopt-fault" : "mip-subopt", at_ + S(": reported optimal with cost %.8g, the optimum is %.8g", obj, ref.best));
    } else if (r.ret == MI_INF) {
        probe("mip_infeasible");
        if (ref.feasible) add(v, disturbed ? "mip-false-infeasible-fault" : "mip-false-infeasible", at_ + S(": reported infeasible, but a solution with cost %.8g exists", ref.best));
    } else if (r.ret == MI_UNB || r.ret == MI_MAXUNB) add(v, "mip-unbounded", at_ + ": reported unbounded on a bounded problem");
    else if (r.ret == MI_MAXNO) { probe("mip_nosoln"); }
    else if (r.ret == SIGINTX) { probe("mip_sigint"); }
    else add(v, "mip-code", at_ + ": undocumented return code");
    if (!disturbed && !budgeted && r.ret != MI_OPT && r.ret != MI_INF && r.nbad + r.ninacc > 0) probe("mip_unresolved");
    else if (!disturbed && !budgeted && r.ret != MI_OPT && r.ret != MI_INF) add(v, "mip-unfinished", at_ + ": neither optimal nor infeasible within a generous node budget");
}

// the statistics of the point a mixed-integer solve returns are those of a relaxation: the problem with bound rows in
// front, whose right-hand sides are integers that the point itself gives away
static void oracle_bb_stats(const Plan &p, const Model &m, const Rec &r, Viols &v) {
    if (!std::isfinite(r.gU)) return;
    Problem P = model_problem(p, m), Q = P; i64 nb = P.boolv.size(), N = nb + (i64)P.intv.size();
    if ((i64)r.s.size() != P.m + 2 * N || (i64)r.x.size() != P.n) return;
    std::vector<i64> row(P.n, -1); for (i64 i = 0; i < N; i++) row[i < nb ? P.boolv[i] : P.intv[i - nb]] = 2 * i;
    Q.m += 2 * N; Q.l += 2 * N; Q.Gpr.clear(); Q.Gir.clear(); Q.Gjc.assign(1, 0);
    for (i64 j = 0; j < P.n; j++) {
        if (row[j] >= 0) for (int k = 0; k < 2; k++) { Q.Gpr.push_back(k ? 1 : -1); Q.Gir.push_back(row[j] + k); }
        for (i64 k = P.Gjc[j]; k < P.Gjc[j + 1]; k++) { Q.Gpr.push_back(P.Gpr[k]); Q.Gir.push_back(P.Gir[k] + 2 * N); }
        Q.Gjc.push_back(Q.Gpr.size());
    }
    std::vector<double> h(2 * N); const double big = 1 << 23; // the bound of an integer variable that was not branched on
    for (i64 j = 0; j < P.n; j++) if (row[j] >= 0) for (int k = 0; k < 2; k++) { double u = r.s[row[j] + k] + (k ? r.x[j] : -r.x[j]); h[row[j] + k] = fabs(u - big) < 1000 ? big : round(u); if (!(fabs(u - h[row[j] + k]) < (h[row[j] + k] == big ? 1000 : 0.1))) { probe("bb_stat_far"); return; } }
    h.insert(h.end(), P.h.begin(), P.h.end()); Q.h = h;
    probe("bb_stat"); Rec q = r; q.ret = OPTIMAL; oracle_stats(p, m, Q, q, v);
}

// ---------------------------------------------------------------- C01 C02 C17 C16 C07: continuous histories
static Mix mix_for(const std::string &id, Rng &r) {
    Mix x;
    if (id == "C01") { x.pinf = 0.05; x.dinf = 0.05; x.weak = 0.1; }
    if (id == "C02") { x.pinf = 0.4; x.dinf = 0.35; x.weak = 0.05; }
    if (id == "C07") { x.fkkt = 0.2; x.fsig = 0.25; x.minops = 2; x.maxops = 5; x.upd = 0.6; x.mixmode = true; }
    if (id == "C16") { x.fkkt = 0.7; x.fsig = 0.3; x.finalclean = true; x.maxops = 4; }
    if (id == "C17") { x.fkkt = 0.5; x.fsig = 0.45; x.pinf = 0.15; x.dinf = 0.15; }
    if (r.chance(0.25)) { x.fkkt = 0; x.fsig = r.chance(0.5) ? 0 : x.fsig; } // swarm: switch fault kinds off
    return x;
}
static void gen_bb(const std::string &id, Rng &r, Plan &p);
static void gen_cont(const std::string &id, Rng &r, Plan &p) {
    if (id == "C17" && r.chance(0.1)) { gen_bb("C12", r, p); return; }
    Mix x = mix_for(id, r); p.env = rnd_env(r);
    gen_history(r, p, x, r.chance(0.2) ? 2 : 1);
    gen_faults(r, p, x.fkkt, x.fsig, id == "C16");
}
static bool has_fault(const Plan &p, int task, int op) { for (auto &f : p.faults) if (f.task == task && f.op == op) return true; return false; }
static void check_terminates(const Plan &p, const Model &m, const Rec &r, Viols &v) {
    i64 maxit = (i64)setd(m, "maxit", 100), nit = (i64)setd(m, "nitref", 9);
    std::string at_ = S("solve %lld.%lld (code %lld)", (long long)r.task, (long long)r.op, (long long)r.ret);
    if (r.iter > maxit) add(v, "iter", at_ + S(": %lld iterations, limit %lld", (long long)r.iter, (long long)maxit));
    if (r.nfact > maxit + 2) add(v, "fact", at_ + S(": %lld factorizations, limit %lld", (long long)r.nfact, (long long)maxit + 2));
    if (r.nsolv > (3 * (maxit + 1) + 2) * (std::max<i64>(nit, 0) + 2)) add(v, "solves", at_ + S(": %lld linear solves", (long long)r.nsolv));
    bool known = is_verdict(r.ret) || r.ret == MAXIT || r.ret == NUMERICS || r.ret == OUTCONE || r.ret == SIGINTX || r.ret == FATAL;
    if (!known) add(v, "code", at_ + ": undocumented return code");
}
static Viols run_cont(const Plan &p, RunStat &st) {
    Viols v; History h; exec(p, h); st.schedhash = h.schedhash; st.covhash = h.covhash;
    const std::string &id = p.check;
    if (!basic(p, h, v)) return v;
    int cmp = 0;
    walk(p, h, [&](const Op &op, int t, int i, const Rec &r, const Model &b, const Model &) {
        if (id == "C17" && op.kind == "bsolve" && r.ret != NA) { st.nontrivial = true; oracle_bb_stats(p, b, r, v); }
        if (op.kind != "solve" || r.ret == NA) return;
        Problem P = model_problem(p, b);
        bool spurious = r.ret == SIGINTX && !r.interrupts, late = p.tasks[t].size() <= 16 || i + 10 >= (int)p.tasks[t].size(); // of a long history, the end is compared
        if (r.ret != OPTIMAL) probe("ret_" + I(r.ret));
        if (id == "C01") { if (is_opt(r.ret)) { st.nontrivial |= b.solves > 0 || has_fault(p, t, i); oracle_optimal(p, b, P, r, v); } }
        else if (id == "C02") { oracle_infeasible(p, b, P, r, v); if (is_pinf(r.ret) || is_dinf(r.ret)) st.nontrivial = true; if (is_opt(r.ret)) { int tr = model_truth(p, b, make_problem(p.probs[b.prob])); if (tr == 2 || tr == 3) add(v, "opt-truth", S("solve %d.%d: optimal on an infeasible or unbounded problem", t, i)); }
            // without faults a robustly infeasible problem is decided, not given up on
            }
        else if (id == "C17") { oracle_stats(p, b, P, r, v); if (b.solves || r.ret != OPTIMAL) st.nontrivial = true; }
        else if (id == "C16") {
            check_terminates(p, b, r, v); if (spurious) add(v, "spurious-sigint", S("solve %d.%d: SIGINT code without a signal", t, i));
            if (b.solves && !has_fault(p, t, i) && late && cmp < 2) { st.nontrivial = true; cmp++; compare_fresh(p, b, r, v, "recover"); }
        }
        else if (id == "C07") {
            if (has_fault(p, t, i)) { for (auto &f : p.faults) if (f.task == t && f.op == i) return; }
            if (!b.solves && b.patch.empty()) return;
            if (late && cmp < 3) { st.nontrivial = true; cmp++; compare_fresh(p, b, r, v, "resolve"); oracle_optimal(p, b, P, r, v); }
        }
    });
    return v;
}

// ---------------------------------------------------------------- C18: well-posed problems are decided
// smallest eigenvalue over largest of a symmetric positive semidefinite matrix (Jacobi)
static double eig_ratio(std::vector<std::vector<double>> M) {
    int n = (int)M.size(); if (!n) return 1;
    for (int sweep = 0; sweep < 30; sweep++) {
        double off = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) off += fabs(M[i][j]);
        if (off < 1e-12) break;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            if (fabs(M[p][q]) < 1e-300) continue;
            double th = (M[q][q] - M[p][p]) / (2 * M[p][q]), t = (th >= 0 ? 1 : -1) / (fabs(th) + sqrt(th * th + 1)), c = 1 / sqrt(t * t + 1), sn = t * c;
            for (int k = 0; k < n; k++) { double a = M[k][p], b = M[k][q]; M[k][p] = c * a - sn * b; M[k][q] = sn * a + c * b; }
            for (int k = 0; k < n; k++) { double a = M[p][k], b = M[q][k]; M[p][k] = c * a - sn * b; M[q][k] = sn * a + c * b; }
        }
    }
    double lo = 1e300, hi = 0; for (int i = 0; i < n; i++) { lo = std::min(lo, M[i][i]); hi = std::max(hi, M[i][i]); }
    return hi > 0 ? lo / hi : 0;
}
// [A; G] has full column rank and A full row rank, comfortably
static bool well_posed(const Problem &P) {
    i64 n = P.n, p = P.hasA ? P.p : 0; std::vector<std::vector<double>> K(p + P.m, std::vector<double>(n, 0));
    if (p) for (i64 j = 0; j < n; j++) for (i64 k = P.Ajc[j]; k < P.Ajc[j + 1]; k++) K[P.Air[k]][j] = P.Apr[k];
    for (i64 j = 0; j < n; j++) for (i64 k = P.Gjc[j]; k < P.Gjc[j + 1]; k++) K[p + P.Gir[k]][j] = P.Gpr[k];
    std::vector<std::vector<double>> M(n, std::vector<double>(n, 0)), N(p, std::vector<double>(p, 0));
    for (i64 a = 0; a < n; a++) for (i64 b = 0; b < n; b++) for (i64 i = 0; i < p + P.m; i++) M[a][b] += K[i][a] * K[i][b];
    for (i64 a = 0; a < p; a++) for (i64 b = 0; b < p; b++) for (i64 j = 0; j < n; j++) N[a][b] += K[a][j] * K[b][j];
    return eig_ratio(M) > 2e-3 && eig_ratio(N) > 2e-3;
}
static void gen_C18(Rng &r, Plan &p) {
    p.env = rnd_env(r); p.tasks.assign(1, {}); auto &ops = p.tasks[0];
    int size = (int)r.pick(std::vector<int>{1, 1, 1, 2, 2, 4}), nv = 0;
    ProbSpec b; for (int tries = 0; tries < 30; tries++) {
        double u = r.unit(); b = cont_spec(r, u < 0.6 ? "opt" : u < 0.8 ? "pinf" : "dinf", size); b.lat &= 1; b.scale = r.chance(0.2) ? (int)r.range(1, 4) : 0;
        if (r.chance(0.35)) { if (r.chance(0.7)) b.pm = (int)r.range(-10, 40); if (r.chance(0.7)) b.dm = (int)r.range(-10, 40); }
        if (r.chance(0.15)) { b.q.push_back((int)r.range(4, 5 + 4 * size)); } if (r.chance(0.1)) b.e = (int)r.range(1, 2 + size);
        if (b.e) { b.pm = std::min(b.pm, 15); b.dm = std::min(b.dm, 15); } // beyond, nearly all of them end with reduced accuracy
        nv = (int)r.range(1, 3); p.probs.clear();
        for (int k = 0; k < nv; k++) { ProbSpec q = b; q.var = k; if (well_posed(make_problem(q))) p.probs.push_back(q); }
        if (!p.probs.empty()) break;
    }
    if (p.probs.empty()) { b = ProbSpec(); b.kind = "opt"; b.seed = 1 + r.next() % 1000; b.n = 2; b.l = 4; b.dens = 100; p.probs.push_back(b); }
    nv = (int)p.probs.size();
    ops.push_back(mk("setup", {{"prob", "0"}, {"adj", I(r.chance(0.15))}}));
    int no = (int)r.range(0, 4); bool lim = false;
    for (int k = 0; k <= no; k++) {
        if (k && r.chance(0.5)) ops.push_back(mk("upd", {{"prob", I(r.range(0, nv - 1))}, {"mode", r.chance(0.4) ? "new" : "same"}}));
        if (k < no && r.chance(0.25)) { ops.push_back(mk("set", {{"maxit", I(r.range(0, 12))}})); lim = true; }
        else if (lim) { ops.push_back(mk("set", {{"maxit", I(r.chance(0.7) ? 100 : r.range(100, 400))}})); lim = false; }
        if (r.chance(0.1)) ops.push_back(mk("set", {{"nitref", I(r.range(3, 9))}}));
        ops.push_back(mk("solve", {}));
    }
    ops.push_back(mk("cleanup", {{"keep", "0"}}));
    if (r.chance(0.5)) gen_faults(r, p, 0.4, 0.4, true);
}
static Viols run_C18(const Plan &p, RunStat &st) {
    Viols v; History h; exec(p, h); st.schedhash = h.schedhash; st.covhash = h.covhash;
    if (!basic(p, h, v)) return v;
    walk(p, h, [&](const Op &op, int t, int i, const Rec &r, const Model &b, const Model &) {
        if (op.kind != "solve" || r.ret == NA || has_fault(p, t, i) || setd(b, "maxit", 100) < 100) return;
        Problem P = model_problem(p, b); int tr = model_truth(p, b, make_problem(p.probs[b.prob]));
        if (tr < 1 || tr > 3 || !well_posed(P)) return;
        if (b.solves) st.nontrivial = true;
        std::string at_ = S("solve %d.%d (code %lld, %lld iterations)", t, i, (long long)r.ret, (long long)r.iter);
        const char *nm[] = {"", "optimal", "primal infeasible", "dual infeasible"}; i64 want = tr == 1 ? OPTIMAL : tr == 2 ? PINF : DINF;
        probe(std::string("expect_") + (tr == 1 ? "optimal" : tr == 2 ? "pinf" : "dinf")); probe("code" + I(tr) + "_" + I(r.ret));
        const ProbSpec &me = p.probs[b.prob]; bool reduced = r.ret == want + 10, verdict = r.ret == OPTIMAL || r.ret == PINF || r.ret == DINF;
        if (reduced || (r.ret != want && !verdict && (P.nex || me.pm || me.dm || me.lat))) {
            // the method itself ends with reduced accuracy on a few well-posed problems, and on exponential cones or on data
            // of very different sizes stalls on about one in a thousand (more often on larger ones, where nothing is claimed):
            // a violation only if no other small problem of the same shape is decided either
            probe(reduced ? "reduced_accuracy" : "undecided_alone"); if (P.n > 7 || P.m > 25) return;
            Plan q; q.check = p.check; q.env = p.env; q.tasks.assign(1, {}); int n = 0, bad = 0;
            for (int k = 0; k < 12 && n < 6; k++) { ProbSpec sp = me; sp.var = me.var + 100 + k; if (!well_posed(make_problem(sp))) continue;
                q.tasks[0].push_back(mk("setup", {{"prob", I(n)}})); q.tasks[0].push_back(mk("solve", {})); q.tasks[0].push_back(mk("cleanup", {{"keep", "0"}})); q.probs.push_back(sp); n++; }
            History g; exec(q, g);
            if (!g.crashed && !g.hang) for (auto &x : g.recs) if (q.tasks[0][x.op].kind == "solve" && x.ret != want && (reduced || x.ret != want + 10)) bad++;
            if (n >= 6 && bad == n) add(v, reduced ? "reduced-shape" : "undecided-shape", at_ + S(": a well-posed problem that is %s, and %d of %d others of the same shape", nm[tr], bad, n));
        }
        else if (r.ret != want) add(v, verdict ? "wrong-verdict" : "undecided", at_ + S(": a well-posed problem that is %s", nm[tr]));
        calib(20, r.iter / 100.0);
    });
    return v;
}

// ---------------------------------------------------------------- C03: SIGINT stops a solve
// the iteration a signal fell into: before the first factorization the info
// struct may still show the previous solve
static i64 sig_iter(const History::Sig &s) { return s.nf < 1 ? 0 : std::max<i64>(s.iter, 0); }
static void gen_C03(Rng &r, Plan &p) {
    p.env = rnd_env(r); Mix x; x.settings = 0.25; x.upd = 0.25; x.entry = 0.2; x.maxops = 3; x.pinf = 0.12; x.dinf = 0.12;
    gen_history(r, p, x, r.chance(0.3) ? 2 : 1);
    // every interrupted solve is followed by an identical, undisturbed one
    auto &ops = p.tasks[0]; std::vector<Op> o2; for (auto &op : ops) { o2.push_back(op); if (op.kind == "solve") o2.push_back(op); }
    ops = o2;
    History h; exec_plan(p, h); if (h.crashed || h.hang) return;
    bool any = false;
    for (size_t i = 0; i + 1 < ops.size(); i++) if (ops[i].kind == "solve" && ops[i + 1].kind == "solve" && ops[i].a == ops[i + 1].a) {
        const Rec *b = h.find(0, (int)i);
        if (b && b->ret != NA && (r.chance(0.7) || !any)) { any = true; int c = r.chance(0.2) ? 2 : 1; while (c--) p.faults.push_back(place(r, "sigint", 0, (int)i, *b)); }
        i++;
    }
}
static Viols run_C03(const Plan &p, RunStat &st) {
    Viols v; History h; exec(p, h); st.covhash = h.covhash; if (!basic(p, h, v)) return v;
    Plan q = p; q.faults.clear(); History hb; exec(q, hb); if (!basic(q, hb, v)) return v;
    if (h.killed) { add(v, "killed", "the process was killed by SIGINT although the application handles it"); return v; }
    std::map<int, const Rec *> last; int cmp = 0;
    walk(p, h, [&](const Op &op, int t, int i, const Rec &r, const Model &b, const Model &) {
        if (op.kind != "solve" || r.ret == NA) return;
        const Rec *bl = hb.find(t, i); Problem P = model_problem(p, b);
        std::string at_ = S("solve %d.%d (code %lld, iteration %lld)", t, i, (long long)r.ret, (long long)r.iter);
        bool hit = false, any = false;
        for (auto &s : h.sigs) if (s.task == t && s.op == i) {
            any = true;
            if (s.disp == 3) {
                hit = true; probe(s.iter < 0 ? "sig_in_init" : s.iter == 0 ? "sig_iter0" : "sig_later");
                if (r.iter > sig_iter(s) + 1) add(v, "not-prompt", at_ + S(": SIGINT arrived in iteration %lld", (long long)sig_iter(s)));
            } else if (s.nf >= 1 && r.nsolv > s.ns) add(v, "lost", at_ + S(": SIGINT during iteration %lld did not reach the solver", (long long)s.iter));
            else probe("sig_at_edge");
        }
        if (r.ret == SIGINTX) probe("ret_sigint");
        if (r.ret == SIGINTX && !hit) add(v, "spurious-sigint", at_ + ": SIGINT code without a signal");
        if (any) {
            st.nontrivial = true;
            if (!(r.ret == SIGINTX || is_verdict(r.ret) || (bl && r.ret == bl->ret))) add(v, "int-code", at_ + S(": unexpected code after SIGINT (undisturbed: %lld)", (long long)(bl ? bl->ret : 0)));
            oracle_stats(p, b, P, r, v);
            if (r.ret == SIGINTX) { Ev e = evaluate(P, r); if (e.nan) add(v, "int-nan", at_ + ": non-finite iterate"); }
        }
        oracle_optimal(p, b, P, r, v); oracle_infeasible(p, b, P, r, v);
        if (!any && b.solves > 0 && cmp < 3) { cmp++; compare_fresh(p, b, r, v, "after"); }
    });
    return v;
}

// ---------------------------------------------------------------- C04: signal handler restored
static void gen_C04(Rng &r, Plan &p) {
    p.env = rnd_env(r); p.env.sig = r.chance(0.7) ? 2 : r.chance(0.5) ? 1 : 0;
    if (p.env.sig == 2 && r.chance(0.5)) p.env.sig |= 4 * (r.chance(0.5) ? 1 : 3); // registered with SA_SIGINFO, flags and a mask
    if (r.chance(0.08)) { // two threads
        p.tasks.clear(); for (int t = 0; t < 2; t++) { p.probs.push_back(cont_spec(r, "opt")); p.tasks.push_back({mk("setup", {{"prob", I(t)}}), mk("solve"), mk("cleanup")}); }
        if ((p.env.sig & 3) != 2) p.env.sig = 2;
        bool seq = r.chance(0.3);
        if (!seq) for (int k = 0; k < 40; k++) p.sched.push_back({(int)r.range(0, 1), (i64)pow(10, r.uni(2, 5))});
        return;
    }
    bool bb = r.chance(0.3);
    if (bb) {
        p.probs.push_back(mip_spec(r)); KV a = bsettings(r, r.chance(0.5)); a["prob"] = "0";
        p.tasks.assign(1, {mk("bsetup", a), mk("bsolve"), mk("sig"), mk("bsolve"), mk("bcleanup"), mk("sig")});
        if (p.env.sig == 0) for (auto &op : p.tasks[0]) if (op.kind == "sig") op = mk("setsig", {{"d", "0"}});
    } else {
        Mix x; x.maxops = 4; gen_history(r, p, x);
        auto &ops = p.tasks[0]; std::vector<Op> o2; int d = p.env.sig & 3;
        for (auto &op : ops) { o2.push_back(op); if (r.chance(0.2)) { d = (int)r.range(0, 2); KV a{{"d", I(d)}}; if (d == 2 && r.chance(0.5)) a["flags"] = r.chance(0.5) ? "1" : "3"; o2.push_back(mk("setsig", a)); } if (d != 0 && r.chance(0.25)) o2.push_back(mk("sig")); }
        ops = o2;
        if (r.chance(0.15)) { std::vector<Op> o3{mk("setup", {{"prob", "0"}, {"w", "7"}, {"dl", "1"}}), mk("setup", {{"prob", "0"}, {"w", "7"}, {"dup", "1"}})}; ops.insert(ops.begin() + r.range(0, (i64)ops.size()), o3.begin(), o3.end()); }
    }
    gen_faults(r, p, r.chance(0.5) ? 0.6 : 0, r.chance(0.6) ? 0.6 : 0);
}
static Viols run_C04(const Plan &p, RunStat &st) {
    Viols v; History h; exec(p, h); st.schedhash = h.schedhash; st.covhash = h.covhash; if (!basic(p, h, v)) return v;
    int disp = p.env.sig & 3;
    if (p.tasks.size() > 1) {
        bool overlap = false; st.nontrivial = true;
        for (auto &a : h.recs) for (auto &b : h.recs) if (a.task < b.task && p.tasks[a.task][a.op].kind == "solve" && p.tasks[b.task][b.op].kind == "solve" && a.t0 < b.t1 && b.t0 < a.t1) overlap = true;
        if (overlap) probe("overlapping_solves"); else probe("disjoint_solves");
        if (h.sigend != disp) add(v, overlap ? "handler-left-overlap" : "handler-left", S("after all calls returned the SIGINT disposition is %lld, it was %d", (long long)h.sigend, disp));
        return v;
    }
    Plan q = p; q.faults.clear(); for (auto &f : p.faults) if (f.kind != "sigint") q.faults.push_back(f);
    History hb; bool haveb = false;
    if (h.killed) {
        // an earlier signal may have ended the solve already
        for (size_t k = 0; k + 1 < h.sigs.size(); k++) if (h.sigs[k].task == h.sigs.back().task && h.sigs[k].op == h.sigs.back().op) { probe("killed_second"); return v; }
        auto &s = h.sigs.back(); exec(q, hb); haveb = true; probe("killed_default");
        const Rec *b = hb.find((int)s.task, (int)s.op);
        if (!s.lib) { }
        else if (b && s.nf >= 1 && b->nsolv > s.ns && p.tasks[s.task][s.op].kind == "solve") add(v, "lost-kill", S("SIGINT in the middle of solve %lld.%lld killed the process", (long long)s.task, (long long)s.op));
        return v;
    }
    (void)haveb;
    i64 sigexp = 0; (void)sigexp;
    walk(p, h, [&](const Op &op, int t, int i, const Rec &r, const Model &, const Model &) {
        if (op.kind == "setsig") { disp = (int)op.geti("d", 0); return; }
        if (op.kind == "sig") {
            for (auto &s : h.sigs) if (s.task == t && s.op == i) { st.nontrivial = true; probe("sig_outside"); if (s.disp != disp) add(v, "app-missed", S("SIGINT outside any call reached disposition %lld, the application's is %d", (long long)s.disp, disp)); }
            if (disp == 2 && r.appsig < 1) add(v, "app-missed", S("SIGINT at operation %d.%d did not reach the application's handler", t, i));
            return;
        }
        if (r.sigdelta) add(v, "handler-left", S("operation %d.%d (%s, code %lld) left a different SIGINT disposition", t, i, op.kind.c_str(), (long long)r.ret));
        if (op.kind == "solve" || op.kind == "bsolve") { if (has_fault(p, t, i)) st.nontrivial = true; if (r.ret != 0) probe("exit_" + I(r.ret)); }
        if (op.kind == "solve" && r.ret != NA) for (auto &s : h.sigs) if (s.task == t && s.op == i) {
            if (s.disp == 3) { if (r.iter > sig_iter(s) + 1) add(v, "swallowed", S("a SIGINT swallowed by solve %d.%d did not stop it", t, i)); }
            else if (s.nf >= 1 && r.nsolv > s.ns) add(v, "uncaught", S("SIGINT in the middle of solve %d.%d reached disposition %lld", t, i, (long long)s.disp));
        }
    });
    if (h.sigend != disp) add(v, "handler-left", S("at the end the SIGINT disposition is %lld, the application set %d", (long long)h.sigend, disp));
    return v;
}

// ---------------------------------------------------------------- C05: threads
static void gen_C05(Rng &r, Plan &p) {
    p.env = Env(); p.env.sig = 2; p.env.rnd = 1 + r.next() % 100000;
    int nt = r.chance(0.7) ? 2 : 3;
    for (int t = 0; t < nt; t++) {
        std::vector<Op> ops;
        if (r.chance(0.2)) {
            ProbSpec s = mip_spec(r, 0); int k = p.probs.size(); p.probs.push_back(s); KV a = bsettings(r, true); a["prob"] = I(k);
            ops = {mk("bsetup", a), mk("bsolve")};
            if (r.chance(0.3)) { KV b = a; b.erase("maxit"); b.erase("prob"); ops[0] = mk("bsetup", {{"prob", I(k)}}); ops.insert(ops.begin() + 1, mk("bset", b)); } // the default settings, then changed if (r.chance(0.4)) ops.push_back(mk("bsolve")); ops.push_back(mk("bcleanup"));
        } else {
            ProbSpec b = cont_spec(r, r.chance(0.75) ? "opt" : r.chance(0.5) ? "pinf" : "dinf"); if (r.chance(0.4) && t && p.probs.size() && p.probs[0].kind != "mip") { b = p.probs[0]; b.var = (int)r.range(0, 3); }
            int k = p.probs.size(); p.probs.push_back(b); ProbSpec b2 = b; b2.var = 7; p.probs.push_back(b2);
            int reps = r.chance(0.3) ? 2 : 1;
            while (reps--) {
                ops.push_back(mk("setup", {{"prob", I(k)}}));
                if (r.chance(0.3)) { KV a = rnd_settings(r); if (!a.empty()) ops.push_back(mk("set", a)); }
                ops.push_back(mk("solve"));
                if (r.chance(0.4)) { ops.push_back(mk("upd", {{"prob", I(k + 1)}, {"mode", r.chance(0.5) ? "new" : "same"}})); ops.push_back(mk("solve")); }
                ops.push_back(mk("cleanup", {{"keep", I(r.range(0, 4))}}));
            }
            if (r.chance(0.15)) ops.push_back(mk("setup", {{"prob", I(k)}, {"dup", "1"}, {"w", "1"}}));
        }
        p.tasks.push_back(ops);
    }
    // learn the length of the run, then draw a schedule style
    History h; exec_plan(p, h); i64 T = std::max<i64>(1000, h.ticks);
    int style = (int)r.range(0, 3); int last = -1;
    auto other = [&]() { int t; do t = (int)r.range(0, nt - 1); while (t == last && nt > 1); return last = t; };
    if (style == 0) { i64 s = 0; while (s < T && p.sched.size() < 400) { i64 q = (i64)pow(10, r.uni(0, 5)); p.sched.push_back({other(), q}); s += q; } }
    else if (style == 1) { int k = (int)r.range(1, 6); for (int i = 0; i < k; i++) p.sched.push_back({other(), r.range(1, T)}); }
    else if (style == 2) { i64 q = (i64)pow(10, r.uni(1.5, 4)); for (i64 s = 0; s < T && p.sched.size() < 600; s += q) p.sched.push_back({other(), std::max<i64>(1, q + r.range(-q / 4, q / 4))}); }
    else { i64 q = r.range(1, T); p.sched.push_back({other(), q}); int k = (int)r.range(5, 200); for (int i = 0; i < k; i++) p.sched.push_back({other(), r.range(1, 60)}); }
}
// a branch-and-bound workspace has a solution only once an incumbent was found
static bool no_solution(const Op &op, const Rec &r) { return op.kind == "bsolve" && (!std::isfinite(r.gU) || fabs(r.gU) >= 1e300); }
static std::string diff_rec(const Rec &a, const Rec &b, bool counts, bool nosol) {
    auto dv = [](const std::vector<double> &x, const std::vector<double> &y) { return x.size() != y.size() || (x.size() && memcmp(x.data(), y.data(), x.size() * 8)); };
    if (a.ret != b.ret) return S("return code %lld instead of %lld", (long long)a.ret, (long long)b.ret);
    if (a.ret == FATAL) return "";
    if (a.iter != b.iter) return S("%lld iterations instead of %lld", (long long)a.iter, (long long)b.iter);
    if (!nosol && (dv(a.x, b.x) || dv(a.y, b.y) || dv(a.s, b.s) || dv(a.z, b.z) || dv(a.x2, b.x2))) return "different solution vectors";
    static const int st[] = {IN_PCOST, IN_DCOST, IN_PRES, IN_DRES, IN_PINF, IN_DINF, IN_GAP, IN_RELGAP};
    if (!nosol) for (int k : st) if (a.info.size() && b.info.size() && memcmp(&a.info[k], &b.info[k], 8)) return S("different statistics (%g instead of %g)", a.info[k], b.info[k]);
    if (dv(a.data, b.data)) return "different contents of the caller's arrays";
    if (counts && (a.nfact != b.nfact || a.nsolv != b.nsolv)) return "different amount of work";
    return "";
}
static Viols run_C05(const Plan &p, RunStat &st) {
    Viols v; History h; exec(p, h); st.schedhash = h.schedhash; st.covhash = h.covhash; if (!basic(p, h, v, true)) return v;
    st.nontrivial = h.switches >= 2; probe("switches", h.switches);
    for (size_t t = 0; t < p.tasks.size(); t++) {
        Plan q = p; q.sched.clear(); for (size_t k = 0; k < q.tasks.size(); k++) if (k != t) q.tasks[k].clear();
        History hs; exec(q, hs); if (!basic(q, hs, v, true)) return v;
        for (size_t i = 0; i < p.tasks[t].size(); i++) {
            const Rec *a = h.find((int)t, (int)i), *b = hs.find((int)t, (int)i); if (!a || !b) { add(v, "missing", "operation missing from the history"); continue; }
            std::string d = diff_rec(*a, *b, false, no_solution(p.tasks[t][i], *a)); if (!d.empty()) add(v, "interference", S("thread %d operation %d (%s): ", (int)t, (int)i, p.tasks[t][i].kind.c_str()) + d + " than when running alone");
            if (p.tasks[t][i].kind == "setup" && a->ret == 0 && !(a->tsetup >= 0)) add(v, "time", "negative setup time");
        }
    }
    return v;
}

// ---------------------------------------------------------------- C06: independence of the environment
static void gen_C06(Rng &r, Plan &p) {
    p.env = rnd_env(r); p.env.out = r.chance(0.5) ? 0 : (int)r.range(1, 3); if (p.env.fill == 0) p.env.fill = 3; p.env.gap = r.chance(0.6) ? (int)r.range(1, 60) : 0;
    if (r.chance(0.3)) {
        p.probs.push_back(mip_spec(r)); KV a = bsettings(r, r.chance(0.6)); a["prob"] = "0"; a["verbose"] = I(r.chance(0.5));
        p.tasks.assign(1, {mk("bsetup", a), mk("bsolve")}); if (r.chance(0.4)) p.tasks[0].push_back(mk("bsolve")); p.tasks[0].push_back(mk("bcleanup", {{"keep", I(r.range(0, 4))}}));
    } else {
        Mix x; x.maxops = 3; x.pinf = x.dinf = 0.15; x.settings = 0.5; gen_history(r, p, x, r.chance(0.2) ? 2 : 1);
        auto &ops = p.tasks[0]; std::vector<Op> o2; for (auto &op : ops) { if (op.kind == "solve" && r.chance(0.6)) o2.push_back(mk("set", {{"w", op.gets("w", "0")}, {"verbose", I(r.chance(0.8) ? 1 : 0)}})); o2.push_back(op); } ops = o2;
        if (r.chance(0.4)) gen_faults(r, p, 0.5, 0);
    }
    // an interrupt at a given linear solve: the same point of the computation, whatever is printed
    if (r.chance(0.3)) for (int i = 0; i < (int)p.tasks[0].size(); i++) if ((p.tasks[0][i].kind == "solve" || p.tasks[0][i].kind == "bsolve") && r.chance(0.7)) {
        Fault f; f.kind = "sigkkt"; f.op = i; f.nth = p.tasks[0][i].kind == "solve" ? r.range(1, 60) : (i64)pow(10, r.uni(0, 3.2)); f.cnt = 1; p.faults.push_back(f);
        if (r.chance(0.5)) { Fault g; g.kind = "kktpert"; g.op = i; g.nth = std::max<i64>(1, f.nth - r.range(0, 12)); g.mag = pow(10, r.uni(-6, 0)); g.seed = 1 + r.next() % 1000; g.cnt = r.range(1, 6); p.faults.push_back(g); }
    }
    // wall-clock and monotonic jumps change nothing either
    if (r.chance(0.3)) { int n = (int)r.range(1, 3); while (n--) { Fault f; f.kind = r.chance(0.5) ? "walljump" : "clockjump"; f.op = (int)r.range(0, (i64)p.tasks[0].size() - 1); f.tick = (i64)pow(10, r.uni(0, 5.5)); f.delta = r.range(1, 5000000000ll) * (f.kind == "walljump" && r.chance(0.5) ? -1 : 1); p.faults.push_back(f); } }
}
static Viols run_C06(const Plan &p, RunStat &st) {
    Viols v; History h; exec(p, h); st.covhash = h.covhash; if (!basic(p, h, v)) return v;
    Plan q = p; q.env = Env(); q.env.rnd = p.env.rnd; q.env.sig = p.env.sig; q.faults.clear(); for (auto &f : p.faults) if (f.nth >= 0) q.faults.push_back(f);
    for (auto &op : q.tasks[0]) if (op.a.count("verbose")) op.a["verbose"] = "0";
    History hb; exec(q, hb); if (!basic(q, hb, v)) return v;
    for (size_t i = 0; i < p.tasks[0].size(); i++) {
        const Rec *a = h.find(0, (int)i), *b = hb.find(0, (int)i); if (!a || !b) continue;
        std::string d = diff_rec(*a, *b, true, no_solution(p.tasks[0][i], *a));
        if (p.tasks[0][i].kind == "solve" || p.tasks[0][i].kind == "bsolve") { st.nontrivial = true; if (a->outbytes) probe("printed"); if (a->ret) probe("ret_" + I(a->ret)); }
        if (!d.empty()) { add(v, "env-dependent", S("operation %d (%s): ", (int)i, p.tasks[0][i].kind.c_str()) + d + " than in a plain environment"); break; }
    }
    return v;
}

// ---------------------------------------------------------------- C08: caller's data
static void gen_C08(Rng &r, Plan &p) {
    p.env = rnd_env(r);
    if (r.chance(0.2)) {
        ProbSpec ms = mip_spec(r); if (r.chance(0.05)) many_free(r, ms); p.probs.push_back(ms); KV a = bsettings(r, r.chance(0.6)); cap_nodes(ms, a); a["prob"] = "0"; p.tasks.assign(1, {mk("bsetup", a), mk("bsolve"), mk("bsolve"), mk("bcleanup")});
        Problem P = make_problem(p.probs[0]); if (r.chance(0.5)) p.tasks[0].insert(p.tasks[0].begin() + 2, mk("bupdc", {{"i", I(r.range(0, P.n - 1))}, {"v", fmtd(r.uni(0.2, 2))}}));
    } else { Mix x; x.maxops = 5; x.upd = 0.5; x.entry = 0.4; x.pinf = x.dinf = 0.1; gen_history(r, p, x); if (r.chance(0.3)) { p.tasks[0].insert(p.tasks[0].begin(), mk("setup", {{"w", "6"}, {"prob", "0"}, {"dup", "1"}})); if (r.chance(0.5)) p.tasks[0].insert(p.tasks[0].begin(), mk("setup", {{"w", "7"}, {"prob", "0"}, {"dl", "1"}})); } }
    gen_faults(r, p, r.chance(0.7) ? 0.5 : 0, r.chance(0.6) ? 0.4 : 0);
}
static void expect_data(const Problem &P, int mask, std::vector<double> &o) {
    const std::vector<double> *s[5] = {&P.Gpr, &P.Apr, &P.c, &P.h, &P.b};
    for (int i = 0; i < 5; i++) if (mask >> i & 1) { if ((i == 1 || i == 4) && !P.hasA) continue; o.insert(o.end(), s[i]->begin(), s[i]->end()); }
}
static bool data_close(const std::vector<double> &a, const std::vector<double> &b, std::string &d) {
    if (a.size() != b.size()) { d = "size"; return false; }
    for (size_t i = 0; i < a.size(); i++) if (!(fabs(a[i] - b[i]) <= 1e-10 * (fabs(b[i]) + 1e-3))) { d = S("entry %d is %.12g instead of %.12g", (int)i, a[i], b[i]); return false; }
    return true;
}
static Viols run_C08(const Plan &p, RunStat &st) {
    Viols v; History h; exec(p, h); st.covhash = h.covhash; if (!basic(p, h, v)) return v;
    std::map<i64, bool> mixed;
    walk(p, h, [&](const Op &op, int t, int i, const Rec &r, const Model &b, const Model &a) {
        if (r.ret == NA) return;
        const std::string &k = op.kind; std::string d; std::vector<double> want; std::string at_ = S("operation %d.%d (%s, code %lld)", t, i, k.c_str(), (long long)r.ret);
        i64 w = op.geti("w", 0);
        if (k == "setup") { mixed[w] = false; if (r.ret == SETUPFAIL) { expect_data(make_problem(p.probs[op.geti("prob", 0)]), 31, want); probe("failed_setup"); if (!data_close(r.data, want, d)) add(v, "setup-data", at_ + ": caller's array " + d); } }
        else if (k == "solve") { expect_data(model_problem(p, b), 4, want); st.nontrivial = true; if (r.ret != OPTIMAL) probe("exit_" + I(r.ret)); if (!data_close(r.data, want, d)) add(v, "c-scaled", at_ + ": cost vector " + d); }
        else if (k == "upd") { if (op.gets("mode", "new") == "mix") mixed[w] = true; if (mixed[w]) return; if (op.gets("mode", "new") == "same") return; expect_data(model_problem(p, b), 31, want); probe("replaced"); if (!data_close(r.data, want, d)) add(v, "upd-data", at_ + ": replaced array " + d); }
        else if (k == "cleanup") { if (mixed[w]) return; expect_data(model_problem(p, b), 31, want); probe("cleaned"); if (!data_close(r.data, want, d)) add(v, "cleanup-data", at_ + ": caller's array " + d); }
        else if (k == "bsetup" || k == "bsolve") {
            Problem P = model_problem(p, a), P0 = make_problem(p.probs[a.prob]); int mask = k == "bsetup" ? 9 : 13; std::vector<double> got = r.data; P.h = P0.h; // h entries go to the library's own copy
            expect_data(P, mask, want); st.nontrivial = true; if (!data_close(got, want, d)) add(v, "bb-data", at_ + ": caller's array " + d);
            // G and h are never touched, not even by rounding
            std::vector<double> g; expect_data(P0, 1, g); if (got.size() >= g.size() && memcmp(got.data(), g.data(), g.size() * 8)) add(v, "bb-G", at_ + ": caller's G was modified");
        }
        else if (k == "bcleanup") { Problem P = model_problem(p, b); P.h = make_problem(p.probs[b.prob]).h; expect_data(P, 31, want); if (!data_close(r.data, want, d)) add(v, "bb-cleanup-data", at_ + ": caller's array " + d); }
    });
    return v;
}

// ---------------------------------------------------------------- C09: memory
static ProbSpec odd_spec(Rng &r) {
    ProbSpec s = cont_spec(r, "opt", 1); int k = (int)r.range(0, 7);
    if (k == 0) { s.n = 1; s.p = 0; s.q.clear(); s.e = 0; s.l = 1; } if (k == 1) { s.l = 0; s.q = {1}; s.e = 0; s.n = 1; s.p = 0; } if (k == 2) { s.l = 0; s.q.clear(); s.e = (int)r.range(1, 2); }
    if (k == 3) { s.q = {1, 1, 2}; } if (k == 4) { s.q = {(int)r.range(5, 12)}; s.l = 0; } if (k == 5) { s.n = 12; s.p = 5; s.dens = 25; } if (k == 6) { s.kind = "weak"; }
    return s;
}
static void gen_C09(Rng &r, Plan &p) {
    p.env = rnd_env(r);
    if (r.chance(0.35)) {
        int slots = r.chance(0.2) ? 2 : 1; p.tasks.assign(1, {}); auto &ops = p.tasks[0];
        for (int s = 0; s < slots; s++) {
            ProbSpec sp = mip_spec(r); if (r.chance(0.2)) { sp.nb = (int)r.range(0, 1); sp.ni = 1 - sp.nb; sp.nc = 0; } p.probs.push_back(sp);
            KV a = bsettings(r, r.chance(0.75)); if (r.chance(0.2)) a.clear(); a["prob"] = I(s); a["w"] = I(s); ops.push_back(mk("bsetup", a));
        }
        for (int k = 0; k < (int)r.range(1, 3); k++) { i64 s = r.range(0, slots - 1); Problem P = make_problem(p.probs[s]); if (r.chance(0.3)) ops.push_back(mk("bupdc", {{"w", I(s)}, {"i", I(r.range(0, P.n - 1))}, {"v", fmtd(r.uni(0.1, 2))}})); if (r.chance(0.3) && P.m) ops.push_back(mk("bupdh", {{"w", I(s)}, {"i", I(r.range(0, P.m - 1))}, {"v", fmtd(r.uni(0.1, 3))}})); ops.push_back(mk("bsolve", {{"w", I(s)}})); }
        for (int s = 0; s < slots; s++) ops.push_back(mk("bcleanup", {{"w", I(s)}, {"keep", I(r.range(0, 4))}}));
    } else {
        Mix x; x.maxops = 4; x.twoslots = 0.3; gen_history(r, p, x, r.chance(0.3) ? 2 : 1);
        if (r.chance(0.4)) { int k = p.probs.size(); p.probs.push_back(odd_spec(r)); auto &ops = p.tasks[0]; ops.push_back(mk("setup", {{"w", "7"}, {"prob", I(k)}})); if (r.chance(0.8)) { if (r.chance(0.5)) ops.push_back(mk("set", {{"w", "7"}, {"maxit", I(r.range(0, 3))}})); ops.push_back(mk("solve", {{"w", "7"}})); } ops.push_back(mk("cleanup", {{"w", "7"}, {"keep", I(r.range(0, 4))}})); }
        if (r.chance(0.25)) p.tasks[0].push_back(mk("setup", {{"w", "6"}, {"prob", "0"}, {r.chance(0.5) ? "dup" : "dl", "1"}}));
    }
    gen_faults(r, p, r.chance(0.6) ? 0.4 : 0, r.chance(0.6) ? 0.4 : 0);
}
static Viols run_C09(const Plan &p, RunStat &st) {
    Viols v; History h; exec(p, h); st.covhash = h.covhash; if (!basic(p, h, v, true)) return v;
    walk(p, h, [&](const Op &op, int t, int i, const Rec &r, const Model &, const Model &) {
        if (r.ret == NA) return;
        if (op.kind == "cleanup" || op.kind == "bcleanup") { st.nontrivial = true; if (op.geti("keep", 0)) probe("kept"); }
        if (op.kind == "solve" || op.kind == "bsolve" || op.kind == "upd" || op.kind == "updh" || op.kind == "updc" || op.kind == "bupdh" || op.kind == "bupdc") if (r.netalloc) add(v, "retained", S("operation %d.%d (%s, code %lld) changed the number of live blocks by %lld", t, i, op.kind.c_str(), (long long)r.ret, (long long)r.netalloc));
        if ((op.kind == "setup" || op.kind == "bsetup") && r.ret == SETUPFAIL) { probe("failed_setup"); if (r.netalloc) add(v, "setup-leak", S("operation %d.%d: a failed setup left %lld blocks", t, i, (long long)r.netalloc)); }
    });
    return v;
}

// ---------------------------------------------------------------- C10: rejected setups
static void gen_C10(Rng &r, Plan &p) {
    p.env = rnd_env(r); p.tasks.assign(1, {}); auto &ops = p.tasks[0];
    bool other = r.chance(0.4);
    p.probs.push_back(cont_spec(r, "opt")); p.probs.push_back(cont_spec(r, "opt")); bool bb = r.chance(0.15); if (bb) p.probs[1] = mip_spec(r);
    const char *st = bb ? "bsetup" : "setup", *so = bb ? "bsolve" : "solve", *cl = bb ? "bcleanup" : "cleanup";
    if (other) { ops.push_back(mk("setup", {{"w", "0"}, {"prob", "0"}})); if (r.chance(0.5)) ops.push_back(mk("solve", {{"w", "0"}})); }
    int nf = (int)r.range(1, 3);
    for (int k = 0; k < nf; k++) {
        KV a{{"w", "1"}, {"prob", "1"}}; int how = (int)r.range(0, 3);
        if (how == 0) { int z = (int)r.range(0, bb ? 0 : 2); a[z == 0 ? "dl" : z == 1 ? "de" : "dq"] = I(r.chance(0.5) ? 1 : r.range(1, 3)); if (p.probs[1].q.empty() && z == 2) { a.erase("dq"); a["dl"] = "2"; } }
        else if (how == 1) a["dup"] = I(1 + r.range(0, 5));
        else { Fault f; f.kind = "amdoom"; f.op = (int)ops.size(); f.nth = r.range(1, 4); f.cnt = r.chance(0.7) ? 1 : -1; p.faults.push_back(f); }
        ops.push_back(mk(st, a)); if (how >= 2) ops.push_back(mk(cl, {{"w", "1"}}));
    }
    if (r.chance(0.06)) { Fault f; f.kind = "oom"; f.op = (int)ops.size(); f.nth = r.range(1, 60); f.cnt = r.chance(0.5) ? 1 : -1; p.faults.push_back(f); ops.push_back(mk(st, {{"w", "6"}, {"prob", "1"}})); ops.push_back(mk(cl, {{"w", "6"}})); }
    ops.push_back(mk(st, {{"w", "1"}, {"prob", "1"}})); ops.push_back(mk(so, {{"w", "1"}})); ops.push_back(mk(cl, {{"w", "1"}}));
    if (other) { ops.push_back(mk("solve", {{"w", "0"}})); ops.push_back(mk("cleanup", {{"w", "0"}})); }
}
static Viols run_C10(const Plan &p, RunStat &st) {
    Viols v; History h; exec(p, h); st.covhash = h.covhash; if (!basic(p, h, v, true)) return v;
    walk(p, h, [&](const Op &op, int t, int i, const Rec &r, const Model &b, const Model &) {
        if (r.ret == NA) return;
        std::string at_ = S("operation %d.%d", t, i);
        if (op.kind == "setup" || op.kind == "bsetup") {
            bool bad = op.a.count("dl") || op.a.count("de") || op.a.count("dq") || (op.a.count("dup") && h.fired.count("dup") && !h.fired.count("dup_na"));
            bool amd = false; for (auto &f : p.faults) if (f.task == t && f.op == i && f.kind == "amdoom" && r.namd >= f.nth) amd = true;
            if (bad && r.ret != SETUPFAIL) add(v, "accepted", at_ + ": setup accepted malformed input");
            if (amd) { probe("amd_oom"); if (r.ret != SETUPFAIL) add(v, "oom-accepted", at_ + ": setup succeeded although the ordering ran out of memory"); }
            bool anyf = has_fault(p, t, i);
            if (!bad && !amd && !anyf && !op.a.count("dup") && r.ret == SETUPFAIL) add(v, "refused", at_ + ": setup refused well-formed input");
            if (r.ret == SETUPFAIL) {
                st.nontrivial = true; probe(op.a.count("dup") ? "rej_dup" : bad ? "rej_dims" : "rej_oom");
                if (r.netalloc) add(v, "setup-leak", at_ + S(": a failed setup left %lld blocks allocated", (long long)r.netalloc));
                Problem P = make_problem(p.probs[op.geti("prob", 0)]); std::vector<double> want; std::string d; expect_data(P, op.kind == "setup" ? 31 : 9, want);
                if (!data_close(r.data, want, d)) add(v, "setup-data", at_ + ": after a failed setup the caller's array " + d);
            }
        }
        if (op.kind == "solve" && !b.bb) { compare_fresh(p, b, r, v, "afterfail"); oracle_optimal(p, b, model_problem(p, b), r, v); }
        if (op.kind == "bsolve") oracle_mip(p, b, r, v, false, false);
    });
    return v;
}

// ---------------------------------------------------------------- C11..C14: mixed-integer
static void gen_bb(const std::string &id, Rng &r, Plan &p) {
    p.env = rnd_env(r); p.tasks.assign(1, {}); auto &ops = p.tasks[0];
    ProbSpec s = mip_spec(r, id == "C11" ? 1 : r.chance(0.5) ? 1 : 0); if (r.chance(0.03)) many_free(r, s);
    if (r.chance(id == "C14" ? 0.005 : 0.02)) { s.nb = (int)r.range(4, 9); s.nc = (int)r.range(0, 4); s.ncon = (int)r.range(1, 6); }
    p.probs.push_back(s); Problem P = make_problem(s);
    KV a = bsettings(r, id == "C13" || (id == "C14" && r.chance(0.3))); a["prob"] = "0";
    if (id == "C12" && r.chance(0.3)) a["maxit"] = I(r.range(3, 40));
    cap_nodes(s, a); ops.push_back(mk("bsetup", a));
    i64 mx = a.count("maxit") ? atoi(a["maxit"].c_str()) : 1000;
    auto upd = [&]() {
        std::vector<int> rows; for (int x : P.linrow) rows.push_back(x); for (int x : P.lorow) rows.push_back(x); for (int x : P.hirow) rows.push_back(x);
        if (!rows.empty() && r.chance(0.65)) {
            int i = r.pick(rows); double v; bool lin = false; for (int x : P.linrow) lin |= x == i;
            if (lin) v = floor(P.h[i]) + (double)r.range(-1, 2) + 0.5; else { v = P.h[i] + (double)r.range(-1, 1); }
            if (r.chance(0.25)) v = P.h[i];
            KV a = {{"i", I(i)}, {"v", fmtd(v)}}; if (lin && r.chance(0.12)) a["raw"] = "1";
            ops.push_back(mk("bupdh", a));
        } else {
            bool epi = !P.epis.empty() && r.chance(0.3);
            if (epi) { auto &E = r.pick(P.epis); ops.push_back(mk("bupdc", {{"i", I(E.col)}, {"v", fmtd(E.type == 4 ? r.uni(-2, 2) : r.uni(0.3, 2))}})); }
            else { std::vector<i64> cols = P.boolv; cols.insert(cols.end(), P.intv.begin(), P.intv.end()); ops.push_back(mk("bupdc", {{"i", I(r.pick(cols))}, {"v", fmtd(r.uni(-3, 3))}})); }
        }
    };
    int ns = id == "C11" ? (int)r.range(1, 2) : id == "C14" ? (int)r.range(2, 4) : (int)r.range(1, 3);
    for (int k = 0; k < ns; k++) {
        if (k && (id == "C14" || (id == "C11" && r.chance(0.5)) || r.chance(0.25))) { int c = (int)r.range(1, 3); while (c--) upd(); }
        if (id == "C13" && k && r.chance(0.6)) ops.push_back(mk("bset", {{"maxit", I(r.range(1, mx))}}));
        if (k && r.chance(0.25)) ops.push_back(mk("bset", {{"strat", I(r.range(0, 4))}, {"node", I(r.range(0, 2))}}));
        ops.push_back(mk("bsolve"));
    }
    if (id == "C14") ops.push_back(mk("bset", {{"maxit", I(mx)}})), upd(), ops.push_back(mk("bsolve"));
    if (id == "C12") ops.push_back(mk("bsolve")); // undisturbed
    ops.push_back(mk("bcleanup", {{"keep", I(r.chance(0.7) ? 0 : r.range(1, 4))}}));
    if (id == "C11" || id == "C13") return;
    History h; exec_plan(p, h); if (h.crashed || h.hang) return;
    for (size_t i = 0; i < ops.size(); i++) if (ops[i].kind == "bsolve") {
        if ((id == "C12" || id == "C14") && i + 2 >= ops.size()) continue; // the last solve is undisturbed
        const Rec *b = h.find(0, (int)i); if (!b || b->ret == NA) continue;
        double u = r.unit();
        if (id == "C14" && u > 0.35) continue;
        if (r.chance(0.55)) { int c = r.chance(0.15) ? 2 : 1; while (c--) p.faults.push_back(place(r, "sigint", 0, (int)i, *b)); }
        else {
            int c = (int)r.range(1, 3);
            while (c--) p.faults.push_back(kkt_fault(r, 0, (int)i, *b));
        }
    }
}
static Viols run_bb(const Plan &p, RunStat &st) {
    Viols v; History h; exec(p, h); st.covhash = h.covhash; const std::string &id = p.check;
    if (!basic(p, h, v)) return v;
    if (h.killed) { add(v, "killed", "the process was killed by SIGINT although the application handles it"); return v; }
    int cmp = 0; Plan q = p; q.faults.clear(); History hb; bool haveb = false;
    walk(p, h, [&](const Op &op, int t, int i, const Rec &r, const Model &b, const Model &) {
        if (op.kind != "bsolve" || r.ret == NA) return;
        i64 mx = b.bset.count("maxit") ? atoi(b.bset.at("maxit").c_str()) : 1000;
        bool dist = false; for (auto &f : p.faults) if (f.task == t && f.op == i) dist = true;
        bool lib = false; i64 facts = 0;
        for (auto &s : h.sigs) if (s.task == t && s.op == i && s.disp == 3) { if (!lib) facts = s.nf; lib = true; }
        std::string at_ = S("bsolve %d.%d (code %lld, %lld nodes)", t, i, (long long)r.ret, (long long)r.iter);
        oracle_mip(p, b, r, v, dist, mx < 200);
        if (r.ret == SIGINTX && !lib) add(v, "spurious-sigint", at_ + ": SIGINT code without a signal");
        if (lib) { probe("bb_sigint"); st.nontrivial = true; if (r.nfact > facts + 3) add(v, "bb-not-prompt", at_ + S(": %lld factorizations after SIGINT", (long long)(r.nfact - facts))); }
        if (dist) st.nontrivial = true;
        if (r.iter > std::max<i64>(0, mx)) add(v, "budget", at_ + S(": %lld nodes expanded, budget %lld", (long long)r.iter, (long long)mx));
        if (id == "C13") {
            st.nontrivial = true; oracle_bb_stats(p, b, r, v);
            if (r.iter > 0) probe("branched"); if (mx <= 3) probe("tiny_budget");
            bool lim = r.ret == MI_MAXFEAS || r.ret == MI_MAXNO;
            if (lim && r.iter < mx - 1 && r.nbad + r.ninacc > 0) probe("bb_unresolved"); else if (lim && r.iter < mx - 1) add(v, "early", at_ + S(": budget exit after %lld of %lld nodes", (long long)r.iter, (long long)mx));
            if (r.iter >= mx - 1) probe("budget_hit");
        }
        if (id == "C11") { if (r.iter > 0) st.nontrivial = true, probe("branched"); }
        if (id == "C14" && !dist && b.solves > 0 && cmp < 3) {
            cmp++; st.nontrivial = true; Plan fq = fresh_plan(p, b, 0); if (b.bset.count("maxit")) { } History hf; exec(fq, hf); if (!basic(fq, hf, v)) return;
            const Rec *f = solve_rec(fq, hf); if (!f) return;
            bool full = r.ret <= 2 && f->ret <= 2 && r.ret >= 0;
            if (f->ret != r.ret && (full || (mx >= 200 && !make_problem(p.probs[b.prob]).unb))) { // where c'x has no limit, either search may run out of nodes
                // a relaxation the solver cannot solve leaves the result open; that happens on isolated instances, in either workspace:
                // a difference that comes from it counts only when it stays for other costs
                bool weak = (r.ret >= MI_MAXFEAS && r.nbad + r.ninacc > 0) || (f->ret >= MI_MAXFEAS && f->nbad + f->ninacc > 0); int same = 0;
                for (int k = 0; weak && k < 4; k++) {
                    Plan q = p; auto &o = q.tasks[t]; o.resize(i + 1); o.insert(o.begin() + i, mk("bupdc", {{"i", "0"}, {"v", fmtd(0.37 + 0.61 * k - (k & 1) * 2.3)}}));
                    std::vector<Fault> fs; for (auto &ff : q.faults) if (ff.op < i || ff.task != t) fs.push_back(ff); q.faults = fs;
                    History ha; exec(q, ha); const Rec *a = ha.find(t, i + 1); if (!a || a->ret == NA) { same++; continue; }
                    Plan gq = fq; auto &g = gq.tasks[0]; for (size_t j = 0; j < g.size(); j++) if (g[j].kind == "bsolve") { g.insert(g.begin() + j, o[i]); break; }
                    History hg; exec(gq, hg); const Rec *ga = solve_rec(gq, hg); if (!ga || ga->ret == a->ret) same++;
                }
                if (weak && same) probe("weak_relaxation_resolve");
                else add(v, "bb-resolve-code", at_ + S(": a fresh workspace returns %lld", (long long)f->ret));
            }
        }
    });
    (void)haveb; (void)hb;
    return v;
}

// ---------------------------------------------------------------- C15: times
static void gen_C15(Rng &r, Plan &p) {
    p.env = rnd_env(r); p.env.out = r.chance(0.3) ? 2 : 0; if (r.chance(0.1)) p.env.base = r.range(1, 1ll << 55);
    Mix x; x.maxops = 3; x.pinf = x.dinf = 0.15; gen_history(r, p, x);
    if (p.env.out == 2) { auto &ops = p.tasks[0]; std::vector<Op> o2; for (auto &op : ops) { o2.push_back(op); if (op.kind == "setup" && r.chance(0.7)) o2.push_back(mk("set", {{"w", op.gets("w", "0")}, {"verbose", "1"}})); } ops = o2; }
    gen_faults(r, p, r.chance(0.5) ? 0.5 : 0, r.chance(0.5) ? 0.4 : 0);
    Plan q = p; History h; exec_plan(q, h); if (h.crashed || h.hang) return;
    for (size_t i = 0; i < p.tasks[0].size(); i++) {
        const Op &op = p.tasks[0][i]; if (op.kind != "setup" && op.kind != "solve") continue;
        const Rec *b = h.find(0, (int)i); if (!b || b->ret == NA) continue;
        if (r.chance(0.45)) { Fault f; f.kind = "clockjump"; f.op = (int)i; f.tick = r.range(std::max<i64>(1, b->k1 / 5), std::max<i64>(1, b->k1 * 4 / 5)); f.delta = (i64)pow(10, r.uni(3, 11)); if (r.chance(0.3)) f.delta = 1000000000ll * r.range(1, 50); p.faults.push_back(f); }
        if (r.chance(0.3)) { Fault f; f.kind = "walljump"; f.op = (int)i; f.tick = r.range(1, std::max<i64>(1, b->k1)); f.delta = r.signedmag(1e6, 1e13); p.faults.push_back(f); }
        if (r.chance(0.2)) { p.tasks[0].insert(p.tasks[0].begin() + i, mk("sleep", {{"ns", I((i64)pow(10, r.uni(2, 11)))}})); for (auto &f : p.faults) if (f.op >= (int)i) f.op++; Plan q2 = p; History h2; exec_plan(q2, h2); if (h2.crashed || h2.hang) return; h = h2; i++; }
    }
}
static Viols run_C15(const Plan &p, RunStat &st) {
    Viols v; History h; exec(p, h); st.covhash = h.covhash; if (!basic(p, h, v)) return v;
    std::map<i64, double> ts;
    walk(p, h, [&](const Op &op, int t, int i, const Rec &r, const Model &b, const Model &) {
        if (r.ret == NA || r.ret == SETUPFAIL) return;
        bool su = op.kind == "setup"; if (!su && op.kind != "solve") return;
        st.nontrivial = true; i64 J = 0; for (auto &f : p.faults) if (f.task == t && f.op == i && f.kind == "clockjump" && f.tick <= r.k1) J += f.delta;
        i64 el = r.t1 - r.t0; double rep = (su ? r.tsetup : r.tsolve) * 1e9, unit = p.env.tick + p.env.read;
        double prec = 2 + 1e-6 * 0 + fabs(rep) * 1e-12 + 2;
        std::string at_ = S("%s %d.%d (code %lld)", su ? "setup" : "solve", t, i, (long long)r.ret);
        if (r.ret) probe("exit_" + I(r.ret)); if (J) probe("jump"); if ((r.t0 / 1000000000) != (r.t1 / 1000000000)) probe("second_boundary");
        // work outside the measured interval (entry, exit): a fixed allowance plus 30% of the non-jump time
        double slack = 5000 * unit + 0.3 * (double)(el - J) + (p.env.out == 2 ? 4e6 : 0);
        if (!(rep <= el + prec)) add(v, su ? "tsetup-high" : "tsolve-high", at_ + S(": reported %.0f ns, elapsed %lld ns", rep, (long long)el));
        else if (!(rep >= 0) || !(rep >= el - slack - prec)) add(v, su ? "tsetup-low" : "tsolve-low", at_ + S(": reported %.0f ns, elapsed %lld ns", rep, (long long)el));
        if (su) ts[op.geti("w", 0)] = r.tsetup; else if (r.tsetup != ts[op.geti("w", 0)]) add(v, "tsetup-changed", at_ + ": the solve changed the reported setup time");
        (void)b;
    });
    return v;
}

// ---------------------------------------------------------------- dispatch

// ---------------------------------------------------------------- C19: the printed report
static void gen_C19(Rng &r, Plan &p) {
    p.env = rnd_env(r); p.env.out = r.chance(0.7) ? 0 : (int)r.range(1, 3);
    if (r.chance(0.25)) { gen_bb(r.chance(0.5) ? "C13" : "C12", r, p); for (auto &op : p.tasks[0]) if (op.kind == "bsetup") op.a["verbose"] = r.chance(0.8) ? "1" : "0"; return; }
    Mix x; x.maxops = 4; x.pinf = x.dinf = 0.18; x.settings = 0.5; gen_history(r, p, x, r.chance(0.2) ? 2 : 1);
    bool off = r.chance(0.12); // silent throughout
    std::vector<Op> o2; for (auto &op : p.tasks[0]) { if (op.kind == "solve" && !off) o2.push_back(mk("set", {{"w", op.gets("w", "0")}, {"verbose", I(r.chance(0.85) ? 1 : 0)}})); o2.push_back(op); } p.tasks[0] = o2;
    gen_faults(r, p, r.chance(0.6) ? 0.6 : 0, r.chance(0.5) ? 0.5 : 0);
}
static size_t count_of(const std::string &t, const std::string &w, size_t *at = nullptr) { size_t n = 0, k = 0; while ((k = t.find(w, k)) != std::string::npos) { if (at) *at = k; n++; k += w.size(); } return n; }
static std::string words(const std::string &t, int n) { // the first n words, without the sign of a NaN
    std::string o; size_t k = 0; while (n-- && k < t.size()) { while (k < t.size() && t[k] == ' ') k++; size_t e = k; while (e < t.size() && t[e] != ' ') e++; std::string w = t.substr(k, e - k); size_t x; while ((x = w.find("-nan")) != std::string::npos || (x = w.find("+nan")) != std::string::npos) w.erase(x, 1); o += w + " "; k = e; } return o; }
static void oracle_report(const Rec &r, const Model &b, const std::string &at_, Viols &v) {
    std::string T; for (char c : r.text) if (c != 8) T += c; // the backspaces that wipe a progress line on a terminal
    struct { const char *w; i64 code; int nums; } W[] = {{"\nOPTIMAL (within ", 0, 3}, {"\nClose to OPTIMAL (within ", 10, 3}, {"\nPRIMAL INFEASIBLE (within ", 1, 1}, {"\nClose to PRIMAL INFEASIBLE (within ", 11, 1}, {"\nUNBOUNDED (within ", 2, 2}, {"\nClose to UNBOUNDED (within ", 12, 2},
        {"NUMERICAL PROBLEMS (reached ", -2, 3}, {"\nINTERRUPTED (reached ", -4, 3}, {"\nRAN OUT OF ITERATIONS (reached ", -1, 3}};
    int n = 0; size_t pos = 0; i64 code = 0; int nums = 0; std::string said;
    for (auto &w : W) { size_t a; size_t k = count_of(T, w.w, &a); n += (int)k; if (k) { pos = a; code = w.code; nums = w.nums; said = w.w; } }
    for (auto &c : said) if (c == '\n') c = ' ';
    if (r.ret == FATAL) { if (n || !count_of(T, "aborting")) add(v, "report-verdict", at_ + ": the printed report does not say that the solve was aborted"); }
    else if (n != 1) add(v, "report-verdict", at_ + S(": %d verdicts printed", n));
    else if (code != r.ret && !(code == NUMERICS && r.ret == OUTCONE)) add(v, "report-verdict", at_ + S(": the printed verdict is '%s...'", said.c_str()));
    else {
        auto f = [](double d) { return S("%3.1e", d); }; std::string l = T.substr(pos + 1, T.find('\n', pos + 1) - pos - 1);
        std::vector<std::string> ok; double pr = r.info[IN_PRES], dr = r.info[IN_DRES];
        if (nums == 1) ok = {"feastol=" + f(r.info[IN_PINFRES])}; else if (nums == 2) ok = {"feastol=" + f(r.info[IN_DINFRES])};
        else { std::string e = ", reltol=" + f(r.info[IN_RELGAP]) + ", abstol=" + f(r.info[IN_GAP]); if (std::isnan(pr) || std::isnan(dr)) ok = {"feastol=" + f(pr) + e, "feastol=" + f(dr) + e}; else ok = {"feastol=" + f(std::max(pr, dr)) + e}; }
        bool good = false; for (auto &s : ok) good |= words(l, 99).find(words(s, 99).substr(0, words(s, 99).size() - 1)) != std::string::npos;
        if (!good) add(v, "report-numbers", at_ + S(": printed '%s', reported statistics give '%s'", l.c_str(), ok[0].c_str()));
    }
    // one line per iterate, numbered from 0; the line of the returned iterate (the last one or the one recovered) shows its statistics
    i64 mx = b.set.count("maxit") ? atoi(b.set.at("maxit").c_str()) : 100; size_t q = 0, a; std::vector<std::string> lines;
    while (q < T.size()) {
        size_t e = T.find('\n', q); if (e == std::string::npos) e = T.size(); std::string l = T.substr(q, e - q); q = e + 1;
        char *ep; long it = strtol(l.c_str(), &ep, 10); if (ep == l.c_str() || strncmp(ep, "  ", 2)) continue;
        while (*ep == ' ') ep++; if (!strchr("+-ni", *ep) || !*ep) continue;
        if (it != (long)lines.size()) { add(v, "report-lines", at_ + S(": progress line %ld where %zu is due", it, lines.size())); return; }
        lines.push_back(l);
    }
    if ((i64)lines.size() - 1 > mx) add(v, "report-lines", at_ + S(": %zu progress lines, the iteration limit is %lld", lines.size(), (long long)mx));
    if (lines.empty() ? r.ret != FATAL : (i64)lines.size() - 1 != r.iter) add(v, "report-lines", at_ + S(": %zu progress lines for %lld iterations", lines.size(), (long long)r.iter));
    else if (!lines.empty()) {
        i64 k = r.iter; if (count_of(T, "recovering best iterate (", &a)) k = atol(T.c_str() + a + 25);
        std::string want = S("%2d  %+5.3e  %+5.3e  %+2.0e  %2.0e  %2.0e  %2.0e  %2.0e", (int)k, r.info[IN_PCOST], r.info[IN_DCOST], r.info[IN_GAP], r.info[IN_PRES], r.info[IN_DRES], r.info[IN_KAPOVERT], r.info[IN_MU]);
        if (k < 0 || k >= (i64)lines.size() || words(lines[k], 8) != words(want, 8)) add(v, "report-line", at_ + S(": the line of the returned iterate is '%s', its statistics are '%s'", k < 0 || k >= (i64)lines.size() ? "" : lines[k].c_str(), want.c_str()));
    }
    if (count_of(T, "Runtime: ", &a)) { std::string w = S("%f seconds", r.tsetup + r.tsolve); if (T.compare(a + 9, w.size(), w)) add(v, "report-runtime", at_ + S(": printed '%s', the reported times sum up to %s", T.substr(a, 40).c_str(), w.c_str())); }
    else if (r.ret != FATAL) add(v, "report-runtime", at_ + ": no runtime printed");
}
static void oracle_bbreport(const Rec &r, const std::string &at_, Viols &v) {
    const std::string &T = r.text; size_t q = 0; i64 next = 0; double U = INFINITY; std::string last;
    while (q < T.size()) {
        size_t e = T.find('\n', q); if (e == std::string::npos) e = T.size(); std::string l = T.substr(q, e - q); q = e + 1;
        char *ep; long it = strtol(l.c_str(), &ep, 10); if (ep == l.c_str() || strncmp(ep, " \t", 2)) continue;
        if (it != next) { add(v, "report-bb-lines", at_ + S(": progress line %ld where %lld is due", it, (long long)next)); return; }
        next++; last = l; double lo = strtod(ep, &ep), up = strtod(ep, &ep); (void)lo;
        if (up > U + 0.011) add(v, "report-bb-bound", at_ + S(": the printed upper bound rises to '%s'", l.c_str()));
        if (up < U) U = up;
    }
    if (!next) { add(v, "report-bb-lines", at_ + ": no progress printed"); return; }
    std::string want = S("%u \t%.2f \t\t%.2f \t\t%.2f", (int)r.iter, r.gL, r.gU, r.gU - r.gL);
    if (words(last, 99) != words(want, 99)) add(v, "report-bb-last", at_ + S(": the last progress line is '%s', the search ended with '%s'", last.c_str(), want.c_str()));
}
static Viols run_C19(const Plan &p, RunStat &st) {
    Viols v; History h; exec(p, h); st.covhash = h.covhash; if (!basic(p, h, v)) return v;
    walk(p, h, [&](const Op &op, int t, int i, const Rec &r, const Model &b, const Model &) {
        if (r.ret == NA || r.ret == SETUPFAIL) return;
        bool bb = op.kind == "bsolve"; if (!bb && op.kind != "solve") { return; }
        auto &s = bb ? b.bset : b.set; bool on = s.count("verbose") && s.at("verbose") != "0"; std::string at_ = S("%s %d.%d (code %lld, iteration %lld)", op.kind.c_str(), t, i, (long long)r.ret, (long long)r.iter);
        if (!on) { probe("silent"); if (r.outbytes) add(v, "report-silent", at_ + S(": %lld bytes printed although verbose is off", (long long)r.outbytes)); return; }
        st.nontrivial = true; probe(S("%s_ret_%lld", bb ? "mip" : "ipm", (long long)r.ret)); if (r.text.find("recovering best") != std::string::npos) probe("recovered");
        if (r.text.size() >= 390000) return; // not recorded in full
        if (bb) oracle_bbreport(r, at_, v); else oracle_report(r, b, at_, v);
    });
    return v;
}

bool check_exists(const std::string &id) { static const std::set<std::string> s{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"}; return s.count(id) > 0; }
void gen_plan(const std::string &id, u64 seed, Plan &p) {
    p = Plan(); p.check = id; p.seed = seed; RunStat *o = g_st; g_st = nullptr;
    Rng r(mix64(seed, (u64)atoi(id.c_str() + 1) * 7919));
    if (id == "C01" || id == "C02" || id == "C07" || id == "C16" || id == "C17") gen_cont(id, r, p);
    else if (id == "C03") gen_C03(r, p); else if (id == "C04") gen_C04(r, p); else if (id == "C05") gen_C05(r, p); else if (id == "C06") gen_C06(r, p);
    else if (id == "C08") gen_C08(r, p); else if (id == "C09") gen_C09(r, p); else if (id == "C10") gen_C10(r, p); else if (id == "C15") gen_C15(r, p); else if (id == "C18") gen_C18(r, p); else if (id == "C19") gen_C19(r, p);
    else gen_bb(id, r, p);
    g_st = o;
}
std::vector<Viol> run_check(const Plan &p, RunStat &st) {
    g_st = &st; Viols v; const std::string &id = p.check;
    if (p.tasks.empty()) { g_st = nullptr; return v; }
    if (id == "C01" || id == "C02" || id == "C07" || id == "C16" || id == "C17") v = run_cont(p, st);
    else if (id == "C03") v = run_C03(p, st); else if (id == "C04") v = run_C04(p, st); else if (id == "C05") v = run_C05(p, st); else if (id == "C06") v = run_C06(p, st);
    else if (id == "C08") v = run_C08(p, st); else if (id == "C09") v = run_C09(p, st); else if (id == "C10") v = run_C10(p, st); else if (id == "C15") v = run_C15(p, st); else if (id == "C18") v = run_C18(p, st); else if (id == "C19") v = run_C19(p, st);
    else v = run_bb(p, st);
    g_st = nullptr; return v;
}
