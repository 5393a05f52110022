// Problem generators with known ground truth, and the brute-force MIP reference.
#include "common.h"

static void dense_to_csc(const std::vector<std::vector<double>> &M, i64 rows, i64 cols, std::vector<double> &pr, std::vector<i64> &jc, std::vector<i64> &ir) {
    pr.clear(); ir.clear(); jc.assign(cols + 1, 0);
    for (i64 j = 0; j < cols; j++) {
        for (i64 i = 0; i < rows; i++) if (M[i][j] != 0) { pr.push_back(M[i][j]); ir.push_back(i); }
        jc[j + 1] = (i64)pr.size();
    }
}
static void cone_interior(Rng &r, const Problem &P, std::vector<double> &s, bool dual, double lo = 0.2) {
    s.clear();
    for (i64 i = 0; i < P.l; i++) s.push_back(r.uni(lo, 2));
    for (i64 k = 0; k < P.ncones; k++) {
        std::vector<double> u; double nn = 0;
        for (i64 i = 1; i < P.q[k]; i++) { u.push_back(r.uni(-1, 1)); nn += u.back() * u.back(); }
        s.push_back(sqrt(nn) + r.uni(lo, 2));
        for (double v : u) s.push_back(v);
    }
    for (i64 k = 0; k < P.nex; k++) {
        if (!dual) { double x2 = r.uni(.4, 2), x3 = r.uni(.4, 2); s.push_back(x3 * log(x2 / x3) - r.uni(lo, 1.2)); s.push_back(x2); s.push_back(x3); }
        else { double z1 = -r.uni(.4, 2), z2 = r.uni(.4, 2); s.push_back(z1); s.push_back(z2); s.push_back(z1 + z1 * log(-z2 / z1) + r.uni(lo, 1.2)); }
    }
}
typedef std::vector<std::vector<double>> Mat;
static double val(Rng &r) { return r.signedmag(0.2, 2.0); }

static Problem make_cont(const ProbSpec &sp) {
    // the pattern stream and the number stream are separate, so that specs
    // that differ only in 'var' share their sparsity pattern
    Rng pat(sp.seed * 2 + 1), r(mix64(sp.seed * 2 + 11, sp.var + 1));
    Problem P;
    P.n = std::max(1, sp.n); P.l = std::max(0, sp.l); P.nex = std::max(0, sp.e);
    for (int v : sp.q) P.q.push_back(std::max(1, v));
    P.ncones = P.q.size();
    P.m = P.l + 3 * P.nex; for (i64 v : P.q) P.m += v;
    const bool eqonly = sp.l < 0 && P.m == 0 && sp.p > 0; // l=-1: equality constraints only
    const std::string kind = eqonly ? "opt" : sp.kind;
    if (P.m == 0 && !eqonly) { P.l = 1; P.m = 1; }
    P.p = std::max<i64>(0, std::min<i64>(sp.p, eqonly ? P.n : P.n - 1));
    P.hasA = P.p > 0;
    const i64 n = P.n, m = P.m, p = P.p;
    Mat G(m, std::vector<double>(n, 0)), A(p, std::vector<double>(n, 0));
    double dens = sp.dens / 100.0;
    std::vector<std::vector<char>> gp(m, std::vector<char>(n, 0)), ap(p, std::vector<char>(n, 0));
    for (i64 i = 0; i < m; i++) for (i64 j = 0; j < n; j++) gp[i][j] = pat.chance(dens);
    for (i64 j = 0; j < n; j++) { bool any = false; for (i64 i = 0; i < m; i++) any |= gp[i][j]; if (!any && m) gp[pat.range(0, m - 1)][j] = 1; }
    for (i64 i = 0; i < m; i++) { bool any = false; for (i64 j = 0; j < n; j++) any |= gp[i][j]; if (!any && pat.chance(0.7)) gp[i][pat.range(0, n - 1)] = 1; }
    std::vector<i64> perm(n); for (i64 i = 0; i < n; i++) perm[i] = i;
    for (i64 i = 0; i < n; i++) std::swap(perm[i], perm[pat.range(i, n - 1)]);
    for (i64 i = 0; i < p; i++) for (i64 j = 0; j < n; j++) ap[i][j] = pat.chance(dens);
    for (i64 i = 0; i < p; i++) { for (i64 k = 0; k < p; k++) if (k != i) ap[i][perm[k]] = ap[i][perm[k]] && pat.chance(0.3); ap[i][perm[i]] = 1; }
    if (sp.lat & 4 && p > 1) { ap[0][perm[p - 1]] = 1; ap[p - 1] = ap[0]; } // the same pattern for every kind
    // infeasible / unbounded constructions change one row / one entry per row
    i64 lastrow = pat.range(0, std::max<i64>(0, P.l - 1));  // an LP row or the head of the first cone: its multiplier is bounded away from 0
    i64 raycol = pat.range(0, n - 1);
    if (kind == "pinf") for (i64 j = 0; j < n; j++) gp[lastrow][j] = 1;
    if (kind == "dinf") { for (i64 i = 0; i < m; i++) gp[i][raycol] = 1; for (i64 i = 0; i < p; i++) ap[i][perm[i]] = 1; }

    auto ival = [&]() { double v = r.chance(0.75) ? 1 : 2; return r.chance(0.5) ? v : -v; };
    for (i64 i = 0; i < m; i++) for (i64 j = 0; j < n; j++) if (gp[i][j]) G[i][j] = sp.lat & 1 ? ival() : val(r);
    for (i64 i = 0; i < p; i++) for (i64 j = 0; j < n; j++) if (ap[i][j]) A[i][j] = sp.lat & 1 ? ival() : val(r) * (j == perm[i] ? 2 : 0.7);
    if (sp.lat & 4 && p > 1 && kind != "dinf") { A[p - 1] = A[0]; if (sp.lat & 1) for (auto &v : A[p - 1]) v = -v; }
    if (sp.scale > 0) { // mild bad scaling of rows (cone-wise) and columns
        double e = sp.scale / 10.0;
        for (i64 j = 0; j < n; j++) { double f = pow(10.0, r.uni(-e, e)); for (i64 i = 0; i < m; i++) G[i][j] *= f; for (i64 i = 0; i < p; i++) A[i][j] *= f; }
        for (i64 i = 0; i < p; i++) { double f = pow(10.0, r.uni(-e, e)); for (i64 j = 0; j < n; j++) A[i][j] *= f; }
        i64 row = 0;
        auto sc = [&](i64 k) { double f = pow(10.0, r.uni(-e, e)); for (i64 t = 0; t < k; t++, row++) for (i64 j = 0; j < n; j++) G[row][j] *= f; };
        for (i64 i = 0; i < P.l; i++) sc(1);
        for (i64 v : P.q) sc(v);
        for (i64 i = 0; i < P.nex; i++) sc(3);
    }
    std::vector<double> s0, z0, x0(n), y0(p);
    cone_interior(r, P, s0, false); cone_interior(r, P, z0, true);
    for (auto &v : x0) v = r.uni(-1, 1);
    for (auto &v : y0) v = r.uni(-1, 1);
    const bool degen = sp.lat & 2 && kind == "opt";
    if (degen) { // integer points, many of them on the boundary of their cones
        for (auto &v : x0) v = (double)r.range(-1, 1);
        for (auto &v : y0) v = (double)r.range(-1, 1);
        for (int d = 0; d < 2; d++) {
            auto &t = d ? z0 : s0; i64 row = 0;
            for (; row < P.l; row++) t[row] = r.chance(0.5) ? 0 : (double)r.range(1, 2);
            for (i64 v : P.q) {
                double nn = 0; bool zero = r.chance(0.3);
                for (i64 k = 1; k < v; k++) { t[row + k] = zero ? 0 : (double)r.range(-2, 2); nn += t[row + k] * t[row + k]; }
                t[row] = sqrt(nn); if (!zero && r.chance(0.5)) t[row] = ceil(sqrt(nn)) + (double)r.range(0, 1);
                row += v;
            }
            for (i64 k = 0; k < P.nex; k++, row += 3) if (r.chance(0.5)) { // a face of the cone, or the interior point chosen above
                t[row] = d ? 0 : -(double)r.range(0, 1); t[row + 1] = (double)r.range(0, 1); t[row + 2] = d ? (double)r.range(0, 1) : 0;
            }
        }
    }
    if (sp.lat & 8 && kind == "opt") { for (auto &v : z0) v = 0; for (auto &v : y0) v = 0; }
    if (sp.pm) { double f = pow(10.0, sp.pm / 10.0); for (auto &v : s0) v *= f; for (auto &v : x0) v *= f; }
    if (sp.dm) { double f = pow(10.0, sp.dm / 10.0); for (auto &v : z0) v *= f; for (auto &v : y0) v *= f; }
    P.c.assign(n, 0); P.h.assign(m, 0); P.b.assign(p, 0);
    auto GTz = [&](const std::vector<double> &z, const std::vector<double> &y, i64 j) { double v = 0; for (i64 i = 0; i < m; i++) v += G[i][j] * z[i]; for (i64 i = 0; i < p; i++) v += A[i][j] * y[i]; return v; };
    auto setfeas = [&]() { for (i64 i = 0; i < m; i++) { double v = s0[i]; for (i64 j = 0; j < n; j++) v += G[i][j] * x0[j]; P.h[i] = v; } for (i64 i = 0; i < p; i++) { double v = 0; for (i64 j = 0; j < n; j++) v += A[i][j] * x0[j]; P.b[i] = v; } };
    auto setdual = [&]() { for (i64 j = 0; j < n; j++) P.c[j] = -GTz(z0, y0, j); };
    if (kind == "weak") {
        // feasible with slacks on the cone boundary, dual strictly feasible
        for (i64 i = 0; i < P.l; i++) if (r.chance(0.5)) s0[i] = 0;
        i64 row = P.l;
        for (i64 v : P.q) { double nn = 0; for (i64 t = 1; t < v; t++) nn += s0[row + t] * s0[row + t]; if (r.chance(0.6)) s0[row] = sqrt(nn); row += v; }
        for (i64 k = 0; k < P.nex; k++, row += 3) if (r.chance(0.5)) s0[row] = s0[row + 2] * log(s0[row + 1] / s0[row + 2]);
        setfeas(); setdual(); P.truth = 4;
    } else if (kind == "pinf") {
        setdual(); // keep the dual feasible with the original G
        std::vector<double> zc, yc(p); cone_interior(r, P, zc, true, 0.4);
        for (auto &v : yc) v = r.uni(-1, 1);
        // orthogonality through one row of G (zc there is bounded away from 0)
        i64 row = lastrow;
        for (i64 j = 0; j < n; j++) { double v = GTz(zc, yc, j) - G[row][j] * zc[row]; G[row][j] = -v / zc[row]; }
        // h, b with h'z + b'y = -scale
        for (i64 i = 0; i < m; i++) P.h[i] = r.uni(-1, 1);
        for (i64 i = 0; i < p; i++) P.b[i] = r.uni(-1, 1);
        double v = 0, nn = 0; for (i64 i = 0; i < m; i++) { v += P.h[i] * zc[i]; nn += zc[i] * zc[i]; }
        for (i64 i = 0; i < p; i++) v += P.b[i] * yc[i];
        double target = -r.uni(1, 3), f = (target - v) / nn;
        for (i64 i = 0; i < m; i++) P.h[i] += f * zc[i];
        setdual(); // dual strictly feasible for the final G
        P.truth = 2;
    } else if (kind == "dinf") {
        std::vector<double> d(n); for (auto &v : d) v = r.signedmag(0.4, 1.5);
        std::vector<double> sd; cone_interior(r, P, sd, false, 0.4);
        for (i64 i = 0; i < m; i++) { double v = 0; for (i64 j = 0; j < n; j++) if (j != raycol) v += G[i][j] * d[j]; G[i][raycol] = (-sd[i] - v) / d[raycol]; }
        for (i64 i = 0; i < p; i++) { i64 pc = perm[i]; double v = 0; for (i64 j = 0; j < n; j++) if (j != pc) v += A[i][j] * d[j]; A[i][pc] = -v / d[pc]; }
        setfeas();
        double v = 0, nn = 0;
        for (i64 j = 0; j < n; j++) { P.c[j] = r.uni(-1, 1); v += P.c[j] * d[j]; nn += d[j] * d[j]; }
        double target = -r.uni(1, 3), f = (target - v) / nn;
        for (i64 j = 0; j < n; j++) P.c[j] += f * d[j];
        P.truth = 3;
    } else { setfeas(); setdual(); P.truth = sp.lat & 10 ? 4 : 1; if (sp.lat & 8) P.c.assign(n, 0); }
    // keep the pattern independent of the numbers: write every patterned entry
    auto csc = [&](const Mat &M, const std::vector<std::vector<char>> &pt, i64 rows, std::vector<double> &pr, std::vector<i64> &jc, std::vector<i64> &ir) {
        pr.clear(); ir.clear(); jc.assign(n + 1, 0);
        for (i64 j = 0; j < n; j++) { for (i64 i = 0; i < rows; i++) if (pt[i][j] || M[i][j] != 0) { pr.push_back(M[i][j]); ir.push_back(i); } jc[j + 1] = pr.size(); }
    };
    csc(G, gp, m, P.Gpr, P.Gjc, P.Gir);
    csc(A, ap, p, P.Apr, P.Ajc, P.Air);
    return P;
}

// ------------------------------------------------------------------ MIP
static Problem make_mip(const ProbSpec &sp) {
    Rng r(sp.seed * 2 + 5);
    Problem P; P.mip = true; P.truth = 0;
    int nb = std::max(0, sp.nb), ni = std::max(0, sp.ni); if (nb + ni == 0) nb = 1;
    int nfre = std::max(0, sp.nf), nbc = nb; nb += nfre;
    int nc = std::max(0, sp.nc), N = nb + ni, unb = sp.opt & 32 ? 1 : 0, n = N + nc + unb; P.unb = unb;
    // column positions: a random arrangement, so that booleans, integers and
    // continuous variables interleave and index lists are not sorted
    std::vector<int> col(n); for (int i = 0; i < n; i++) col[i] = i;
    for (int i = 0; i < n; i++) std::swap(col[i], col[(int)r.range(i, n - 1)]);
    for (int i = 0; i < nb; i++) P.boolv.push_back(col[i]);
    for (int i = 0; i < ni; i++) P.intv.push_back(col[nb + i]);
    std::vector<char> fre(N, 0);
    if (nfre) { std::vector<int> o(nb); for (int i = 0; i < nb; i++) o[i] = i; for (int i = 0; i < nb; i++) std::swap(o[i], o[(int)r.range(i, nb - 1)]); for (int i = nbc; i < nb; i++) fre[o[i]] = 1; P.fre = fre; }
    auto K = [&](int i, int v) { return fre[i] ? 0 : v; };
    int R = std::max(1, sp.rng);
    for (int i = 0; i < nb; i++) { P.ilo.push_back(0); P.ihi.push_back(1); }
    for (int i = 0; i < ni; i++) { int lo = (int)r.range(-R, R); P.ilo.push_back(lo); P.ihi.push_back(lo + (int)r.range(0, R)); }
    std::vector<std::vector<double>> rows; std::vector<double> hh;  // LP rows
    auto addrow = [&](const std::vector<double> &g, double h) { rows.push_back(g); hh.push_back(h); return (int)rows.size() - 1; };
    for (int i = 0; i < ni; i++) { // explicit box
        std::vector<double> g(n, 0); g[col[nb + i]] = -1; P.lorow.push_back(addrow(g, -P.ilo[nb + i]));
        g[col[nb + i]] = 1; P.hirow.push_back(addrow(g, P.ihi[nb + i]));
    }
    // a reference integer point to aim the constraints at (so that most instances are feasible but tight)
    std::vector<int> ref(N); for (int i = 0; i < N; i++) ref[i] = (int)r.range(P.ilo[i], P.ihi[i]);
    for (int k = 0; k < sp.ncon; k++) {
        Problem::Lin L; L.a.resize(N); int nz = 0, dot = 0;
        for (int i = 0; i < N; i++) { L.a[i] = K(i, r.chance(0.7) ? (int)r.range(-3, 3) : 0); nz += L.a[i] != 0; dot += L.a[i] * ref[i]; }
        if (!nz) { int i = (int)r.range(0, N - 1); while (fre[i]) i = (i + 1) % N; L.a[i] = 1; dot = ref[i]; }
        int off = sp.opt & 1 ? -(int)r.range(1, 4) : (int)r.range(-1, 2);   // opt 1: tends to be infeasible
        L.rhs = dot + off + 0.5;
        std::vector<double> g(n, 0); for (int i = 0; i < N; i++) g[col[i]] = L.a[i];
        P.linrow.push_back(addrow(g, L.rhs)); P.lins.push_back(L);
    }
    // second-order constraint on the integers
    std::vector<std::vector<std::vector<double>>> socrows; std::vector<std::vector<double>> soch;
    int nsoc = (sp.opt & 4) ? 1 : 0;
    for (int k = 0; k < nsoc; k++) {
        Problem::Soc S; int d = (int)r.range(1, 2);
        long nn = 0;
        for (int t = 0; t < d; t++) { std::vector<int> f(N); int v = (int)r.range(-1, 1); S.g.push_back(v); for (int i = 0; i < N; i++) { f[i] = K(i, r.chance(0.6) ? (int)r.range(-2, 2) : 0); v += f[i] * ref[i]; } S.F.push_back(f); nn += (long)v * v; }
        S.r = sqrt((double)nn + (double)r.range(0, 3) + 0.5);
        std::vector<std::vector<double>> g(d + 1, std::vector<double>(n, 0)); std::vector<double> h(d + 1, 0);
        h[0] = S.r; for (int t = 0; t < d; t++) { for (int i = 0; i < N; i++) g[t + 1][col[i]] = -S.F[t][i]; h[t + 1] = S.g[t]; }
        socrows.push_back(g); soch.push_back(h); P.q.push_back(d + 1); P.socs.push_back(S);
    }
    P.c.assign(n, 0);
    for (int i = 0; i < N; i++) { double cv = sp.opt & 8 ? (double)r.range(-4, 4) : r.uni(-3, 3); if (sp.opt & 16) cv = 0; if (fre[i]) cv = r.signedmag(0.3, 3); P.icost.push_back(cv); P.c[col[i]] = cv; }
    // continuous epigraph variables
    std::vector<std::vector<double>> Arows; std::vector<double> bb;
    std::vector<std::vector<double>> exrows; std::vector<double> exh;
    for (int k = 0; k < nc; k++) {
        Problem::Epi E; E.col = col[N + k]; E.type = (int)r.range(0, 3); if (!(sp.opt & 2) && E.type == 2) E.type = 0;
        E.cost = r.uni(0.3, 2); P.c[E.col] = E.cost;
        if (sp.opt & 128 && r.chance(0.6)) { // a'x+b <= t <= d'x+e, cost of either sign: a feasibility condition that involves the continuous variable
            E.type = 4; if (r.chance(0.5)) P.c[E.col] = E.cost = -E.cost;
            E.a.assign(2, std::vector<int>(N, 0)); int w = 0;
            for (int t = 0; t < 2; t++) for (int i = 0; i < N; i++) E.a[t][i] = K(i, r.chance(0.5) ? (int)r.range(-2, 2) : 0);
            for (int i = 0; i < N; i++) w += (E.a[1][i] - E.a[0][i]) * ref[i];
            double b = r.uni(-1, 1); E.b = {b, b - w + (double)r.range(sp.opt & 1 ? -2 : 0, 2) + (r.chance(0.1) ? -0.5 : 0.5)};
            for (int t = 0; t < 2; t++) { std::vector<double> g(n, 0); double sg = t ? -1 : 1; for (int i = 0; i < N; i++) g[col[i]] = sg * E.a[t][i]; g[E.col] = -sg; addrow(g, -sg * E.b[t]); }
            P.epis.push_back(E); continue;
        }
        int d = E.type == 0 ? (int)r.range(1, 3) : E.type == 1 ? (int)r.range(1, 2) : 1;
        for (int t = 0; t < d; t++) { std::vector<int> a(N); for (int i = 0; i < N; i++) a[i] = K(i, r.chance(0.6) ? (int)r.range(-2, 2) : 0); if (E.type == 2) for (auto &v : a) v = v > 1 ? 1 : v < -1 ? -1 : v; E.a.push_back(a); E.b.push_back(r.uni(-1, 1)); }
        if (E.type == 0) for (int t = 0; t < d; t++) { std::vector<double> g(n, 0); for (int i = 0; i < N; i++) g[col[i]] = E.a[t][i]; g[E.col] = -1; addrow(g, -E.b[t]); }
        else if (E.type == 1) { std::vector<std::vector<double>> g(d + 1, std::vector<double>(n, 0)); std::vector<double> h(d + 1, 0); g[0][E.col] = -1; for (int t = 0; t < d; t++) { for (int i = 0; i < N; i++) g[t + 1][col[i]] = -E.a[t][i]; h[t + 1] = E.b[t]; } socrows.push_back(g); soch.push_back(h); P.q.push_back(d + 1); }
        else if (E.type == 2) { // t >= exp(a'x+b): (a'x+b, t, 1) in K
            std::vector<double> g0(n, 0), g1(n, 0), g2(n, 0); for (int i = 0; i < N; i++) g0[col[i]] = -E.a[0][i]; g1[E.col] = -1; exrows.push_back(g0); exh.push_back(E.b[0]); exrows.push_back(g1); exh.push_back(0); exrows.push_back(g2); exh.push_back(1); P.nex++; }
        else { std::vector<double> a(n, 0); for (int i = 0; i < N; i++) a[col[i]] = -E.a[0][i]; a[E.col] = 1; Arows.push_back(a); bb.push_back(E.b[0]); }
        P.epis.push_back(E);
    }
    if (unb) { std::vector<double> g(n, 0); int u = col[N + nc]; g[u] = 1; addrow(g, r.uni(-2, 2)); P.c[u] = r.uni(0.2, 2); } // falls without limit
    if (sp.opt & 64) { // an equality over the integer variables; opt 1: more often one that cannot hold
        Problem::Lin L; L.a.resize(N); int dot = 0, nz = 0; bool even = r.chance(0.15);
        for (int i = 0; i < N; i++) { L.a[i] = K(i, r.chance(0.7) ? (r.chance(0.5) ? 1 : (int)r.range(-2, 2)) : 0); if (even) L.a[i] *= 2; nz += L.a[i] != 0; dot += L.a[i] * ref[i]; }
        if (!nz) { int i = 0; while (fre[i]) i++; L.a[i] = 1; dot = ref[i]; }
        L.rhs = dot + (r.chance(sp.opt & 1 ? 0.5 : 0.1) ? (int)r.range(-1, 1) : 0);
        std::vector<double> g(n, 0); for (int i = 0; i < N; i++) g[col[i]] = L.a[i];
        Arows.push_back(g); bb.push_back(L.rhs); P.eqs.push_back(L);
    }
    if (sp.dm) { double f = pow(10.0, sp.dm / 10.0); for (auto &v : P.c) v *= f; for (auto &v : P.icost) v *= f; for (auto &E : P.epis) E.cost *= f; }
    P.n = n; P.l = rows.size(); P.ncones = P.q.size();
    std::vector<std::vector<double>> G = rows; P.h = hh;
    for (size_t k = 0; k < socrows.size(); k++) for (size_t t = 0; t < socrows[k].size(); t++) { G.push_back(socrows[k][t]); P.h.push_back(soch[k][t]); }
    for (size_t k = 0; k < exrows.size(); k++) { G.push_back(exrows[k]); P.h.push_back(exh[k]); }
    P.m = G.size(); P.p = Arows.size(); P.hasA = P.p > 0; P.b = bb;
    dense_to_csc(G, P.m, n, P.Gpr, P.Gjc, P.Gir);
    dense_to_csc(Arows, P.p, n, P.Apr, P.Ajc, P.Air);
    return P;
}

void apply_patch(Problem &P, const std::string &patch) {
    const char *q = patch.c_str();
    while (*q) {
        char k = *q++; char *e; long i = strtol(q, &e, 10); if (*e != ':') return; double v = strtod(e + 1, &e); q = e; if (*q == ',') q++;
        if (k == 'h' && i >= 0 && i < (long)P.h.size()) {
            P.h[i] = v;
            for (size_t t = 0; t < P.linrow.size(); t++) if (P.linrow[t] == i) P.lins[t].rhs = v;
            int nb = (int)P.boolv.size();
            for (size_t t = 0; t < P.lorow.size(); t++) if (P.lorow[t] == i) P.ilo[nb + t] = (int)ceil(-v - 1e-9);
            for (size_t t = 0; t < P.hirow.size(); t++) if (P.hirow[t] == i) P.ihi[nb + t] = (int)floor(v + 1e-9);
        }
        if (k == 'c' && i >= 0 && i < (long)P.c.size()) {
            P.c[i] = v;
            for (size_t t = 0; t < P.boolv.size(); t++) if (P.boolv[t] == i) P.icost[t] = v;
            for (size_t t = 0; t < P.intv.size(); t++) if (P.intv[t] == i) P.icost[P.boolv.size() + t] = v;
            for (auto &E : P.epis) if (E.col == i) E.cost = v;
        }
    }
}
Problem make_problem(const ProbSpec &s) { return s.kind == "mip" ? make_mip(s) : make_cont(s); }

bool mip_point_ok(const Problem &P, const std::vector<int> &x, double *obj) {
    int N = P.ilo.size();
    for (int i = 0; i < N; i++) if (x[i] < P.ilo[i] || x[i] > P.ihi[i]) return false;
    for (auto &L : P.lins) { long v = 0; for (int i = 0; i < N; i++) v += (long)L.a[i] * x[i]; if (v > L.rhs) return false; }
    for (auto &L : P.eqs) { long v = 0; for (int i = 0; i < N; i++) v += (long)L.a[i] * x[i]; if (v != (long)L.rhs) return false; }
    for (auto &S : P.socs) { long nn = 0; for (size_t t = 0; t < S.F.size(); t++) { long v = S.g[t]; for (int i = 0; i < N; i++) v += (long)S.F[t][i] * x[i]; nn += v * v; } if ((double)nn > S.r * S.r) return false; }
    ld o = 0;
    for (int i = 0; i < N; i++) o += (ld)P.icost[i] * x[i];
    for (auto &E : P.epis) {
        if (E.type == 4) { ld v[2]; for (int t = 0; t < 2; t++) { v[t] = E.b[t]; for (int i = 0; i < N; i++) v[t] += (ld)E.a[t][i] * x[i]; } if (v[0] > v[1]) return false; o += E.cost * (E.cost >= 0 ? v[0] : v[1]); continue; }
        ld best = E.type == 1 ? 0 : -1e300L;
        for (size_t t = 0; t < E.a.size(); t++) { ld v = E.b[t]; for (int i = 0; i < N; i++) v += (ld)E.a[t][i] * x[i]; if (E.type == 1) best += v * v; else if (v > best) best = v; }
        if (E.type == 1) best = sqrtl(best); else if (E.type == 2) best = expl(best);
        o += E.cost * best;
    }
    if (obj) *obj = (double)o;
    return true;
}
MipRef mip_reference(const Problem &P) {
    MipRef R; int N = P.ilo.size(); std::vector<int> x(P.ilo);
    if (N == 0) return R;
    auto fre = [&](int i) { return !P.fre.empty() && P.fre[i]; };
    for (int i = 0; i < N; i++) if (fre(i)) x[i] = P.icost[i] < 0;
    for (int i = 0; i < N; i++) if (P.ihi[i] < P.ilo[i]) return R;
    while (true) {
        double o; R.npoints++;
        if (mip_point_ok(P, x, &o)) { R.nfeas++; if (!R.feasible || o < R.best) { R.second = R.feasible ? R.best : 1e300; R.best = o; R.feasible = true; } else if (o < R.second) R.second = o; }
        int i = 0; while (i < N && (fre(i) || ++x[i] > P.ihi[i])) { if (!fre(i)) x[i] = P.ilo[i]; i++; }
        if (i == N) break;
    }
    return R;
}

// ------------------------------------------------------------------ plan text
static std::string fmt(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
std::string plan_text(const Plan &p) {
    std::string o = "ecosim-plan 1\ncheck " + p.check + "\nseed " + std::to_string(p.seed) + "\n";
    const Env &e = p.env;
    o += "env fill=" + std::to_string(e.fill) + " fseed=" + std::to_string(e.fseed) + " gap=" + std::to_string(e.gap) + " zero=" + std::to_string(e.zero) + " reuse=" + std::to_string(e.reuse) +
         " base=" + std::to_string(e.base) + " tick=" + std::to_string(e.tick) + " read=" + std::to_string(e.read) + " rnd=" + std::to_string(e.rnd) + " out=" + std::to_string(e.out) + " sig=" + std::to_string(e.sig) + "\n";
    for (auto &s : p.probs) {
        o += "prob kind=" + s.kind + " seed=" + std::to_string(s.seed);
        if (s.kind == "mip") o += " nb=" + std::to_string(s.nb) + " ni=" + std::to_string(s.ni) + " nc=" + std::to_string(s.nc) + " rng=" + std::to_string(s.rng) + " ncon=" + std::to_string(s.ncon) + " opt=" + std::to_string(s.opt) + (s.dm ? " dm=" + std::to_string(s.dm) : std::string()) + (s.nf ? " nf=" + std::to_string(s.nf) : std::string());
        else {
            o += " n=" + std::to_string(s.n) + " p=" + std::to_string(s.p) + " l=" + std::to_string(s.l) + " e=" + std::to_string(s.e) + " q=";
            for (size_t i = 0; i < s.q.size(); i++) o += (i ? "," : "") + std::to_string(s.q[i]);
            if (s.q.empty()) o += "-";
            o += " dens=" + std::to_string(s.dens) + " scale=" + std::to_string(s.scale) + (s.lat ? " lat=" + std::to_string(s.lat) : std::string()) + (s.pm || s.dm ? " pm=" + std::to_string(s.pm) + " dm=" + std::to_string(s.dm) : std::string()) + " var=" + std::to_string(s.var);
        }
        o += "\n";
    }
    for (size_t t = 0; t < p.tasks.size(); t++) {
        o += "task " + std::to_string(t) + "\n";
        for (auto &op : p.tasks[t]) { o += "op " + op.kind; for (auto &kv : op.a) o += " " + kv.first + "=" + kv.second; o += "\n"; }
    }
    if (!p.sched.empty()) { o += "sched"; for (auto &s : p.sched) o += " " + std::to_string(s.first) + ":" + std::to_string(s.second); o += "\n"; }
    for (auto &f : p.faults) {
        o += "fault " + f.kind + " task=" + std::to_string(f.task) + " op=" + std::to_string(f.op);
        if (f.tick >= 0) o += " tick=" + std::to_string(f.tick);
        if (f.sys >= 0) o += " sys=" + std::to_string(f.sys);
        if (f.nth >= 0) o += " nth=" + std::to_string(f.nth);
        if (f.mag != 0) o += " mag=" + fmt(f.mag);
        if (f.seed) o += " seed=" + std::to_string(f.seed);
        if (f.delta) o += " delta=" + std::to_string(f.delta);
        if (f.cnt != 1) o += " cnt=" + std::to_string(f.cnt);
        o += "\n";
    }
    return o;
}
static std::vector<std::string> split(const std::string &s, char c) { std::vector<std::string> v; std::string cur; for (char ch : s) { if (ch == c) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) v.push_back(cur); return v; }
bool plan_parse(const std::string &txt, Plan &p, std::string &err) {
    p = Plan(); bool magic = false;
    for (auto &line : split(txt, '\n')) {
        if (line[0] == '#') continue;
        auto w = split(line, ' '); if (w.empty()) continue;
        std::map<std::string, std::string> kv;
        for (size_t i = 1; i < w.size(); i++) { auto eq = w[i].find('='); if (eq != std::string::npos) kv[w[i].substr(0, eq)] = w[i].substr(eq + 1); }
        auto I = [&](const char *k, i64 d) { auto it = kv.find(k); return it == kv.end() ? d : (i64)strtoull(it->second.c_str(), 0, 10) * 1; };
        auto S = [&](const char *k, i64 d) { auto it = kv.find(k); return it == kv.end() ? d : (i64)strtoll(it->second.c_str(), 0, 10); };
        if (w[0] == "ecosim-plan") magic = true;
        else if (w[0] == "check") p.check = w[1];
        else if (w[0] == "seed") p.seed = strtoull(w[1].c_str(), 0, 10);
        else if (w[0] == "env") { Env &e = p.env; e.fill = S("fill", 0); e.fseed = I("fseed", 1); e.gap = S("gap", 0); e.zero = S("zero", 0); e.reuse = S("reuse", 0); e.base = S("base", e.base); e.tick = S("tick", 7); e.read = S("read", 40); e.rnd = I("rnd", 1); e.out = S("out", 0); e.sig = S("sig", 0); }
        else if (w[0] == "prob") {
            ProbSpec s; s.kind = kv["kind"]; s.seed = I("seed", 1); s.n = S("n", 3); s.p = S("p", 0); s.l = S("l", 3); s.e = S("e", 0); s.dens = S("dens", 60); s.scale = S("scale", 0); s.lat = S("lat", 0); s.pm = S("pm", 0); s.dm = S("dm", 0); s.var = S("var", 0);
            s.nb = S("nb", 0); s.ni = S("ni", 0); s.nc = S("nc", 0); s.rng = S("rng", 3); s.ncon = S("ncon", 2); s.opt = S("opt", 0); s.nf = S("nf", 0);
            s.q.clear(); if (kv.count("q") && kv["q"] != "-") for (auto &v : split(kv["q"], ',')) s.q.push_back(atoi(v.c_str()));
            p.probs.push_back(s);
        }
        else if (w[0] == "task") p.tasks.emplace_back();
        else if (w[0] == "op") { if (p.tasks.empty()) { err = "op before task"; return false; } Op o; o.kind = w[1]; o.a = kv; p.tasks.back().push_back(o); }
        else if (w[0] == "sched") { for (size_t i = 1; i < w.size(); i++) { auto c = w[i].find(':'); p.sched.emplace_back(atoi(w[i].c_str()), atoll(w[i].c_str() + c + 1)); } }
        else if (w[0] == "fault") { Fault f; f.kind = w[1]; f.task = S("task", 0); f.op = S("op", 0); f.tick = S("tick", -1); f.sys = S("sys", -1); f.nth = S("nth", -1); f.mag = kv.count("mag") ? strtod(kv["mag"].c_str(), 0) : 0; f.seed = I("seed", 0); f.delta = S("delta", 0); f.cnt = S("cnt", 1); p.faults.push_back(f); }
        else { err = "bad line: " + line; return false; }
    }
    if (!magic) { err = "not a plan"; return false; }
    return true;
}
