// C16: source iteration and Krylov solve the scattering problem as configured.
#include "runs.hh"
#include <cmath>
#include <map>
using namespace rt;
namespace {
const char *sw[3] = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph"}, *mt[2] = {"TychoTwoSided", "CapsaicinTwoSided"};
RProblem &problem(const RunCase &k)
{
    static std::map<std::string, std::shared_ptr<RProblem>> ps; auto &P = ps[fmt("%s/%d/%g/%g/%g/%g", k.mesh.c_str(), k.sn, k.t1, k.s1, k.t2, k.s2)];
    if (!P) { P = std::make_shared<RProblem>(meshOf(k.mesh), k.sn, k.t1, k.s1, k.t2, k.s2); if (!P->acyclic() || P->minDot() < 1e-7) { fprintf(stderr, "mesh %s is not usable with order %d\n", k.mesh.c_str(), k.sn); exit(2); } }
    return *P;
}
const std::vector<double> &errors(const RunCase &k)
{
    static std::map<const RProblem *, std::vector<double>> es; RProblem &P = problem(k); auto &e = es[&P]; if (e.empty()) P.iterate(60, &e); return e;
}
// "iteration: 3   error: 1.2e-3" lines of a rank's output
std::vector<double> reported(const std::string &out)
{
    std::vector<double> r; size_t at = 0;
    while ((at = out.find("error:", at)) != std::string::npos) { double x; if (sscanf(out.c_str() + at + 6, "%lf", &x) == 1) r.push_back(x); at += 6; }
    return r;
}
// exactly the iterates, stopped by tolerance or limit
Scenario iterates(RunCase k, const char *nm)
{
    k.ref = RunCase::NONE; k.si = true;
    auto want = std::make_shared<std::vector<double>>(); auto steps = std::make_shared<int>(0); auto tie = std::make_shared<bool>(false);
    auto prepare = [=] {
        const std::vector<double> &e = errors(k); double tol = atof(k.errMax.c_str()); int n = 0;
        while (n < k.iterMax && n < (int)e.size()) { n++; if (!(e[n - 1] == e[n - 1]) || e[n - 1] <= tol) { if (std::fabs(e[n - 1] - tol) < 1e-9 * tol) *tie = true; break; } if (e[n - 1] < 1e-13 || std::fabs(e[n - 1] - tol) < 1e-9 * tol) *tie = true; }
        *steps = n; *want = problem(k).iterate(n);
    };
    Scenario s = runScenario(k, [=](const RunCase &k) {
        if (*tie && k.iterMax > 20) return;      // a tolerance that is met within rounding
        checkPsi(readPsi("out.psi"), *want, k.ng, 1e-11, fmt("source iteration (%d expected)", *steps).c_str());
        std::vector<double> rep = reported(captured(0)); const std::vector<double> &e = errors(k);
        if (!rep.empty()) {
            if ((int)rep.size() != *steps) fail(ST_WRONG, "source iteration: %zu iterations reported, %d expected", rep.size(), *steps);
            for (int i = 0; i < *steps; i++) if (e[i] > 1e-12 && !(std::fabs(rep[i] - e[i]) <= 2e-6 * e[i] + 1e-15)) fail(ST_WRONG, "source iteration %d: reported error %.6e, expected %.6e", i, rep[i], e[i]);
            for (int r = 1; r < k.np; r++) { std::vector<double> q = reported(captured(r)); if (!q.empty() && q != rep) fail(ST_WRONG, "ranks report different errors"); }
        }
    });
    s.prepare = prepare; s.name = std::string(nm) + "/" + s.name; return s;
}
// Krylov: the scalar flux satisfies phi = K phi + b to the tolerance
Scenario krylov(RunCase k, const char *nm)
{
    k.ref = RunCase::NONE; k.si = false; double tol = atof(k.errMax.c_str());
    Scenario s = runScenario(k, [=](const RunCase &k) {
        RProblem &P = problem(k); RunOut o = readPsi("out.psi"); if (!o.fileOk) fail(ST_WRONG, "Krylov: %s", o.why.c_str());
        if (o.ng != (uint64_t)k.ng) fail(ST_WRONG, "Krylov: %lu groups in the file, expected %d", o.ng, k.ng);
        if (o.psi[0].size() != P.size()) fail(ST_WRONG, "Krylov: %zu values per group, expected %zu", o.psi[0].size(), P.size());
        bool limited = false; for (auto &r : kspLog()) { if (r.its > k.iterMax) fail(ST_WRONG, "Krylov: %d iterations with a limit of %d", r.its, k.iterMax); if (r.its == k.iterMax) limited = true; }
        std::vector<double> zero((size_t)P.m->nc() * 4), b = P.phi(P.sweep(P.total(zero))); double bn = 0; for (double x : b) bn += x * x;
        for (int g = 0; g < k.ng; g++) {
            const std::vector<double> &psi = o.psi[g]; std::vector<double> f = P.phi(psi), psi2 = P.sweep(P.total(f)), f2 = P.phi(psi2); double r = 0, d = 0, n = 0;
            for (size_t i = 0; i < f.size(); i++) r += (f[i] - f2[i]) * (f[i] - f2[i]);
            for (size_t i = 0; i < psi.size(); i++) { d = std::max(d, std::fabs(psi[i] - psi2[i])); n = std::max(n, std::fabs(psi2[i])); }
            if (!(r == r)) fail(ST_WRONG, "Krylov: group %d is not a number", g);
            if (!limited && !(std::sqrt(r) <= 3 * tol * std::sqrt(bn) + 1e-12 * std::sqrt(bn))) fail(ST_WRONG, "Krylov: group %d: relative residual %.3e, tolerance %.3e", g, std::sqrt(r / bn), tol);
            if (limited && k.iterMax == 0 && tol < 1) { std::vector<double> first = P.sweep(P.total(zero)); if (!(maxRel(psi, first) < 1e-11)) fail(ST_WRONG, "Krylov without iterations: not the uncollided flux"); }
        }
    });
    s.name = std::string(nm) + "/" + s.name; s.cpuLimit = 30; return s;
}
void mat(RunCase &k, int i)
{
    switch (i % 5) { case 0: break; case 1: k.t1 = 0.2; k.s1 = 0; k.t2 = 0.01; k.s2 = 0.005; break; case 2: k.t1 = 0.05; k.s1 = 0.0475; k.t2 = 0.4; k.s2 = 0.3; break; case 3: k.t1 = 0.3; k.s1 = 0; k.t2 = 0.2; k.s2 = 0; break; case 4: k.t1 = 2; k.s1 = 1.96; k.t2 = 0.02; k.s2 = 0.02; }
}
void spread(RunCase &k, int kind) { int nc = meshOf(k.mesh).nc(); k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = kind % 3 == 0 ? c * k.np / nc : kind % 3 == 1 ? c % k.np : (c * 5 + c / 4) % k.np; for (int r = 0; r < k.np && r < nc; r++) k.part[r] = r; }
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int h = 0;
    auto vary = [&](RunCase &k) { int x = h + h / 12; k.thr = 1 + (x / 2) % 2; k.mpi = mt[(x / 3) % 2]; k.order = x * 37 % 64; k.mode = SendMode((x / 5) % 3); k.ng = 1 + (x / 7) % 3; k.maxc = x % 4 == 0 ? 2 : 100; if (x % 3) { k.ddErr = "0.3"; k.ddIter = 3 + x % 5; } h++;   // the options of the decomposed solvers are of no concern here
        };
    // 1. all partitions x iteration limits
    for (auto mesh : T ? std::vector<std::string>{"tet1", "tet2", "tet3", "tet4", "fan4", "cube5", "reg5", "cube6"} : std::vector<std::string>{"tet1", "tet2", "tet3", "fan4", "cube5", "reg5"}) {
        int nc = meshOf(mesh).nc();
        for (int np = 1; np <= 3 && np <= nc; np++) for (auto &p : allPartitions(nc, np, true, np > 2 || !T)) for (auto w : sw) for (int n = 0; n <= (T ? 6 : 3); n++) {
            RunCase k; k.mesh = mesh; k.part = p; k.np = np; k.sweep = w; mat(k, h / 3); vary(k); k.iterMax = n; k.errMax = "0.0"; k.dev = 0; v.push_back(iterates(k, "limit"));
        }
    }
    // 2. tolerances around the error of every iterate
    for (int m = 0; m < 5; m++) for (auto mesh : {"fan4", "cube6", "box10"}) {
        RunCase k0; k0.mesh = mesh; mat(k0, m); if (k0.mesh == "box10") k0.sn = 4; std::vector<double> e = errors(k0);
        for (int i = 0; i < (T ? 40 : 10); i++) for (int side = 0; side < 3; side++) for (int np = 1 + (T ? 0 : (i + side) % 2); np <= 4; np += T ? 1 : 2) {
            if (!(e[i] > 1e-10) || e[i] >= 0.999) continue;
            RunCase k = k0; k.np = np; k.sweep = sw[h % 3]; vary(k); spread(k, h); double t = side == 0 ? e[i] * 1.0001 : side == 1 ? e[i] * 0.9999 : std::sqrt(e[i] * e[i + 1]); if (!(t > 0)) continue;
            k.errMax = fmt("%.12e", t); k.iterMax = 55; k.dev = 0; v.push_back(iterates(k, "tolerance"));
        }
    }
    // 3. Krylov: tolerances and limits
    for (auto mesh : T ? std::vector<std::string>{"tet3", "fan4", "cube5", "reg5", "cube6", "box10", "box12"} : std::vector<std::string>{"tet3", "cube6", "box10"}) for (int m = 0; m < 5; m++) for (int t = 0; t <= 12; t += T ? 1 : 2) for (int np = 1; np <= 4; np++) {
        RunCase k; k.mesh = mesh; if (np > meshOf(mesh).nc()) continue; mat(k, m); k.np = np; k.sweep = sw[h % 3]; vary(k); spread(k, h); k.errMax = t ? fmt("%.1e", std::pow(10.0, -t)) : "0.5"; k.iterMax = 300; k.dev = 0; v.push_back(krylov(k, "krylov"));
        if (t == 4 || t == 10) for (int lim : {0, 1, 2, 5}) { RunCase l = k; vary(l); l.iterMax = lim; v.push_back(krylov(l, "krylov")); }
    }
    // 4. converged: both agree with the solution
    for (auto w : sw) for (int si = 0; si < 2; si++) for (int m = 0; m < 5; m++) for (int i = 0; i < (T ? 8 : 3); i++) {
        static const char *ms[] = {"box12", "cube6", "reg12", "box40", "tet5", "box20", "reg6", "fan4"}; RunCase k; k.mesh = ms[i]; k.np = 1 + (h + i) % 4; mat(k, m); k.sweep = w; vary(k); spread(k, h); k.si = si; k.iterMax = 5000; k.errMax = "1e-13"; k.ref = RunCase::CONVERGED; k.tol = 2e-9; k.dev = 0; Scenario s = runScenario(k); s.name = "both/" + s.name; s.cpuLimit = 60; v.push_back(s);
    }
    // 5. schedules and message timings
    for (auto w : sw) for (int mode = 0; mode < 4; mode++) for (int np = 2; np <= 3; np++) for (int i = 0; i < 2; i++) {
        RunCase k; k.mesh = i ? "fan4" : "tet3"; k.np = np; mat(k, h); k.sweep = w; vary(k); spread(k, h); k.mode = SendMode(mode); k.iterMax = 3; k.errMax = "1e-2"; k.dev = T ? 2 : 1; k.cap = T ? 3000 : 60; v.push_back(iterates(k, "timing"));
        RunCase l = k; l.iterMax = 30; l.errMax = "1e-6"; l.dev = 1; l.cap = T ? 400 : 20; v.push_back(krylov(l, "timing"));
    }
    // 6. sizes beyond those of the other scenarios
    for (int i = 0; i < (T ? 96 : 32); i++) { RunCase k; bigSize(k, i); mat(k, i + i / 5); k.sweep = sw[i % 3]; k.mpi = mt[(i / 3) % 2]; k.maxc = i % 2 ? 1000 : 20; k.iterMax = 2 + i % 4; k.errMax = i % 4 == 3 ? "1.2345e-2" : "0.0"; k.dev = 0; v.push_back(iterates(k, "big")); RunCase l = k; l.iterMax = 200; l.errMax = "1e-8"; v.push_back(krylov(l, "big")); }
    for (int i = 0; i < 2; i++) { RunCase k; huge(k, i * 2); k.sweep = sw[i]; k.mpi = mt[i]; k.iterMax = 2; k.errMax = "0.0"; v.push_back(iterates(k, "huge")); v.back().cpuLimit = 600; }
    return v;
}
}
static Check chk{"C16", "source iteration and Krylov",
    "runs of the program's main with the full sweeps: for all partitions of small meshes and iteration limits 0-3 (thorough 0-6), and for tolerances just above, just below and between the errors of successive iterates, the flux must be exactly the iterate an independent solver stops at (1e-11) and the reported errors the whole-mesh relative L1 changes; Krylov results for tolerances 0.5 to 1e-12 must satisfy the discrete equations to the tolerance, within the iteration limit; converged runs of both must agree with the reference; materials include none, strong and pure scattering", "model_checking", make, nullptr,
    {"MPI, OpenMP and PETSc (GMRES) are stand-ins that implement their documented semantics", "tolerances of one or more, and tolerances that an iterate meets only within rounding, are left out", "executions with more deviations from the default schedule than the scenario's bound are not explored"}, 200, 780};
static Reg reg(&chk);
