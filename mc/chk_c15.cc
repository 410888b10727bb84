// C15: the domain-decomposition solvers converge to the full-sweep solution; block Jacobi steps are exact.
#include "runs.hh"
#include <cmath>
#include <map>
using namespace rt;
namespace {
const char *dd[6] = {"PBJ", "PBJOuter", "PBJSI", "Schur", "SchurOuter", "SchurKrylov"};
// ---- reference: the documented block Jacobi schemes. margin: how close a stopping decision came to a tie
struct Ref { std::vector<double> psi; double margin = 1e300; int steps = 0; };
struct L1 { double e = 0, n = 0; };
double rel(const std::vector<double> &a, const std::vector<double> &b) { double e = 0, n = 0; for (size_t i = 0; i < a.size(); i++) { e += std::fabs(a[i] - b[i]); n += std::fabs(a[i]); } return e / n; }
bool below(double e, double tol, Ref &r) { if (tol > 0) r.margin = std::min(r.margin, std::fabs(e / tol - 1)); else if (e < 1e-13) r.margin = 0; return e < tol; }
Ref blockJacobi(const RProblem &P, const std::vector<int> &part, const std::string &sweep, int iterMax, double errMax, int ddMax, double ddErr)
{
    Ref r; std::vector<double> psi(P.size()), nbr(P.size());      // nbr: the fluxes the neighbours sent last
    if (sweep == "PBJSI") {
        std::vector<double> f((size_t)P.m->nc() * 4);
        for (int i = 0; i < ddMax; i++) { psi = P.sweep(P.total(f), &part, &nbr); r.steps++; std::vector<double> g = P.phi(psi); nbr = psi; double e = rel(g, f); f = g; if (below(e, ddErr, r)) break; }
    } else if (sweep == "PBJ") {
        std::vector<double> f((size_t)P.m->nc() * 4);
        for (int i = 0; i < iterMax; i++) {
            std::vector<double> q = P.total(f);
            for (int j = 0; j < ddMax; j++) { std::vector<double> p0 = psi; psi = P.sweep(q, &part, &nbr); r.steps++; if (below(rel(psi, p0), ddErr, r)) break; nbr = psi; }
            std::vector<double> g = P.phi(psi); double e = rel(g, f); f = g; if (below(e, errMax, r) || e == errMax) break;
        }
    } else {
        std::vector<double> last(P.size());
        for (int j = 0; j < ddMax; j++) {
            std::vector<double> f = P.phi(psi);
            for (int i = 0; i < iterMax; i++) { psi = P.sweep(P.total(f), &part, &nbr); r.steps++; std::vector<double> g = P.phi(psi); double e = rel(g, f); f = g; if (below(e, errMax, r) || e == errMax) break; }
            double e = rel(psi, last); last = psi; if (below(e, ddErr, r)) break; nbr = psi;
        }
    }
    r.psi = psi; return r;
}
// the number of block Jacobi steps is the limit, or the limit less one (the loops count from one)
Scenario stepScenario(RunCase k)
{
    k.ref = RunCase::NONE; k.si = true;
    auto st = std::make_shared<std::pair<std::vector<Ref>, bool>>();
    auto prepare = [=] {
        static std::map<std::string, std::shared_ptr<RProblem>> ps; auto &P = ps[fmt("%s/%d/%g/%g/%g/%g", k.mesh.c_str(), k.sn, k.t1, k.s1, k.t2, k.s2)]; if (!P) P = std::make_shared<RProblem>(meshOf(k.mesh), k.sn, k.t1, k.s1, k.t2, k.s2);
        for (int less = 1; less >= 0; less--) { Ref r = blockJacobi(*P, k.part, k.sweep, k.iterMax, atof(k.errMax.c_str()), k.ddIter - less, atof(k.ddErr.c_str())); if (r.margin < 1e-6) st->second = true; st->first.push_back(r); }
    };
    Scenario s = runScenario(k, [=](const RunCase &k) {
        if (st->second) return; auto &refs = st->first;
        RunOut o = readPsi("out.psi"); if (!o.fileOk) fail(ST_WRONG, "block Jacobi: %s", o.why.c_str());
        double best = 1e300; for (auto &r : refs) { double w = 0; for (int g = 0; g < k.ng; g++) w = std::max(w, maxRel(o.psi[g], r.psi)); if (!(w == w)) w = 1e300; best = std::min(best, w); }
        if (!(best <= 1e-11)) checkPsi(o, refs[0].psi, k.ng, 1e-11, "block Jacobi iterate");
    });
    s.prepare = prepare; s.name = "step/" + s.name + "/e" + k.ddErr; return s;
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; int h = 0; bool T = g_thorough;
    auto conv = [&](RunCase k, const char *nm) { k.ref = RunCase::CONVERGED; k.iterMax = 2000; k.ddIter = 2000; k.tol = 1e-8; k.errMax = "1e-12"; k.ddErr = "1e-12"; if (k.sweep == "PBJOuter" || k.sweep == "SchurOuter") k.ddErr = "1e-11"; if (!k.si && (k.sweep == "PBJ" || k.sweep == "Schur")) k.errMax = "1e-11"; Scenario s = runScenario(k); s.name = std::string(nm) + "/" + s.name; s.cpuLimit = 60; v.push_back(s); };
    auto mat = [&](RunCase &k, int i) { if (i % 3 == 1) { k.t1 = 0.2; k.s1 = 0; k.t2 = 0.01; k.s2 = 0.005; } else if (i % 3 == 2) { k.t1 = 0.05; k.s1 = 0.04; k.t2 = 0.4; k.s2 = 0.2; } };
    // 1. all partitions of small meshes, every solver, source iteration and Krylov inside
    for (auto mesh : T ? std::vector<std::string>{"tet1", "tet2", "tet3", "tet4", "fan4", "cube5", "reg5", "cube6", "tet5"} : std::vector<std::string>{"tet1", "tet3", "fan4", "cube5"}) {
        int nc = meshOf(mesh).nc();
        for (int np = 1; np <= 4 && np <= nc; np++) for (auto &p : allPartitions(nc, np, true, np > 2 || !T)) for (auto w : dd) for (int si = 0; si < 2; si++) {
            RunCase k; k.mesh = mesh; k.part = p; k.np = np; k.sweep = w; k.si = si; int x = h + h / 12; k.thr = 1 + (x / 2) % 2; k.ng = 1 + (x / 3) % 2; k.order = x * 37 % 64; k.mode = SendMode((x / 5) % 3); mat(k, x / 7); k.dev = 0; conv(k, "all"); h++;
        }
    }
    // 2. steps of block Jacobi
    for (auto mesh : T ? std::vector<std::string>{"tet1", "tet2", "tet3", "tet4", "fan4", "cube5", "reg5", "cube6"} : std::vector<std::string>{"tet2", "tet3", "fan4", "cube5", "reg5"}) {
        int nc = meshOf(mesh).nc();
        for (int np = 1; np <= 4 && np <= nc; np++) for (auto &p : allPartitions(nc, np, true, np > 2 || !T)) for (int w = 0; w < 3; w++) for (int n = 2; n <= (T ? 5 : 4); n++) {
            RunCase k; k.mesh = mesh; k.part = p; k.np = np; k.sweep = dd[w]; k.thr = 1 + h % 3; k.ng = 1 + (h / 3) % 3; k.order = h * 37 % 64; k.mode = SendMode((h / 5) % 3); mat(k, h / 2); k.ddIter = n; k.ddErr = "0.0"; k.iterMax = 1 + h % 3; k.dev = np > 1 ? 1 : 0; k.cap = T ? 200 : 12; v.push_back(stepScenario(k)); h++;
        }
    }
    // 3. stopping: tolerances of every size
    for (int w = 0; w < 3; w++) for (int i = 0; i < (T ? 60 : 15); i++) for (int np = 1; np <= 4; np++) {
        RunCase k; k.mesh = i % 3 == 0 ? "fan4" : i % 3 == 1 ? "cube6" : "box10"; int nc = meshOf(k.mesh).nc(); k.np = np; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = (i / 3) % 2 ? c * np / nc : c % np; k.sweep = dd[w]; k.thr = 1 + i % 2; k.order = h * 37 % 64; mat(k, i); if (k.mesh == "box10" && i % 2) k.sn = 4;
        k.iterMax = 40; k.ddIter = 60; k.ddErr = fmt("%.3e", 0.83 * std::pow(10.0, -(i % 15) * 0.7)); k.errMax = fmt("%.3e", 0.37 * std::pow(10.0, -((i * 7) % 15) * 0.6)); k.dev = 0; v.push_back(stepScenario(k)); h++;
    }
    // 4. schedules and arrival orders
    for (auto w : dd) for (int si = 0; si < 2; si++) for (int mode = 0; mode < 4; mode++) {
        RunCase k; k.mesh = "fan4"; k.part = {0, 1, 2, 0}; k.np = 3; k.sweep = w; k.si = si; k.mode = SendMode(mode); k.thr = 1 + h % 2; k.order = h++ * 37 % 64; k.dev = 1; k.cap = T ? 1500 : 25; conv(k, "timing");
    }
    // 5. larger meshes, finer quadratures
    for (auto w : dd) for (int si = 0; si < 2; si++) for (int i = 0; i < (T ? 12 : 2); i++) {
        static const char *ms[] = {"box20", "reg12", "box40", "box12"}; RunCase k; k.mesh = ms[(i + si) % 4]; int nc = meshOf(k.mesh).nc(); k.np = 4 - i % 3; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = (i + si) % 2 ? c * k.np / nc : (c * 5 + c / 4) % k.np; for (int r = 0; r < k.np; r++) k.part[r] = r;
        k.sweep = w; k.si = si; k.sn = k.mesh[0] == 'b' ? 4 : 2; k.thr = 1 + i % 3; k.ng = 1 + i % 2; k.order = h++ * 37 % 64; mat(k, i); k.dev = 0; conv(k, "large");
    }
    // 6. ranks without any face on the outside, ranks without cells that touch each other
    for (auto w : dd) for (int si = 0; si < 2; si++) { RunCase k; k.mesh = "cube5"; k.part = {0, 0, 0, 0, 0}; k.np = 2; RMesh &m = meshOf(k.mesh); for (int c = 0; c < 5; c++) { bool in = true; for (int f = 0; f < 4; f++) if (m.nb(c, f) < 0) in = false; k.part[c] = in; } k.sweep = w; k.si = si; k.order = h++ * 37 % 64; k.dev = 0; conv(k, "inner"); }
    // 7. options: SchurKrylov and PBJSI know the tolerance and limit of the decomposition only; limits bound the linear solver
    for (auto mesh : {"tet3", "cube5", "box12"}) for (int np = 1; np <= 3; np++) for (int si = 0; si < 2; si++) for (int i = 0; i < 11; i++) {
        RunCase k; k.mesh = mesh; int nc = meshOf(k.mesh).nc(); k.np = np; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = c % np; k.si = si; k.order = h++ * 37 % 64; k.thr = 1 + h % 2; k.dev = 0; mat(k, h);
        if (i < 2) { k.sweep = i ? "PBJSI" : "SchurKrylov"; k.errMax = "0.5"; k.iterMax = 1; k.ddErr = "1e-12"; k.ddIter = 2000; k.ref = RunCase::CONVERGED; k.tol = 1e-8; Scenario s = runScenario(k); s.name = "options/" + s.name; v.push_back(s); continue; }
        if (i >= 5) { k.sweep = dd[i - 5]; k.t1 = 0.04; k.t2 = 0.09; k.s1 = k.s2 = 0; k.errMax = "0.5"; k.iterMax = 3; k.ddErr = "1e-12"; k.ddIter = 2000; k.ref = RunCase::CONVERGED; k.tol = 1e-8; Scenario s = runScenario(k); s.name = "options/" + s.name; v.push_back(s); continue; }      // without scattering the tolerance of the decomposition decides
        k.sweep = dd[i + 1]; k.ref = RunCase::NONE; k.ddIter = 1 + h % 3; k.iterMax = 40; k.errMax = "1e-11"; k.ddErr = "1e-11"; int dl = k.ddIter; bool krylovOnly = k.si || i == 4;      // all linear solves belong to the decomposition
        Scenario s = runScenario(k, [=](const RunCase &k) { for (auto &r : kspLog()) if (r.its > (krylovOnly ? dl : std::max(dl, k.iterMax))) fail(ST_WRONG, "%d iterations of the linear solver with a limit of %d", r.its, dl); RunOut o = readPsi("out.psi"); if (!o.fileOk) fail(ST_WRONG, "%s", o.why.c_str()); });
        s.name = "options/" + s.name; v.push_back(s);
    }
    // 8. sizes beyond those of the other scenarios
    for (auto w : dd) for (int si = 0; si < 2; si++) for (int i = 0; i < (T ? 16 : 4); i++) { RunCase k; bigSize(k, h); if (k.sn > 4) k.sn = 4; if (!T && (k.mesh == "grid4x3x3" || k.mesh == "hexa9x1x1")) k.sn = 2; k.sweep = w; k.si = si; mat(k, h); h++; k.dev = 0; conv(k, "big"); }
    for (int w = 0; w < 3; w++) for (int i = 0; i < (T ? 32 : 8); i++) { RunCase k; bigSize(k, h); if (k.sn > 4) k.sn = 4; k.sweep = dd[w]; mat(k, i); k.ddIter = 2 + h % 3; k.ddErr = "0.0"; k.iterMax = 1 + h % 3; k.dev = 0; h++; v.push_back(stepScenario(k)); }
    // 9. more cells or boundary values than 16 bits can number
    for (int i = 0; i < 2; i++) { RunCase k; huge(k, i + 1); k.sweep = dd[i]; k.ddIter = 2; k.ddErr = "0.0"; k.iterMax = 1; v.push_back(stepScenario(k)); v.back().cpuLimit = 600; }
    for (auto w : dd) { RunCase k; huge(k, 1); k.mesh = "hexa5x5x5"; k.sn = 6; int nc = meshOf(k.mesh).nc(); k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = c % 2; k.sweep = w; k.si = h++ % 2; k.t1 = 0.5; k.s1 = 0.05; k.t2 = 0.6; k.s2 = 0; conv(k, "huge"); v.back().cpuLimit = 600; }
    return v;
}
}
static Check chk{"C15", "domain decomposition",
    "runs of the program's main for the six decomposed solvers with source iteration or Krylov inside: with tight tolerances the flux must be the converged flux of an independent undecomposed solver (1e-8), for all partitions of small meshes into 1-4 ranks (up to renaming where stated), with rotating materials (none, moderate and strong scattering), groups, threads, listings and send buffering; block Jacobi runs of n steps, and runs stopped by tolerances of many sizes, must be exactly the iterates of the documented scheme (1e-11)", "model_checking", make, nullptr,
    {"MPI, OpenMP and PETSc (GMRES) are stand-ins that implement their documented semantics", "the step limit may count from zero or one", "executions with more deviations from the default schedule than the scenario's bound are not explored"}, 200, 780};
static Reg reg(&chk);
