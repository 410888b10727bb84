// C19: energy groups are independent and handled identically.
#include "comp.hh"
#include <cmath>
#include <cstring>
using namespace rt;
namespace {
const char *sweeps[9] = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph", "PBJ", "PBJOuter", "PBJSI", "Schur", "SchurOuter", "SchurKrylov"};
// reference flux of every group, with the sources the hook gives (kind 0: the standard source)
typedef std::vector<std::vector<double>> Groups;
struct Ref { Groups g; };
const Groups &groupRef(const RunCase &k, int kind)
{
    static std::map<std::string, Groups> refs; std::string key = fmt("%s/%d/%d/%d/%g/%g/%g/%g/%d", k.mesh.c_str(), k.sn, k.ng, k.ref == RunCase::CONVERGED ? -1 : k.iterMax, k.t1, k.s1, k.t2, k.s2, kind);
    auto it = refs.find(key); if (it != refs.end()) return it->second;
    RProblem P(meshOf(k.mesh), k.sn, k.t1, k.s1, k.t2, k.s2); const RMesh &m = *P.m; std::vector<double> s0 = P.src; Groups &G = refs[key];
    for (int g = 0; g < k.ng; g++) {
        if (kind) for (int c = 0; c < m.nc(); c++) for (int a = 0; a < P.na(); a++) for (int v = 0; v < 4; v++) { size_t i = ((size_t)c * P.na() + a) * 4 + v; const V3 &x = m.node[m.cell[c][v]]; P.src[i] = mcGroupSource(kind, s0[i], g, a, x[0], x[1], x[2]); }
        bool zero = true; for (double x : P.src) zero = zero && x == 0;
        G.push_back(zero ? std::vector<double>(P.size()) : k.ref == RunCase::CONVERGED ? P.converged() : P.iterate(k.iterMax));
    }
    return G;
}
double diffOf(const Groups &p) { double d = 0, e = 0; for (size_t i = 0; i < p[0].size(); i++) { e = std::max(e, std::fabs(p[0][i])); for (auto &q : p) d = std::max(d, std::fabs(q[i] - p[0][i])); } return e > 0 ? d / e : d; }
bool printed(const char *label, double &x) { const std::string &o = captured(0); size_t p = o.find(label); if (p == std::string::npos) return false; x = atof(o.c_str() + p + strlen(label)); return true; }
Scenario groups(RunCase k, int kind, const char *nm)
{
    auto ref = k.ref; double tol = k.tol; k.ref = RunCase::NONE; RunCase q = k; q.ref = ref;
    Scenario s = runScenario(k, [=](const RunCase &) {
        if (kind && !fn<int (*)()>(0, "mcs_source_calls")()) { countCase(false); return; }      // the program takes its source elsewhere
        const Groups &G = groupRef(q, kind); RunOut o = readPsi("out.psi"); if (!o.fileOk) fail(ST_WRONG, "%s", o.why.c_str()); if (o.ng != (uint64_t)k.ng) fail(ST_WRONG, "%lu groups in the file, expected %d", o.ng, k.ng);
        for (int g = 0; g < k.ng; g++) { size_t w = 0; double big = 0; for (double x : G[g]) big = std::max(big, std::fabs(x));
            if (big == 0) { for (double x : o.psi[g]) if (x != 0) fail(ST_WRONG, "group %d has no source, its flux is %g", g, x); continue; }
            double e = maxRel(o.psi[g], G[g], &w); if (!(e <= tol)) fail(ST_WRONG, "group %d of %d: flux at cell %zu angle %zu vertex %zu is %.15g, that group alone gives %.15g (relative difference %.3g)", g, k.ng, w / 4 / o.na, w / 4 % o.na, w % 4, o.psi[g][w], G[g][w], e); }
        if (kind == 0) for (int g = 1; g < k.ng; g++) { double e = maxRel(o.psi[g], o.psi[0]); if (!(e <= 1e-13)) fail(ST_WRONG, "groups 0 and %d with the same data differ by %g", g, e); }
        double d = 0, want = diffOf(o.psi); if (!printed("Diff between groups:", d)) return;
        if (!(std::fabs(d - want) <= 2e-6 * want + (kind ? 0 : 1e-13))) fail(ST_WRONG, "difference between groups reported as %g, the flux has %g", d, want);
    });
    auto prep = s.prepare, body = s.body; s.prepare = [=] { groupRef(q, kind); };
    s.body = [=] { for (int r = 0; r < k.np; r++) fn<void (*)(int)>(r, "mcs_source_hook")(kind); body(); };
    s.name = fmt("%s%d/", nm, kind) + s.name; s.cpuLimit = 60; return s;
}
// the difference function on enumerated fluxes
struct Odd { int pos, group; double by; };
Scenario difference(CompCase k, int variant)
{
    int na = RQuad(k.sn).n, n = meshOf(k.mesh).nc() * na * 4; auto result = std::make_shared<std::vector<std::vector<double>>>(4); auto wanted = std::make_shared<std::vector<double>>();
    return compScenario(fmt("difference%d", variant), k, [=](int r, LocalView &v) {
        // global flux patterns: base value per variant, one or two entries differ
        int ng = k.ng; std::vector<double> base(n); for (int i = 0; i < n; i++) { double x = variant == 0 ? 1 : variant == 1 ? 1 + (i * 37 % n) : variant == 2 ? -3.0 - i % 5 : variant == 3 ? (i / (4 * na) == 0 ? 2 : 0) : (i % 2 ? 1 : -1) * (1e-3 + i % 11); base[i] = x; }
        auto &res = (*result)[r]; res.clear(); if (r == 0) wanted->clear();
        auto eval = [&](const std::vector<Odd> &odd) {
            auto at = [&](int i, int g) { double x = base[i]; for (auto &o : odd) if (o.pos == i && o.group == g) x += o.by; return x; };
            std::vector<double> psi((size_t)v.nc * na * 4 * ng + 1);
            for (int c = 0; c < v.nc; c++) for (int a = 0; a < na; a++) for (int x = 0; x < 4; x++) for (int g = 0; g < ng; g++) psi[((size_t)(c * na + a) * 4 + x) * ng + g] = at((v.gc[c] * na + a) * 4 + v.gv[c][x], g);
            auto copy = psi; res.push_back(fn<double (*)(double *)>(r, "mcs_diff_groups")(psi.data())); if (psi != copy) fail(ST_WRONG, "computing the difference changed the flux");
            if (r == 0) { Groups G(ng, base); for (auto &o : odd) if (o.group < ng) G[o.group][o.pos] += o.by; wanted->push_back(diffOf(G)); }
        };
        eval({}); for (int g = 0; g < ng; g++) for (int i = 0; i < n; i++) for (double by : {0.75, -5.25}) eval({{i, g, by}});
        if (ng > 2) for (int i = 0; i < n; i += 3) eval({{i, 1, 2.0}, {(i * 5 + 7) % n, 2, -4.0}});
        for (int i = 0; i < n; i += 5) eval({{i, 0, 100}, {(i + 1) % n, ng - 1, 0.5}});
    }, [=] {
        for (size_t j = 0; j < wanted->size(); j++) { double w = (*wanted)[j]; for (int r = 0; r < k.np; r++) { double x = (*result)[r][j]; if (!(std::fabs(x - w) <= 1e-12 * std::max(w, 1e-300))) fail(ST_WRONG, "pattern %zu: rank %d reports a difference of %.15g, the flux has %.15g", j, r, x, w); } countCase(w > 0); }
    });
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int h = 0; bool hook = needSyms({"mcs_source_hook", "mcs_source_calls"}, "the source hook");
    auto mat = [&](RunCase &k, int i) { if (i % 3 == 1) { k.t1 = 0.2; k.s1 = 0; k.t2 = 0.01; k.s2 = 0.005; } else if (i % 3 == 2) { k.t1 = 0.05; k.s1 = 0.04; k.t2 = 0.4; k.s2 = 0.2; } };
    auto add = [&](RunCase k, int kind, const char *nm) {
        if (kind && !hook) return;
        if (isFull(k.sweep) && k.si) { k.ref = RunCase::ITERATE; k.errMax = "0.0"; k.iterMax = 1 + (h / 2) % 4; k.tol = 1e-11; }
        else { k.ref = RunCase::CONVERGED; k.iterMax = 2000; k.ddIter = 2000; k.tol = 1e-8; k.errMax = "1e-13"; k.ddErr = "1e-13"; if (!isFull(k.sweep)) { k.errMax = "1e-12"; k.ddErr = "1e-12"; if (k.sweep == "PBJOuter" || k.sweep == "SchurOuter") k.ddErr = "1e-11"; if (!k.si && (k.sweep == "PBJ" || k.sweep == "Schur")) k.errMax = "1e-11"; } }
        v.push_back(groups(k, kind, nm)); h++;
    };
    // every sweep, inner solver, number of groups; partitions of small meshes
    for (auto mesh : T ? std::vector<std::string>{"tet1", "tet2", "tet3", "tet4", "fan4", "cube5", "reg5", "cube6"} : std::vector<std::string>{"tet1", "tet3", "fan4", "cube5"}) {
        int nc = meshOf(mesh).nc();
        for (auto w : sweeps) for (int si = 0; si < 2; si++) for (int ng = 1; ng <= 4; ng++) for (int np = 1; np <= 4 && np <= nc; np++) {
            auto P = allPartitions(nc, np, true, true); size_t keep = T ? 8 : 2, stride = (P.size() + keep - 1) / keep;
            for (size_t i = (h / 3) % stride; i < P.size(); i += stride) for (int kind : {0, 1, 2, 3}) {
                if (ng == 1 && kind > 1) continue; if (!T && kind != (h + h / 4) % 4 && kind != 2) { h++; continue; }
                RunCase k; k.mesh = mesh; k.part = P[i]; k.np = np; k.sweep = w; k.si = si; k.ng = ng; int x = h + h / 12; k.thr = 1 + x % 3; k.mpi = (x / 3) % 2 ? "CapsaicinTwoSided" : "TychoTwoSided"; k.order = x * 37 % 64; k.mode = SendMode((x / 5) % 3); static const char *el[] = {"NoPivot", "Original", "CramerGlu", "CramerIntel"}; k.elim = el[(x / 2) % 4]; k.intra = x % 5; k.maxc = x % 2 ? 100 : 1 + x % 3; mat(k, x / 7); if ((x / 7) % 3 == 2 && !isFull(w)) mat(k, 0); k.dev = 0; add(k, kind, "all");
            }
        }
    }
    // message timing with groups that differ
    for (auto w : sweeps) for (int mode = 0; mode < 4; mode++) for (int m = 0; m < 2; m++) { RunCase k; k.mesh = m ? "cube5" : "fan4"; k.part = m ? std::vector<int>{0, 1, 0, 1, 1} : std::vector<int>{0, 1, 2, 0}; k.np = m ? 2 : 3; k.sweep = w; k.si = true; k.ng = 2 + mode % 2; k.thr = 1 + h % 2; k.mpi = h % 3 ? "TychoTwoSided" : "CapsaicinTwoSided"; k.mode = SendMode(mode); k.order = h * 37 % 64; k.maxc = 1 + 50 * (h % 2); k.dev = isFull(w) ? (T ? 2 : 1) : 1; k.cap = T ? 1500 : isFull(w) ? 60 : 8; add(k, 2, "timing"); }
    // larger meshes, more groups
    for (auto w : sweeps) for (int i = 0; i < (T ? 12 : 3); i++) { static const char *ms[] = {"box12", "box20", "cube6", "reg12"}; RunCase k; k.mesh = ms[(h + i) % 4]; int nc = meshOf(k.mesh).nc(); k.np = 1 + h % 4; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = h % 2 ? c * k.np / nc : (c * 5 + c / 4) % k.np; for (int r = 0; r < k.np; r++) k.part[r] = r; k.sweep = w; k.si = h % 3; k.ng = 5 + h % 5; k.sn = k.mesh[0] == 'b' ? 4 : 2; k.thr = 1 + h % 4; k.order = h * 37 % 64; k.dev = 0; add(k, 1 + h % 3, "large"); }
    // a rank without flux, empty flux
    if (needSyms({"mcs_diff_groups", "mcs_setup", "mcs_mu", "mcs_md"}, "difference between groups"))
        for (auto mesh : {"tet1", "tet2", "tet3"}) for (int np = 1; np <= 3; np++) { int nc = meshOf(mesh).nc(); for (auto &p : allPartitions(nc, np, false)) for (int ng = 1; ng <= 3; ng++) for (int var = 0; var < 5; var++) { h++; if (!T && var != h % 5 && np > 1) continue; CompCase k; k.mesh = mesh; k.part = p; k.np = np; k.ng = ng; k.thr = 1 + h % 2; k.order = h * 37 % 64; k.dev = 0; Scenario s = difference(k, var); s.maxExec = 1; v.push_back(s); } }
    // sizes beyond those of the other scenarios
    for (auto w : sweeps) for (int i = 0; i < (T ? 24 : 4); i++) { RunCase k; bigSize(k, h); if (k.ng == 1) k.ng = 6; if (k.sn > 4) k.sn = 4; if (!T && !isFull(w) && (k.mesh == "grid4x3x3" || k.mesh == "hexa9x1x1")) k.sn = 2; k.sweep = w; k.si = h % 3; k.mpi = h % 2 ? "TychoTwoSided" : "CapsaicinTwoSided"; k.maxc = h % 2 ? 1000 : 20; k.dev = 0; add(k, h % 4, "big"); }
    // many groups
    for (auto w : sweeps) for (int i = 0; i < (T ? 6 : 2); i++) { RunCase k; h++; k.mesh = i % 2 ? "tet3" : "tet2"; k.np = 1 + (h + i) % 2; k.part.assign(2 + i % 2, 0); k.part[1] = k.np - 1; k.sn = 2; k.ng = i % 2 ? 70 : 300; k.thr = 1 + h % 3; k.sweep = w; k.si = h % 3; k.mpi = h % 2 ? "TychoTwoSided" : "CapsaicinTwoSided"; k.maxc = 1000; k.order = h * 37 % 64; k.dev = 0; add(k, h % 4, "many"); }
    return v;
}
}
static Check chk{"C19", "energy groups",
    "whole runs of all nine sweeps with source iteration and Krylov and 1-9 groups whose sources differ (hook on Problem::getSource; one of the patterns gives a group no source), each group compared with an independent solver that knows this group only, over partitions, threads, communication, orderings and message timing; reported difference recomputed from the written flux, and the difference function on all fluxes that differ in one entry (and pairs) for all partitions of small meshes", "model_checking", make, nullptr,
    {"MPI, OpenMP and PETSc (GMRES) are stand-ins that implement their documented semantics", "iterative solvers are compared at tight tolerances (1e-8)"}, 150, 780};
static Reg reg(&chk);
