// C22: cross sections, source and reported error of the verification problem.
#include "comp.hh"
#include <cmath>
#include <cstring>
using namespace rt;
namespace {
typedef std::vector<double> V;
double num(uint64_t i, int kind) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull * (kind + 3); x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; double d = (double)(x % 2000001) / 1e6 - 1; return kind == 0 ? d : kind == 1 ? 1 + 0.1 * d : kind == 2 ? d * 1e-8 : d * 1e6; }
// flux of a pattern, by global position
double flux(int kind, const RMesh &m, int na, int ng, int c, int a, int v, int g)
{
    uint64_t i = (((uint64_t)c * na + a) * 4 + v) * ng + g;
    if (kind < 4) return num(i, kind);
    if (kind == 4) { const V3 &p = m.node[m.cell[c][v]]; double r = std::sqrt((p[0] - 50) * (p[0] - 50) + (p[1] - 50) * (p[1] - 50) + (p[2] - 50) * (p[2] - 50)); return r <= 30 ? 1 - r / 30 : 0.01; }
    if (kind == 5) return c == m.nc() - 1 ? 3 : 0;                                  // only the last cell
    if (kind == 6) return g == ng - 1 && a == na - 1 && c == 0 ? 1 + v : 0;
    return a == 0 ? 1 : 0;
}
double errorOf(const RMesh &m, int na, int ng, const std::function<double(int, int, int, int)> &f)
{
    long double d = 0, n = 0;
    for (int c = 0; c < m.nc(); c++) {
        V3 x = {0, 0, 0}; for (int v = 0; v < 4; v++) for (int i = 0; i < 3; i++) x[i] += (m.node[m.cell[c][v]][i] - 50) / 4; double r = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), ex = r <= 30 ? 1 - r / 30 : 0;
        for (int a = 0; a < na; a++) for (int g = 0; g < ng; g++) { double p = 0; for (int v = 0; v < 4; v++) p += f(c, a, v, g) / 4; n += p * p; d += (p - ex) * (p - ex); }
    }
    return (double)std::sqrt(d / n);
}
Scenario problem(const CompCase &k)
{
    auto P = std::make_shared<RProblem>(meshOf(k.mesh), k.sn, k.t1, k.s1, k.t2, k.s2); auto want = std::make_shared<V>();
    Scenario s = compScenario(fmt("problem/x%g,%g,%g,%g", k.t1, k.s1, k.t2, k.s2), k, [=](int r, LocalView &v) {
        const RMesh &m = *v.m; int na = P->na(), ng = k.ng, nc = v.nc; V st(nc + 1, -1), ss(nc + 1, -1); fn<void (*)(double *, double *)>(r, "mcs_sigma")(st.data(), ss.data());
        for (int c = 0; c < nc; c++) { bool two = m.mat[v.gc[c]] == 2; if (st[c] != (two ? k.t2 : k.t1) || ss[c] != (two ? k.s2 : k.s1)) fail(ST_WRONG, "rank %d: cell %d of material %d has cross sections %g %g", r, v.gc[c], m.mat[v.gc[c]], st[c], ss[c]); }
        size_t n = (size_t)nc * na * 4 * ng; V src(n + 1, 1e99); src[n] = 4711; fn<void (*)(double *)>(r, "mcs_source")(src.data()); if (src[n] != 4711) fail(ST_WRONG, "rank %d: source written beyond the end", r);
        double sc = 1.0 / 30 + std::max(std::fabs(k.t1 - k.s1), std::fabs(k.t2 - k.s2));
        for (int c = 0; c < nc; c++) for (int a = 0; a < na; a++) for (int x = 0; x < 4; x++) for (int g = 0; g < ng; g++) {
            int gc = v.gc[c], gv = v.gv[c][x]; double got = src[((size_t)(c * na + a) * 4 + x) * ng + g], w = P->src[((size_t)gc * na + a) * 4 + gv]; const V3 &p = m.node[m.cell[gc][gv]]; double d2 = (p[0] - 50) * (p[0] - 50) + (p[1] - 50) * (p[1] - 50) + (p[2] - 50) * (p[2] - 50);
            bool edge = std::fabs(d2 - 900) < 1e-9;      // the gradient of the hat jumps here: either side is right
            if (!(std::fabs(got - w) <= 1e-12 * sc) && !(edge && got == 0)) fail(ST_WRONG, "rank %d: source of cell %d vertex %d (%g %g %g) direction %d group %d is %.15g, expected %.15g", r, gc, gv, p[0], p[1], p[2], a, g, got, w);
        }
        for (int kind = 0; kind < 8; kind++) {
            V psi(n + 1); for (int c = 0; c < nc; c++) for (int a = 0; a < na; a++) for (int x = 0; x < 4; x++) for (int g = 0; g < ng; g++) psi[((size_t)(c * na + a) * 4 + x) * ng + g] = flux(kind, m, na, ng, v.gc[c], a, v.gv[c][x], g);
            V copy = psi; double e = fn<double (*)(double *)>(r, "mcs_l2err")(psi.data()), w = (*want)[kind]; if (psi != copy) fail(ST_WRONG, "computing the error changed the flux");
            if (!(std::fabs(e - w) <= (1e-12 + 4e-16 * m.nc() * na * ng) * w)) fail(ST_WRONG, "rank %d: error of flux %d is %.15g, over the whole mesh it is %.15g", r, kind, e, w);
            countCase();
        }
    });
    s.prepare = [=] { if (want->empty()) for (int kind = 0; kind < 8; kind++) want->push_back(errorOf(meshOf(k.mesh), P->na(), k.ng, [&](int c, int a, int v, int g) { return flux(kind, meshOf(k.mesh), P->na(), k.ng, c, a, v, g); })); };
    return s;
}
Scenario report(RunCase k)
{
    Scenario s = runScenario(k, [=](const RunCase &) {
        if (k.ref != RunCase::NONE) checkPsi(readPsi("out.psi"), ::reference(k), k.ng, k.tol, "sweep");
        RunOut o = readPsi("out.psi"); if (!o.fileOk) fail(ST_WRONG, "%s", o.why.c_str()); const RMesh &m = meshOf(k.mesh); int na = RQuad(k.sn).n;
        double w = errorOf(m, na, k.ng, [&](int c, int a, int v, int g) { return o.psi[g][((size_t)c * na + a) * 4 + v]; });
        const std::string &t = captured(0); size_t p = t.find("L2 Relative Error:"); if (p == std::string::npos) { countCase(false); return; }
        double e = atof(t.c_str() + p + 18); if (!(std::fabs(e - w) <= 2e-6 * w)) fail(ST_WRONG, "the run reports the error %g, the flux in its output file has the error %g", e, w);
        for (int r = 1; r < k.np; r++) if (captured(r).find("L2 Relative Error:") != std::string::npos) fail(ST_WRONG, "rank %d reports an error as well", r);
    });
    s.name = "report/" + s.name; s.cpuLimit = 60; return s;
}
Scenario refuse(const std::string &mesh, const std::vector<int> &part, int np, int bad, int badCell, uint64_t material)
{
    RunCase k; k.mesh = mesh; k.part = part; k.np = np; k.ref = RunCase::NONE; k.order = bad * 37 % 64; k.dev = 0; k.sweep = bad % 3 == 0 ? "TraverseGraph" : bad % 3 == 1 ? "OriginalTycho2" : "PBJ";
    Scenario s = runScenario(k, nullptr); auto m = std::make_shared<RMesh>(meshOf(mesh)); m->mat[badCell] = (int)material; auto pm = std::make_shared<std::vector<char>>(pmeshBytes(*m, part, np, k.order));
    std::string deck = deckFile(k.deck()); Config c = k.cfg(); s.body = [=] { runMain(c, *pm, deck); countCase(); };
    s.name = fmt("refuse/cell%d/mat%d/", badCell, (int)material) + s.name; s.expect = Scenario::REFUSES; return s;
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int h = 0; typedef std::vector<std::string> S;
    static const double X[6][4] = {{0.05, 0.02, 0.11, 0.03}, {1, 0, 2, 0.5}, {0.3, 0.3, 0.1, 0}, {10, 9.99, 1e-3, 1e-4}, {0, 0, 5, 2}, {7, 1, 0, 0}};
    auto spread = [](CompCase &k, int np, int how) { int nc = meshOf(k.mesh).nc(); k.np = np; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = how == 0 ? c % np : how == 1 ? c * np / nc : (c * 5 + c / 3) % np; for (int r = 0; r < np; r++) k.part[r * (how == 1 ? nc / np : 1)] = r; };
    if (needSyms({"mcs_sigma", "mcs_source", "mcs_l2err", "mcs_setup", "mcs_mu", "mcs_md"}, "the problem")) {
        auto add = [&](CompCase k) { h++; const double *x = X[(h + h / 6) % 6]; k.t1 = x[0]; k.s1 = x[1]; k.t2 = x[2]; k.s2 = x[3]; k.ng = 1 + (h + h / 5) % 3; k.sn = 2 + 2 * ((h + h / 7) % 3); k.xs = true; k.order = h * 37 % 64; k.dev = 0; k.thr = 1 + h % 3; k.mode = SendMode(h % 3); v.push_back(problem(k)); };
        // all partitions, all assignments of the two materials
        for (auto mesh : T ? S{"tet1", "tet2", "tet3", "fan4", "cube5", "tet5"} : S{"tet1", "tet2", "tet3", "fan4"}) { int nc = meshOf(mesh).nc(); for (int w = 0; w < 1 << nc; w++) { std::string mt = mesh + "@"; for (int c = 0; c < nc; c++) mt += w >> c & 1 ? '2' : '1';
            for (int np = 1; np <= 3; np++) for (auto &p : allPartitions(nc, np, false, true)) { CompCase k; k.mesh = mt; k.part = p; k.np = np; add(k); } } }
        // every node at every special point of the hat
        for (auto mesh : S{"tet1", "tet2", "tet3", "fan4", "cube5"}) { RMesh m = meshOf(mesh); for (size_t n = 0; n < m.node.size(); n++) for (size_t q = 0; q < hatPoints().size(); q++) for (int np = 1; np <= (T ? 3 : 2) && np <= m.nc(); np++) { CompCase k; k.mesh = mesh + fmt("+v%zup%zu", n, q); spread(k, np, (int)(n + q) % 3); add(k); } }
        // larger meshes, every quadrature
        for (int sn = 2; sn <= 30; sn += 2) for (int np = 1; np <= 4; np++) { CompCase k; k.mesh = sn > 12 ? "box10" : sn % 4 ? "box40" : "hexa3x2x1"; spread(k, np, (sn / 2 + np) % 3); k.sn = sn; k.ng = 1 + sn / 2 % 3; const double *x = X[(sn / 2 + np) % 6]; k.t1 = x[0]; k.s1 = x[1]; k.t2 = x[2]; k.s2 = x[3]; k.xs = true; k.order = h++ * 37 % 64; k.dev = 0; v.push_back(problem(k)); }
    }
    static const char *sw[9] = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph", "PBJ", "PBJOuter", "PBJSI", "Schur", "SchurOuter", "SchurKrylov"};
    for (auto mesh : S{"tet2", "tet3", "fan4", "box10", "box12@2112"}) for (int np = 1; np <= 4; np++) for (int i = 0; i < 9; i++) for (int rep = 0; rep < (T ? 6 : 2); rep++) {
        h++; CompCase c; c.mesh = mesh; if (meshOf(mesh).nc() < np) continue; spread(c, np, h % 3); RunCase k; k.mesh = mesh; k.part = c.part; k.np = np; k.sweep = sw[i]; k.thr = 1 + h % 2; k.order = h * 37 % 64; k.mpi = (h / 2) % 2 ? "TychoTwoSided" : "CapsaicinTwoSided"; k.ng = 1 + h % 3; k.iterMax = isFull(k.sweep) ? 1 + rep : 200; if (!isFull(k.sweep)) { k.errMax = "1e-12"; k.ddIter = 300; k.ref = RunCase::NONE; } k.si = h % 4 != 0; if (!k.si) k.ref = RunCase::NONE; if (k.mesh[0] != 'b') k.sn = 2 + 2 * (h % 3); k.dev = 0; k.cap = 50; v.push_back(report(k));
    }
    for (auto mesh : S{"tet1", "tet2", "tet3"}) { int nc = meshOf(mesh).nc(); for (int np = 1; np <= nc; np++) for (auto &p : allPartitions(nc, np, true, true)) for (int c = 0; c < nc; c++) for (int mat : {0, 3, 4, -1, 1 << 30}) { h++; v.push_back(refuse(mesh, p, np, h, c, mat)); } }
    // sizes beyond those of the other scenarios
    if (haveSym("mcs_sigma") && haveSym("mcs_source") && haveSym("mcs_l2err")) for (int i = 0; i < (T ? 96 : 32); i++) { CompCase k; bigSize(k, i); const double *x = X[i % 6]; k.t1 = x[0]; k.s1 = x[1]; k.t2 = x[2]; k.s2 = x[3]; k.xs = true; k.dev = 0; v.push_back(problem(k)); }
    if (haveSym("mcs_sigma") && haveSym("mcs_source") && haveSym("mcs_l2err")) for (int i = 0; i < 3; i++) { CompCase k; huge(k, i); k.t1 = X[2][0]; k.s1 = X[2][1]; k.t2 = X[2][2]; k.s2 = X[2][3]; k.xs = true; v.push_back(problem(k)); v.back().cpuLimit = 600; }
    for (int w = 0; w < 9; w++) for (int i = 0; i < (T ? 16 : 4); i++) { RunCase k; bigSize(k, h++); if (k.sn > 4) k.sn = 4; k.sweep = sw[w]; k.mpi = h % 2 ? "TychoTwoSided" : "CapsaicinTwoSided"; k.iterMax = isFull(k.sweep) ? 1 + i : 30; if (!isFull(k.sweep)) { k.errMax = "1e-6"; k.ddErr = "1e-6"; k.ddIter = 30; k.ref = RunCase::NONE; } k.si = h % 4 != 0; if (!k.si) k.ref = RunCase::NONE; k.dev = 0; v.push_back(report(k)); }
    return v;
}
}
static Check chk{"C22", "the verification problem",
    "cross sections, source at every vertex/direction/group and error norm of the real code for all partitions (empty ranks included) and all assignments of materials of small meshes, with every node of the meshes moved to the centre, inside, outside and onto the edge of the hat; the error printed by whole runs of every sweep type against the flux in their output file; unknown materials refused for every cell", "exploration", make, nullptr,
    {"MPI is a stand-in that implements its documented semantics"}, 150, 780};
static Reg reg(&chk);
