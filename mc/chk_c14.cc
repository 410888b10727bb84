// C14: a boundary exchange delivers every rank-boundary flux, whatever the arrival order.
#include "comp.hh"
#include <cmath>
using namespace rt;
namespace {
double val(int round, int gc, int a, int v, int g) { return 1 + (((round * 1024.0 + gc) * 2048 + a) * 4 + v) * 16 + g; }
double old(int round, int r, int s, int a, int fv, int g) { return -(1 + ((((round * 8.0 + r) * 1024 + s) * 2048 + a) * 3 + fv) * 16 + g); }
Scenario exchange(const CompCase &k, int rounds, bool fresh, const std::string &nm)
{
    auto q = std::make_shared<RQuad>(k.sn);
    return compScenario(fmt("%s/x%d%s", nm.c_str(), rounds, fresh ? "n" : ""), k, [=](int r, LocalView &v) {
        const RMesh &m = *v.m; int na = q->n, ng = k.ng; const std::vector<int> &part = *g_part; void *cs = nullptr; uint64_t nb = fn<uint64_t (*)()>(r, "mcs_bound_size")();
        if (nb != (uint64_t)v.nSides * na * 3 * ng) fail(ST_WRONG, "rank %d: boundary data of %lu values for %d sides", r, nb, v.nSides);
        for (int round = 0; round < rounds; round++) {
            if (!cs || fresh) cs = fn<void *(*)()>(r, "mcs_cs_new")();
            std::vector<double> psi((size_t)v.nc * na * 4 * ng + 1), b(nb + 1), p0, want;
            for (int c = 0; c < v.nc; c++) for (int a = 0; a < na; a++) for (int x = 0; x < 4; x++) for (int g = 0; g < ng; g++) psi[((size_t)(c * na + a) * 4 + x) * ng + g] = val(round, v.gc[c], a, v.gv[c][x], g);
            for (int s = 0; s < v.nSides; s++) for (int a = 0; a < na; a++) for (int f = 0; f < 3; f++) for (int g = 0; g < ng; g++) b[((size_t)(s * na + a) * 3 + f) * ng + g] = old(round, r, s, a, f, g);
            want = b; p0 = psi; int delivered = 0;
            for (int s = 0; s < v.nSides; s++) {
                int c = v.sc[s], f = v.sf[s], gc = v.gc[c], kf = v.gk[c][f], n = m.nb(gc, kf); if (n < 0 || part[n] == r) continue; V3 nv = m.normal(gc, kf);
                for (int a = 0; a < na; a++) { double d = nv[0] * q->om[a][0] + nv[1] * q->om[a][1] + nv[2] * q->om[a][2]; if (!(d < -1e-10)) continue;
                    for (int i = 0; i < 3; i++) { int node = m.cell[gc][v.fv[c][f][i]], x = -1; for (int j = 0; j < 4; j++) if (m.cell[n][j] == node) x = j; for (int g = 0; g < ng; g++) { want[((size_t)(s * na + a) * 3 + i) * ng + g] = val(round, n, a, x, g); delivered++; } } }
            }
            fn<void (*)(void *, double *, double *)>(r, "mcs_cs_run")(cs, psi.data(), b.data());
            if (psi != p0) fail(ST_WRONG, "rank %d: the exchange changed the flux", r);
            for (int s = 0; s < v.nSides; s++) for (int a = 0; a < na; a++) for (int f = 0; f < 3; f++) for (int g = 0; g < ng; g++) { size_t i = ((size_t)(s * na + a) * 3 + f) * ng + g;
                if (b[i] != want[i]) fail(ST_WRONG, "exchange %d, rank %d: side %d (cell %d) direction %d face vertex %d group %d holds %g, expected %g%s", round, r, s, v.gc[v.sc[s]], a, f, g, b[i], want[i], want[i] < 0 ? " (unchanged)" : ""); }
            countCase(delivered > 0);
        }
    });
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int h = 0;
    if (!needSyms({"mcs_cs_new", "mcs_cs_run", "mcs_bound_size", "mcs_setup", "mcs_mu", "mcs_md"}, "boundary exchange")) return v;
    for (auto mesh : T ? std::vector<std::string>{"tet1", "tet2", "tet3", "tet4", "fan4", "cube5", "reg5", "reg6", "cube6", "tet5"} : std::vector<std::string>{"tet1", "tet2", "tet3", "fan4", "cube5", "reg5", "reg6"}) {
        int nc = meshOf(mesh).nc();
        for (int np = 1; np <= 4 && np <= nc; np++) for (auto &p : allPartitions(nc, np, true, nc > 5 && np > 2 && !T)) {
            CompCase k; k.mesh = mesh; k.part = p; k.np = np; k.order = h * 37 % 64; k.ng = 1 + h % 3; k.sn = h % 5 == 0 ? 4 : 2; k.mode = SendMode(h % 3); k.dev = np > 1 ? (T ? 2 : 1) : 0; k.cap = T ? 400 : 30; k.race = k.strictBuf = false;
            v.push_back(exchange(k, 2 + h % 2, (h / 2) % 2, "part")); h++;
        }
    }
    // empty ranks
    for (auto &p : allPartitions(3, 3, false)) { CompCase k; k.mesh = "tet3"; k.part = p; k.np = 3; k.order = h++ * 37 % 64; k.ng = 2; k.dev = 1; k.cap = T ? 2000 : 60; v.push_back(exchange(k, 2, false, "empty")); }
    // arrival orders in depth
    for (int mode = 0; mode < 4; mode++) for (auto mesh : {"fan4", "cube5"}) for (int np = 2; np <= 4; np++) for (int fr = 0; fr < 2; fr++) {
        CompCase k; k.mesh = mesh; int nc = meshOf(mesh).nc(); k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = c % np; k.np = np; k.order = h++ * 37 % 64; k.ng = 2; k.mode = SendMode(mode); k.dev = T ? 5 : 3; k.cap = T ? 60000 : 1500; v.push_back(exchange(k, 3, fr, "deep"));
    }
    // larger meshes
    for (int i = 0; i < (T ? 60 : 20); i++) { static const char *ms[] = {"box12", "reg12", "box20", "box40", "cube6"}; CompCase k; k.mesh = ms[i % 5]; int nc = meshOf(k.mesh).nc(); k.np = 2 + i % 3; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = i % 2 ? c * k.np / nc : (c * 5 + c / 4 + i) % k.np; for (int r = 0; r < k.np; r++) k.part[r] = r; k.sn = i % 3 == 0 ? 6 : 4; k.ng = 1 + i % 4; k.order = i * 37 % 64; k.mode = SendMode(i % 3); k.dev = 1; k.cap = T ? 200 : 20; k.race = false; v.push_back(exchange(k, 2, false, "large")); }
    // sizes beyond those of the other scenarios
    for (int i = 0; i < (T ? 96 : 40); i++) { CompCase k; bigSize(k, i); k.dev = T ? 1 : 0; k.cap = 20; k.race = false; v.push_back(exchange(k, 2 + i % 2, i % 3 == 1, "big")); }
    for (int i = 1; i < 3; i++) { CompCase k; huge(k, i); v.push_back(exchange(k, 2, i % 2, "huge")); v.back().cpuLimit = 600; }
    return v;
}
}
static Check chk{"C14", "boundary exchange",
    "CommSides driven directly on all ranks with a different value for every (cell, direction, vertex, group) and every boundary value, for all partitions of small meshes under rotating cell, face, node and vertex listings; two or three exchanges in a row; compared with the neighbour found in the global mesh by vertex, on every explored schedule, arrival order and buffering", "model_checking", make, nullptr,
    {"MPI is a stand-in that implements its documented semantics", "executions with more deviations from the default schedule than the scenario's bound are not explored"}, 150, 780};
static Reg reg(&chk);
