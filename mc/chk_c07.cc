// C07: the cell solve satisfies the discontinuous linear transport equations; its inflow is the upwind neighbours' flux.
#include "comp.hh"
#include <cmath>
#include <cstring>
using namespace rt;
namespace {
const double sig[] = {0, 1e-6, 0.1, 1, 30, 1e5};
double hv(int i) { unsigned h = (unsigned)i * 2654435761u + 977u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return (h & 0xffff) / 32768.0 - 1; }
Scenario solve(const CompCase &k)
{
    auto P = std::make_shared<RProblem>(meshOf(k.mesh), k.sn, 0.1, 0, 0.1, 0);
    return compScenario("solve", k, [=](int r, LocalView &v) {
        auto f = fn<void (*)(uint64_t, uint64_t, double, const double *, const double *, double *, uint64_t)>(r, "mcs_cell_solve"); auto el = fn<void (*)(int)>(r, "mcs_set_elim"); auto gr = fn<void (*)(uint64_t)>(r, "mcs_set_groups");
        double worst = 0, worstE = 0; int patterns = 0; char seen[81]; memset(seen, 0, 81);
        for (int c = 0; c < v.nc; c++) for (int a = 0; a < P->na(); a++) {
            int g = v.gc[c], pat = 0; for (int q = 0; q < 4; q++) { double w = P->flow(g, v.gk[c][q], a); pat = pat * 3 + (w > 0 ? 2 : w < 0 ? 1 : 0); } if (!seen[pat]) { seen[pat] = 1; patterns++; }
            for (double s : sig) {
                // inputs: every single source or inflow value on its own, and two with everything present; three groups at a time
                const int ng = 3, nIn = 18; static double bound[nIn][4][3], src[nIn][4], ref[nIn][4];
                for (int i = 0; i < nIn; i++) {
                    memset(bound[i], 0, sizeof bound[i]); memset(src[i], 0, sizeof src[i]);
                    if (i < 4) src[i][i] = 1; else if (i < 16) bound[i][(i - 4) / 3][(i - 4) % 3] = 1;
                    else for (int x = 0; x < 4; x++) { src[i][x] = hv(i * 16 + x); for (int y = 0; y < 3; y++) bound[i][x][y] = 3 * hv(i * 16 + 4 + x * 3 + y); }
                    double in[4][3], q4[4], o[4];
                    for (int x = 0; x < 4; x++) q4[v.gv[c][x]] = src[i][x];
                    for (int x = 0; x < 4; x++) { int kk = v.gk[c][x]; for (int y = 0; y < 3; y++) { int w = v.fv[c][x][y]; in[kk][w < kk ? w : w - 1] = bound[i][x][y]; } }
                    P->solveCellS(g, a, s, q4, in, o); for (int x = 0; x < 4; x++) ref[i][x] = o[v.gv[c][x]];
                }
                for (int e = 0; e < 4; e++) {
                    el(e);
                    for (int i = 0; i < nIn; i += ng) {
                        double out[ng * 4]; gr(ng); f(c, a, s, &bound[i][0][0], &src[i][0], out, ng);
                        for (int j = 0; j < ng; j++) { double m = 0, d = 0; for (int x = 0; x < 4; x++) { m = std::max(m, std::fabs(ref[i + j][x])); double y = std::fabs(out[j * 4 + x] - ref[i + j][x]); if (!(y <= d)) d = y; }
                            double rel = m > 0 ? d / m : d; if (!(rel <= (e ? worstE : worst))) (e ? worstE : worst) = rel;
                            if (!(rel < 1e-9)) fail(ST_WRONG, "cell %d of %s, direction %d, cross section %g, elimination %d, group %d, input %d: flux %.12g %.12g %.12g %.12g, expected %.12g %.12g %.12g %.12g", g, k.mesh.c_str(), a, s, e, j, i + j, out[j * 4], out[j * 4 + 1], out[j * 4 + 2], out[j * 4 + 3], ref[i + j][0], ref[i + j][1], ref[i + j][2], ref[i + j][3]); }
                        // one group at a time gives the same
                        if (i == 0 || i == 15) for (int j = 0; j < ng; j++) { double o1[4]; gr(1); f(c, a, s, &bound[i + j][0][0], &src[i + j][0], o1, 1); for (int x = 0; x < 4; x++) if (!(std::fabs(o1[x] - out[j * 4 + x]) <= 1e-12 * (std::fabs(o1[x]) + 1))) fail(ST_WRONG, "cell %d direction %d: group %d of three gives %.17g, alone %.17g", g, a, j, out[j * 4 + x], o1[x]); }
                        countCase(true, ng);
                    }
                }
            }
        }
        snprintf(sh->note, sizeof sh->note, "%d inflow/outflow patterns of the faces, largest difference %.2g (pivoting) %.2g (others)", patterns, worst, worstE);
        countCase(false);
    });
}
// values on faces handed to the cell solve are the upwind neighbours' values at the same vertices
Scenario inflow(const CompCase &k)
{
    auto P = std::make_shared<RProblem>(meshOf(k.mesh), k.sn, 0.1, 0, 0.1, 0); auto pt = std::make_shared<std::vector<int>>(k.part);
    return compScenario("inflow", k, [=](int r, LocalView &v) {
        int na = P->na(), ng = k.ng; const RMesh &m = *v.m; uint64_t nb = fn<uint64_t (*)()>(r, "mcs_bound_size")();
        if (nb != (uint64_t)v.nSides * na * 3 * ng) fail(ST_WRONG, "rank %d: boundary data has %lu values for %d sides", r, nb, v.nSides);
        auto val = [&](int c, int vv, int a, int g) { return 1 + ((c * 4 + vv) * na + a) * ng + g; };               // value of a global cell
        std::vector<double> psi((size_t)v.nc * na * 4 * ng), bd(nb);
        for (int c = 0; c < v.nc; c++) for (int a = 0; a < na; a++) for (int x = 0; x < 4; x++) for (int g = 0; g < ng; g++) psi[((size_t)(c * na + a) * 4 + x) * ng + g] = val(v.gc[c], v.gv[c][x], a, g);
        for (size_t i = 0; i < nb; i++) bd[i] = -1.0 - i;
        auto f = fn<void (*)(uint64_t, uint64_t, double *, const double *, double *)>(r, "mcs_populate");
        for (int c = 0; c < v.nc; c++) for (int a = 0; a < na; a++) {
            std::vector<double> o(ng * 12, 7e7); std::vector<double> p2 = psi; f(a, c, p2.data(), bd.data(), o.data());
            if (p2 != psi) fail(ST_WRONG, "rank %d: the flux is changed", r);
            for (int x = 0; x < 4; x++) { int gc = v.gc[c], kk = v.gk[c][x], n = m.nb(gc, kk); if (!(P->flow(gc, kk, a) < 0)) continue;
                for (int y = 0; y < 3; y++) for (int g = 0; g < ng; g++) {
                    double want = 0; int node = m.cell[gc][v.fv[c][x][y]];
                    if (n >= 0 && (*pt)[n] == r) { int u = 0; while (m.cell[n][u] != node) u++; want = val(n, u, a, g); }
                    else if (n >= 0) { int s = -1; for (int q = 0; q < v.nSides; q++) if (v.sc[q] == c && v.sf[q] == x) s = q; want = -1.0 - (double)((((uint64_t)s * na + a) * 3 + y) * ng + g); }
                    double got = o[(g * 4 + x) * 3 + y];
                    if (got != want) fail(ST_WRONG, "rank %d: inflow of cell %d face %d direction %d group %d at node %d is %g, expected %g (neighbour %d on rank %d)", r, gc, kk, a, g, node, got, want, n, n < 0 ? -1 : (*pt)[n]);
                }
                countCase();
            }
        }
    });
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int h = 0;
    if (needSyms({"mcs_cell_solve", "mcs_set_elim", "mcs_set_groups", "mcs_setup", "mcs_mu", "mcs_md"}, "cell solve"))
        for (int s = 0; s < 9; s++) for (int sn : T ? std::vector<int>{2, 4, 8, 16} : std::vector<int>{2, 4, 8}) {
            CompCase k; k.mesh = fmt("shape%d", s); k.part.assign(24, 0); k.sn = sn; k.dev = 0; v.push_back(solve(k)); v.back().cpuLimit = 600;
        }
    if (needSyms({"mcs_cell_solve", "mcs_set_elim", "mcs_set_groups", "mcs_setup", "mcs_mu", "mcs_md"}, "cell solve"))
        for (int s = 0; s < 9; s++) for (int t : {3, 4, 8, 0, 1, 2, 6, 7}) {
            CompCase k; k.mesh = fmt("shape%d~%d", s, t); k.part.assign(24, 0); k.sn = T ? 8 : s % 3 == 0 ? 4 : 2; k.dev = 0; v.push_back(solve(k)); v.back().cpuLimit = 600;
        }
    if (needSyms({"mcs_cell_solve", "mcs_set_elim", "mcs_set_groups", "mcs_setup", "mcs_mu", "mcs_md"}, "cell solve"))
        for (auto mesh : {"cube5", "cube6", "fan4", "box10"}) { CompCase k; k.mesh = mesh; k.part.assign(meshOf(mesh).nc(), 0); k.sn = 4; k.dev = 0; v.push_back(solve(k)); v.back().cpuLimit = 600; }
    if (needSyms({"mcs_populate", "mcs_bound_size", "mcs_setup", "mcs_mu", "mcs_md"}, "inflow of the cell solve"))
        for (auto mesh : {"tet1", "tet2", "tet3", "fan4", "cube5", "cube6", "reg5", "reg6"}) { int nc = meshOf(mesh).nc(); if (!T && nc > 5) continue;
            for (int np = 1; np <= 3 && np <= nc; np++) for (auto &p : allPartitions(nc, np, true, np == 3)) for (int o = 0; o < (T ? 16 : 2); o++) { CompCase k; k.mesh = mesh; k.np = np; k.part = p; k.order = T ? o : (h * 37 + o * 21) % 64; k.ng = 1 + h++ % 3; k.dev = 0; v.push_back(inflow(k)); } }
    return v;
}
}
static Check chk{"C07", "cell solve",
    "nine shapes of tetrahedra in all 24 vertex numberings x all directions of orders 2, 4, 8 x six cross sections x four elimination methods x all 16 single inputs and two full ones, compared with an independent finite-element assembly; inflow values for every face and direction of all partitions of small meshes", "exploration", make, nullptr,
    {"the cell solve is linear in its inputs (the basis of inputs is enumerated, plus full inputs)"}, 200, 780};
static Reg reg(&chk);
