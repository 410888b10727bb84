// C10: each rank's mesh has correct geometry, orientation and neighbours.
#include "comp.hh"
#include <cmath>
#include <set>
#include <map>
using namespace rt;
namespace {
struct Snap {                         // what one rank says about its boundary
    LocalView v; std::vector<uint64_t> gside, rk, adjC, adjF; std::vector<double> area; std::vector<std::vector<double>> flow; std::vector<std::vector<int>> dir; std::vector<std::array<int, 3>> nodes;
};
Scenario mesh(const CompCase &k)
{
    auto P = std::make_shared<RProblem>(meshOf(k.mesh), k.sn, 0.1, 0, 0.1, 0); auto pt = std::make_shared<std::vector<int>>(k.part); auto S = std::make_shared<std::vector<Snap>>();
    return compScenario("mesh", k, [=](int r, LocalView &v) {
        S->resize(k.np); Snap &s = (*S)[r]; s.v = v; const RMesh &m = *v.m; const RQuad &q = P->q; int want = 0; for (int x : *pt) want += x == r;
        if (v.nc != want) fail(ST_WRONG, "rank %d has %d cells, the file gives it %d", r, v.nc, want);
        if ((int)v.mu(MU_NANGLES) != q.n) fail(ST_WRONG, "%lu directions", v.mu(MU_NANGLES));
        std::set<uint64_t> gs; std::set<int> nodes; for (int c = 0; c < v.nc; c++) for (int x = 0; x < 4; x++) nodes.insert(m.cell[v.gc[c]][x]);
        if (v.mu(MU_NNODES) != nodes.size()) fail(ST_WRONG, "rank %d has %lu nodes, its cells use %zu", r, v.mu(MU_NNODES), nodes.size());
        auto rel = [](double a, double b) { return std::fabs(a - b) <= 1e-11 * std::fabs(b); };
        for (int c = 0; c < v.nc; c++) {
            int g = v.gc[c]; if ((*pt)[g] != r) fail(ST_WRONG, "rank %d has cell %d of rank %d", r, g, (*pt)[g]);
            if (v.mu(MU_LGCELL, c) != (uint64_t)g) fail(ST_WRONG, "rank %d: cell %d has global number %lu, expected %d", r, c, v.mu(MU_LGCELL, c), g);
            if (v.mu(MU_MATERIAL, c) != (uint64_t)m.mat[g]) fail(ST_WRONG, "cell %d has material %lu, expected %d", g, v.mu(MU_MATERIAL, c), m.mat[g]);
            if (!rel(v.md(MD_VOLUME, c), m.volume(g))) fail(ST_WRONG, "cell %d has volume %.15g, expected %.15g", g, v.md(MD_VOLUME, c), m.volume(g));
            for (int f = 0; f < 4; f++) {
                int kk = v.gk[c][f], n = m.nb(g, kk); bool local = n >= 0 && (*pt)[n] == r;
                if (!rel(v.md(MD_AREA, c, f), m.area(g, kk))) fail(ST_WRONG, "cell %d face %d has area %.15g, expected %.15g", g, kk, v.md(MD_AREA, c, f), m.area(g, kk));
                V3 nm = m.normal(g, kk);
                for (int a = 0; a < q.n; a++) {
                    double d = v.md(MD_OMEGADOTN, a, c, f), w = nm[0] * q.om[a][0] + nm[1] * q.om[a][1] + nm[2] * q.om[a][2];
                    if (!(std::fabs(d - w) < 1e-11)) fail(ST_WRONG, "cell %d face %d direction %d: flow %.15g, expected %.15g", g, kk, a, d, w);
                    bool o = v.mu(MU_OUTGOING, a, c, f), i = v.mu(MU_INCOMING, a, c, f);
                    if ((w > 1e-9 && !o) || (w < -1e-9 && !i) || (o && i) || (o && w < -1e-9) || (i && w > 1e-9)) fail(ST_WRONG, "cell %d face %d direction %d with flow %g is%s outgoing and is%s incoming", g, kk, a, w, o ? "" : " not", i ? "" : " not");
                }
                uint64_t ac = v.mu(MU_ADJCELL, c, f), af = v.mu(MU_ADJFACE, c, f), ar = v.mu(MU_ADJRANK, c, f), sd = v.mu(MU_SIDE, c, f), wantR = n < 0 ? ~0ull : (uint64_t)(*pt)[n];
                if (ar != wantR) fail(ST_WRONG, "rank %d cell %d face %d: adjacent rank %lu, expected %ld", r, g, kk, ar, (long)wantR);
                for (int i = 0; i < 3; i++) { uint64_t cv = v.mu(MU_FTOC, c, f, i); if (v.mu(MU_CTOF, c, f, cv) != (uint64_t)i) fail(ST_WRONG, "cell %d face %d: vertex %d of the face is vertex %lu of the cell, which is vertex %lu of the face", g, kk, i, cv, v.mu(MU_CTOF, c, f, cv)); }
                if (local) {
                    if (ac != (uint64_t)v.lc[n]) fail(ST_WRONG, "rank %d cell %d face %d: adjacent cell %lu, expected %d", r, g, kk, ac, v.lc[n]);
                    if (sd != ~0ull) fail(ST_WRONG, "rank %d cell %d face %d is inside the rank and has side %lu", r, g, kk, sd);
                    if (af > 3 || m.nb(n, v.gk[ac][af]) != g) fail(ST_WRONG, "rank %d cell %d face %d: adjacent face %lu is not the one shared", r, g, kk, af);
                    for (int i = 0; i < 3; i++) { uint64_t u = v.mu(MU_NBVRTX, c, f, i); if (u > 3 || m.cell[n][v.gv[ac][u]] != m.cell[g][v.fv[c][f][i]]) fail(ST_WRONG, "rank %d cell %d face %d vertex %d: the neighbour's vertex %lu is another node", r, g, kk, i, u); }
                    for (int a = 0; a < q.n; a++) { double d = v.md(MD_OMEGADOTN, a, c, f), e = v.md(MD_OMEGADOTN, a, ac, af); if (!(std::fabs(d + e) < 1e-12)) fail(ST_WRONG, "face between cells %d and %d: flows %.15g and %.15g", g, n, d, e); if (v.mu(MU_OUTGOING, a, c, f) != v.mu(MU_INCOMING, a, ac, af)) fail(ST_WRONG, "face between cells %d and %d, direction %d: outgoing on one side only", g, n, a); }
                    if (!rel(v.md(MD_AREA, c, f), v.md(MD_AREA, ac, af))) fail(ST_WRONG, "face between cells %d and %d has areas %.15g and %.15g", g, n, v.md(MD_AREA, c, f), v.md(MD_AREA, ac, af));
                } else {
                    if (ac != ~0ull) fail(ST_WRONG, "rank %d cell %d face %d is on the rank's boundary, but has adjacent cell %lu", r, g, kk, ac);
                    if (sd >= (uint64_t)v.nSides || v.mu(MU_SIDECELL, sd) != (uint64_t)c) fail(ST_WRONG, "rank %d cell %d face %d: side %lu belongs to cell %lu", r, g, kk, sd, sd < (uint64_t)v.nSides ? v.mu(MU_SIDECELL, sd) : ~0ull);
                }
                countCase();
            }
        }
        s.gside.resize(v.nSides); s.rk.resize(v.nSides); s.adjC.resize(v.nSides); s.adjF.resize(v.nSides); s.area.resize(v.nSides); s.flow.resize(v.nSides); s.dir.resize(v.nSides); s.nodes.resize(v.nSides);
        for (int i = 0; i < v.nSides; i++) {
            uint64_t g = v.mu(MU_LGSIDE, i); if (!gs.insert(g).second) fail(ST_WRONG, "rank %d gives two sides the global number %lu", r, g);
            if (v.mu(MU_GLSIDE, g) != (uint64_t)i) fail(ST_WRONG, "rank %d: side %d has global number %lu, which is side %lu", r, i, g, v.mu(MU_GLSIDE, g));
            int c = v.sc[i], f = v.sf[i]; s.gside[i] = g; s.rk[i] = v.mu(MU_ADJRANK, c, f); s.area[i] = v.md(MD_AREA, c, f);
            if (s.rk[i] != ~0ull) { s.adjC[i] = v.mu(MU_ADJCELLSIDE, i); s.adjF[i] = v.mu(MU_ADJFACESIDE, i); }
            for (int a = 0; a < q.n; a++) { s.flow[i].push_back(v.md(MD_OMEGADOTN, a, c, f)); s.dir[i].push_back((int)(v.mu(MU_OUTGOING, a, c, f) ? 1 : 0) - (int)(v.mu(MU_INCOMING, a, c, f) ? 1 : 0)); }
            for (int x = 0; x < 3; x++) s.nodes[i][x] = m.cell[v.gc[c]][v.fv[c][f][x]];
        }
    }, [=] {
        const RMesh &m = meshOf(k.mesh);
        for (int r = 0; r < k.np; r++) { Snap &s = (*S)[r];
            for (int i = 0; i < s.v.nSides; i++) {
                int c = s.v.sc[i], f = s.v.sf[i], g = s.v.gc[c], n = m.nb(g, s.v.gk[c][f]);
                for (int p = 0; p < k.np; p++) for (int j = 0; j < (*S)[p].v.nSides; j++) { Snap &t = (*S)[p]; int d = t.v.gc[t.v.sc[j]]; bool twin = n >= 0 && d == n && m.nb(d, t.v.gk[t.v.sc[j]][t.v.sf[j]]) == g, me = p == r && i == j; if (!me && (t.gside[j] == s.gside[i]) != twin) fail(ST_WRONG, "side %d of rank %d and side %d of rank %d %s the global number %lu", i, r, j, p, twin ? "do not share" : "share", s.gside[i]); }
                if (n < 0) continue;
                int p = s.rk[i]; Snap &t = (*S)[p]; int lc = t.v.lc[n];
                if (s.adjC[i] != (uint64_t)lc) fail(ST_WRONG, "rank %d side %d: the cell on the far side is %lu, expected %d of rank %d", r, i, s.adjC[i], lc, p);
                if (s.adjF[i] > 3 || m.nb(n, t.v.gk[lc][s.adjF[i]]) != g) fail(ST_WRONG, "rank %d side %d: the face on the far side is %lu of cell %d, which is not the shared one", r, i, s.adjF[i], n);
                int j = -1; for (int x = 0; x < t.v.nSides; x++) if (t.v.sc[x] == lc && t.v.sf[x] == (int)s.adjF[i]) j = x;
                if (j < 0) fail(ST_WRONG, "rank %d has no side for face %lu of its cell %d", p, s.adjF[i], lc);
                if (!(std::fabs(s.area[i] - t.area[j]) <= 1e-12 * s.area[i])) fail(ST_WRONG, "face between cells %d and %d has areas %.17g and %.17g", g, n, s.area[i], t.area[j]);
                for (size_t a = 0; a < s.flow[i].size(); a++) { if (!(std::fabs(s.flow[i][a] + t.flow[j][a]) < 1e-12)) fail(ST_WRONG, "face between cells %d and %d: flows %.15g and %.15g", g, n, s.flow[i][a], t.flow[j][a]); if (s.dir[i][a] != -t.dir[j][a]) fail(ST_WRONG, "face between cells %d (rank %d) and %d (rank %d), direction %zu: the two ranks disagree about inflow and outflow", g, r, n, p, a); }
                if (s.nodes[i] != t.nodes[j]) fail(ST_WRONG, "face between cells %d (rank %d) and %d (rank %d): the face vertices are nodes %d %d %d on one side, %d %d %d on the other", g, r, n, p, s.nodes[i][0], s.nodes[i][1], s.nodes[i][2], t.nodes[j][0], t.nodes[j][1], t.nodes[j][2]);
                countCase();
            }
        }
    });
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int h = 0;
    if (!needSyms({"mcs_setup", "mcs_mu", "mcs_md"}, "mesh set-up")) return v;
    for (auto ms : {"tet1", "tet2", "tet3", "tet4", "tet5", "fan4", "cube5", "reg5", "cube6", "reg6"}) { int nc = meshOf(ms).nc();
        for (int np = 1; np <= 4 && np <= nc; np++) { if (!T && nc > 5 && np == 4) continue;
            for (auto &p : allPartitions(nc, np, true, np >= 3)) { int reps = T ? (np == 1 ? 64 : 8) : np == 1 ? 16 : 2;
                for (int rep = 0; rep < reps; rep++) { CompCase k; h++; k.mesh = ms; k.part = p; k.np = np; k.order = (h * 37 + rep * 21) % 64; k.mode = SendMode(h % 3); k.sn = h % 5 == 0 ? 4 : 2; k.dev = np > 1 ? 1 : 0; k.cap = T ? 500 : 40; v.push_back(mesh(k)); }
            }
        }
    }
    // larger: four ranks, every rank next to every other, many shared faces
    for (auto ms : {"box10", "box12", "box20", "reg12", "shape3", "shape6"}) for (int np = 1; np <= 4; np++) for (int i = 0; i < (T ? 16 : 4); i++) {
        CompCase k; h++; k.mesh = ms; int nc = meshOf(ms).nc(); k.np = np; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = i % 2 ? c % np : (c * 7 + c / 3 + i) % np; for (int r = 0; r < np; r++) k.part[r] = r; k.order = (h * 37 + i * 16) % 64; k.mode = SendMode(h % 3); k.sn = i % 4 == 3 ? 8 : 2; k.dev = T ? 1 : 0; k.cap = 200; v.push_back(mesh(k));
    }
    // other proportions, sizes and places
    for (auto b : {"tet3", "fan4", "cube5", "reg5", "cube6", "box10", "shape0", "shape2", "shape4", "shape7"}) for (int t = 0; t < 10; t++) for (int np = 1; np <= 3; np++) {
        CompCase k; h++; k.mesh = fmt("%s~%d", b, t); int nc = meshOf(k.mesh).nc(); k.np = np; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = (c + t) % np; k.order = (h * 37 + t * 16) % 64; k.mode = SendMode(h % 3); k.sn = h % 5 == 0 ? 4 : 2; k.dev = T ? 1 : 0; k.cap = 40; v.push_back(mesh(k));
    }
    // message orders in depth
    for (int mode = 0; mode < 3; mode++) for (auto &p : allPartitions(4, 3, true, true)) { CompCase k; h++; k.mesh = "fan4"; k.part = p; k.np = 3; k.order = h * 37 % 64; k.mode = SendMode(mode); k.dev = T ? 4 : 2; k.cap = T ? 20000 : 1500; v.push_back(mesh(k)); }
    // partitions at places of the mesh file beyond 32 bits
    for (uint64_t gap : {0x7fffff00ull, 0x80000000ull, 0xffffff80ull, 0x100000000ull, 0x123456789abull}) for (int np = 1; np <= 4; np++) { CompCase k; k.mesh = np == 2 ? "tet3" : "box10"; k.gap = gap; int nc = meshOf(k.mesh).nc(); k.np = np; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = c % np; k.order = np * 37 % 64; k.dev = 0; Scenario s = mesh(k); s.name = fmt("gap%lx/", gap) + s.name; v.push_back(s); }
    // sizes beyond those of the other scenarios
    for (int i = 0; i < (T ? 128 : 48); i++) { CompCase k; bigSize(k, i); k.order = (i * 37 + i / 8 * 16) % 64; k.dev = T ? 1 : 0; k.cap = 40; v.push_back(mesh(k)); }
    for (int i = 0; i < 3; i++) { CompCase k; huge(k, i); v.push_back(mesh(k)); v.back().cpuLimit = 600; }
    return v;
}
}
static Check chk{"C10", "mesh set-up",
    "the mesh object of every rank for all partitions of small meshes under families of cell, face, node and listing orders; every accessor compared with the global mesh and between ranks, on every explored message timing", "model_checking", make, nullptr,
    {"cells are identified by the coordinates of their vertices"}, 150, 780};
static Reg reg(&chk);
