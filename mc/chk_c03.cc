// C03: a traversal visits each cell-angle pair once, after its upwind neighbours; packets reach the right face.
#include "comp.hh"
#include <cstring>
#include <cmath>
using namespace rt;
namespace {
struct Mon {                      // shared by all ranks; one round per traversal
    const RMesh *m; const RQuad *q; const std::vector<int> *part; bool forward, comm; int bytes, prio; int round = 0;
    std::vector<char> done;       // [global cell * na + a]
    std::vector<char> got;        // [(global cell * 4 + k) * na + a]: data for this rank-boundary face and direction was delivered
    std::vector<char> asked;      // [(cell*4+k)*na+a]: data was taken from this face
    double flow(int c, int k, int a) const { V3 n = m->normal(c, k); double d = n[0] * q->om[a][0] + n[1] * q->om[a][1] + n[2] * q->om[a][2]; return std::fabs(d) < 1e-10 ? 0 : forward ? d : -d; }
};
struct RankMon { Mon *M; LocalView *v; int rank; int updates = 0; char buf[256]; };
void payload(char *b, int bytes, int c, int cn, int a, int round)      // identifies sender cell, receiving cell, direction, traversal
{
    uint64_t h = mix(mix(mix(mix(77, c), cn), a), round); for (int i = 0; i < bytes; i++) { h = mix(h, i); b[i] = (char)h; }
}
const char *getData(void *x, uint64_t cell, uint64_t face, uint64_t a)
{
    RankMon &R = *(RankMon *)x; Mon &M = *R.M; int na = M.q->n;
    if (cell >= (uint64_t)R.v->nc || face > 3 || a >= (uint64_t)na) fail(ST_WRONG, "rank %d: data asked for cell %lu face %lu angle %lu", R.rank, cell, face, a);
    int c = R.v->gc[cell], k = R.v->gk[cell][face], n = M.m->nb(c, k);
    if (!M.done[c * na + a]) fail(ST_WRONG, "rank %d: data of cell %d angle %lu is taken before it was updated", R.rank, c, a);
    if (!(M.flow(c, k, a) > 0) || n < 0 || (*M.part)[n] == R.rank || !M.comm) fail(ST_WRONG, "rank %d: data asked for a face that is not an outflow rank boundary (cell %d face %d angle %lu)", R.rank, c, k, a);
    payload(R.buf, M.bytes, c, n, a, M.round);
    return R.buf;
}
void setSide(void *x, uint64_t side, uint64_t a, const char *d)
{
    RankMon &R = *(RankMon *)x; Mon &M = *R.M; int na = M.q->n;
    if (side >= (uint64_t)R.v->nSides || a >= (uint64_t)na) fail(ST_WRONG, "rank %d: data set for side %lu angle %lu", R.rank, side, a);
    int lc = R.v->sc[side], c = R.v->gc[lc], k = R.v->gk[lc][R.v->sf[side]], n = M.m->nb(c, k);
    if (n < 0) fail(ST_WRONG, "rank %d: data set for the external side %lu", R.rank, side);
    if (!(M.flow(c, k, a) < 0)) fail(ST_WRONG, "rank %d: data set for cell %d face %d angle %lu, which is no inflow", R.rank, c, k, a);
    if (!M.done[n * na + a]) fail(ST_WRONG, "rank %d: data from cell %d angle %lu arrives before it was updated", R.rank, n, a);
    char want[256]; payload(want, M.bytes, n, c, a, M.round);
    if (memcmp(want, d, M.bytes)) fail(ST_WRONG, "rank %d: the data delivered to cell %d face %d angle %lu is not what the neighbour %d published for it", R.rank, c, k, a, n);
    char &g = M.got[(c * 4 + k) * na + a]; if (g) fail(ST_WRONG, "rank %d: data delivered twice to cell %d face %d angle %lu", R.rank, c, k, a); g = 1;
    if (M.done[c * na + a]) fail(ST_WRONG, "rank %d: data delivered to cell %d angle %lu after its update", R.rank, c, a);
}
uint64_t prio(void *x, uint64_t cell, uint64_t a)
{
    RankMon &R = *(RankMon *)x; Mon &M = *R.M; if (cell >= (uint64_t)R.v->nc || a >= (uint64_t)M.q->n) fail(ST_WRONG, "rank %d: priority asked for cell %lu angle %lu", R.rank, cell, a);
    uint64_t c = R.v->gc[cell];
    switch (M.prio) { case 0: return 0; case 1: return c; case 2: return 1000 - c; case 3: return mix(c, a) % 7; default: return a * 100 + c; }
}
void update(void *x, uint64_t cell, uint64_t a, const uint64_t *adj, const int *bt)
{
    RankMon &R = *(RankMon *)x; Mon &M = *R.M; int na = M.q->n;
    if (cell >= (uint64_t)R.v->nc || a >= (uint64_t)na) fail(ST_WRONG, "rank %d: update of cell %lu angle %lu", R.rank, cell, a);
    int c = R.v->gc[cell];
    if (M.done[c * na + a]) fail(ST_WRONG, "rank %d: cell %d angle %lu is updated twice", R.rank, c, a);
    for (int f = 0; f < 4; f++) {
        int k = R.v->gk[cell][f], n = M.m->nb(c, k); double w = M.flow(c, k, a); bool local = n >= 0 && (*M.part)[n] == R.rank;
        if (w < 0 && n >= 0 && (local || M.comm)) {
            if (!M.done[n * na + a]) fail(ST_WRONG, "rank %d: cell %d angle %lu is updated before its %s neighbour %d (rank %d)", R.rank, c, a, M.forward ? "upwind" : "downwind", n, (*M.part)[n]);
            if (!local && !M.got[(c * 4 + k) * na + a]) fail(ST_WRONG, "rank %d: cell %d angle %lu is updated before the data of its neighbour %d arrived", R.rank, c, a, n);
        }
        double out = M.forward ? w : -w;      // as seen by the direction itself
        int place = n < 0 ? 1 : local ? 2 : 0, want = out > 0 ? place : 3 + place;
        bool ok = out != 0 ? bt[f] == want : (bt[f] >= 0 && bt[f] % 3 == place);
        if (!ok) fail(ST_WRONG, "rank %d: face %d of cell %d is described as type %d for angle %lu, expected %d", R.rank, k, c, bt[f], a, want);
        if (place == 2 && adj[f] != (uint64_t)R.v->lc[n]) fail(ST_WRONG, "rank %d: face %d of cell %d: neighbour %lu, expected %d", R.rank, k, c, adj[f], R.v->lc[n]);
        if (place == 0 && (adj[f] >= (uint64_t)R.v->nSides || R.v->sc[adj[f]] != (int)cell || R.v->sf[adj[f]] != f)) fail(ST_WRONG, "rank %d: face %d of cell %d: side %lu is not the one of this face", R.rank, k, c, adj[f]);
    }
    M.done[c * na + a] = 1; R.updates++;
}
Scenario trav(const CompCase &k, int dirs, bool comm, int bytes, int pr, int maxStep)   // dirs: bit i = direction of traversal i is backward; 3 traversals
{
    auto M = std::make_shared<Mon>(); auto q = std::make_shared<RQuad>(k.sn); auto done = std::make_shared<std::vector<std::vector<char>>>();
    const int N = 3;
    return compScenario(fmt("%s%s%s/b%d/p%d/s%d", dirs & 1 ? "B" : "F", dirs & 2 ? "B" : "F", comm ? "/comm" : "/local", bytes, pr, maxStep), k, [=](int r, LocalView &v) {
        // two traverser objects as the program may use them, three traversals in a row
        void *g[2]; for (int d = 0; d < 2; d++) g[d] = fn<void *(*)(int, int, uint64_t)>(r, "mcs_trav_new")(d == 0, comm, bytes);
        for (int t = 0; t < N; t++) {
            bool back = (dirs >> t) & 1;
            static Mon *mons[8]; if (!mons[t]) { mons[t] = new Mon; Mon &m = *mons[t]; m.m = v.m; m.q = q.get(); m.part = g_part; m.forward = !back; m.comm = comm; m.bytes = bytes; m.prio = pr; m.round = t; m.done.assign(v.m->nc() * q->n, 0); m.got.assign(v.m->nc() * q->n * 4, 0); }
            RankMon R; R.M = mons[t]; R.v = &v; R.rank = r; McTrav T = {&R, getData, setSide, prio, update};
            fn<void (*)(void *, uint64_t, const McTrav *)>(r, "mcs_trav_run")(g[back], maxStep, &T);
            if (R.updates != v.nc * q->n) fail(ST_WRONG, "rank %d: traversal %d made %d updates of %d", r, t, R.updates, v.nc * q->n);
        }
    });
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int h = 0;
    if (!needSyms({"mcs_trav_new", "mcs_trav_run", "mcs_setup", "mcs_mu", "mcs_md"}, "traversal")) return v;
    auto add = [&](CompCase k, int dev, uint64_t cap) {
        static const int bs[] = {8, 1, 24, 72}; static const int st[] = {100, 1, 2, 5};
        k.dev = dev; k.cap = cap; h++; v.push_back(trav(k, h % 8, (h / 8) % 4 != 3, bs[(h / 3) % 4], (h / 2) % 5, st[h % 4]));
    };
    for (auto mesh : T ? std::vector<std::string>{"tet1", "tet2", "tet3", "tet4", "fan4", "cube5", "reg5", "cube6"} : std::vector<std::string>{"tet1", "tet2", "tet3", "fan4", "cube5", "reg5"}) {
        int nc = meshOf(mesh).nc();
        for (int np = 1; np <= 3 && np <= nc; np++) for (auto &p : allPartitions(nc, np, true, np == 3)) for (int m = 0; m < 2; m++) for (int mode = 0; mode < 3; mode++) {
            CompCase k; k.mesh = mesh; k.part = p; k.np = np; k.mpi = m; k.mode = SendMode(mode); k.thr = 1 + (h / 5) % 2; k.order = h * 37 % 64; add(k, T ? 2 : 1, T ? 800 : 60);
        }
    }
    // every direction sequence x comm x step limit x message scheme
    for (int dirs = 0; dirs < 8; dirs++) for (int comm = 0; comm < 2; comm++) for (int st : {1, 3, 1000}) for (int m = 0; m < 2; m++) for (int thr = 1; thr <= 3; thr++) {
        CompCase k; k.mesh = dirs % 2 ? "box10" : "reg12"; int nc = meshOf(k.mesh).nc(); k.np = 2 + (dirs + st) % 3; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = (c * 5 + c / 4) % k.np; for (int c = 0; c < k.np; c++) k.part[c] = c;
        k.thr = thr; k.mpi = m; k.mode = SendMode((dirs + m) % 3); k.order = dirs * 2 + m; k.dev = T ? 1 : 0; k.cap = 200; if (k.mesh[0] == 'b') k.sn = 4;
        v.push_back(trav(k, dirs, comm, 16, (dirs + st) % 5, st));
    }
    // faces parallel to directions
    for (auto mesh : {"reg6", "reg12", "even2x2x1"}) for (int dirs = 0; dirs < 8; dirs++) for (int comm = 0; comm < 2; comm++) for (int np = 1; np <= 3; np++) for (int m = 0; m < 2; m++) {
        CompCase k; k.mesh = mesh; int nc = meshOf(mesh).nc(); k.np = np; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = c < np ? c : (c * 5 + c / 4 + dirs) % np;
        k.thr = 1 + dirs % 3; k.mpi = m; k.mode = SendMode((dirs + m) % 3); k.order = dirs * 7 + m; k.dev = 0; if (comm && dirs % 2) k.sn = 4; v.push_back(trav(k, dirs, comm, 16, (dirs + np) % 5, 1 + (dirs + m) % 3 * 4));
    }
    // deeper
    for (int m = 0; m < 2; m++) for (int mode = 0; mode < 3; mode++) for (int d : {0, 7}) for (int st : {1, 100}) {
        CompCase k; k.mesh = "tet2"; k.part = {0, 1}; k.np = 2; k.mpi = m; k.mode = SendMode(mode); k.dev = T ? 4 : 2; k.cap = T ? 40000 : 1000; v.push_back(trav(k, d, true, 8, 1, st));
    }
    // sizes beyond those of the other scenarios
    for (int i = 0; i < (T ? 96 : 48); i++) { CompCase k; bigSize(k, i); k.mpi = i % 2; static const int st[] = {1000, 7, 40}; k.dev = T ? 1 : 0; k.cap = 40; v.push_back(trav(k, i % 8, i % 6 != 5, 8 + 8 * (i % 9), i % 5, st[i % 3])); }
    return v;
}
}
static Check chk{"C03", "graph traversal",
    "three traversals in a row (all forward/backward sequences rotate) through the real GraphTraverser with a recording data object on every rank; each update, publication and delivery is compared with the dependency relation of the global mesh", "model_checking", make, nullptr,
    {"MPI and OpenMP are stand-ins that implement their documented semantics", "executions with more deviations from the default schedule than the scenario's bound are not explored"}, 150, 780};
static Reg reg(&chk);
