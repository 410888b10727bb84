// C04: threads never race; message passing stays within its thread level.
#include "comp.hh"
using namespace rt;
static const char *all[9] = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph", "PBJ", "PBJOuter", "PBJSI", "Schur", "SchurOuter", "SchurKrylov"}, *mt[2] = {"TychoTwoSided", "CapsaicinTwoSided"};
// the traverser alone: forward, backward, forward with a data object that does nothing
static Scenario trav(CompCase k, int step, int pr)
{
    k.race = k.strictLevel = true;
    return compScenario(fmt("traverse/s%d/p%d", step, pr), k, [=](int r, LocalView &v) {
        void *g[2]; for (int d = 0; d < 2; d++) g[d] = fn<void *(*)(int, int, uint64_t)>(r, "mcs_trav_new")(d == 0, 1, 8);
        struct D { int pr; double z; } D{pr, 0};
        McTrav T = {&D, [](void *x, uint64_t, uint64_t, uint64_t) { return (const char *)&((struct D *)x)->z; }, [](void *, uint64_t, uint64_t, const char *) {}, [](void *x, uint64_t c, uint64_t a) { int p = ((struct D *)x)->pr; return p == 0 ? 0 : p == 1 ? c : p == 2 ? 1000 - c : mix(c, a) % 7; }, [](void *, uint64_t, uint64_t, const uint64_t *, const int *) {}};
        for (int t = 0; t < 3; t++) fn<void (*)(void *, uint64_t, const McTrav *)>(r, "mcs_trav_run")(g[t & 1], step, &T);
    });
}
static std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int h = 0;
    auto add = [&](RunCase k) { k.ref = RunCase::NONE; k.race = true; k.strictLevel = true; v.push_back(runScenario(k)); };
    struct P { const char *m; int np; std::vector<int> p; };
    std::vector<P> ps = {{"tet2", 1, {0, 0}}, {"tet2", 2, {0, 1}}, {"tet3", 2, {0, 1, 0}}, {"fan4", 3, {0, 1, 2, 1}}};
    // 1. all sweep types x thread counts x source iteration / Krylov x priorities x groups
    for (auto w : all) for (int thr = 2; thr <= 4; thr++) for (int si = 0; si < 2; si++) for (auto &p : ps) for (int m = 0; m < (isFull(w) ? 2 : 1); m++) {
        RunCase k; h++; k.sweep = w; k.mesh = p.m; k.np = p.np; k.part = p.p; k.thr = thr; k.si = si; k.mpi = mt[m]; k.mode = SendMode(h % 3); k.iterMax = 2; k.ddIter = 3; k.ddErr = "0.0"; k.ng = 1 + h % 2; k.intra = h % 5; k.inter = (h / 5) % 3; k.maxc = (h % 3 == 0) ? 1 : (h % 3 == 1) ? 3 : 100; k.order = h * 37 % 64;
        k.dev = 1; k.cap = T ? 3000 : 120; add(k);
    }
    // 2. thread interleavings in depth on one and two ranks
    for (auto w : all) for (int np = 1; np <= 2; np++) for (int mc : {1, 100}) {
        RunCase k; h++; k.sweep = w; k.mesh = "tet2"; k.np = np; k.part = {0, np - 1}; k.thr = 2; k.iterMax = 1; k.ddIter = 2; k.maxc = mc; k.mode = EAGER; k.dev = T ? 3 : 2; k.cap = T ? 20000 : 400; add(k);
    }
    // 3. larger problems: more angles per thread, all priority pairs
    static const char *el[4] = {"Original", "NoPivot", "CramerGlu", "CramerIntel"};
    for (auto w : all) for (int i = 0; i < (T ? 30 : 5); i++) {
        RunCase k; h++; k.sweep = w; k.mesh = i % 2 ? "cube6" : "box10"; int nc = meshOf(k.mesh).nc(); k.np = 1 + (i + h) % 3; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = c % k.np; k.thr = 2 + i % 4; k.sn = i % 3 == 2 ? 4 : 2; k.ng = 1 + i % 3; k.intra = i % 5; k.inter = (i / 5 + i) % 3; k.maxc = 1 + i * 7; k.mpi = mt[i % 2]; k.elim = el[i % 4]; k.iterMax = 1; k.ddIter = 2; k.mode = SendMode(i % 3); k.dev = T ? 1 : 0; k.cap = 300; add(k);
    }
    // 4. ranks with many cells: threads have work of all directions at once
    static const char *big[4] = {"box40", "grid2x2x3", "box48", "grid3x2x2"};
    for (auto w : all) for (int thr = 2; thr <= 5; thr++) for (int i = 0; i < (T ? 12 : 3); i++) {
        RunCase k; h++; k.sweep = w; k.mesh = big[(i + h) % 4]; int nc = meshOf(k.mesh).nc(); k.np = 1 + (i + thr + h / 4) % 3; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = c * k.np / nc; k.thr = thr; k.sn = h % 4 == 3 ? 4 : 2; k.ng = 1 + (i + h) % 2; k.intra = h % 5; k.inter = (h / 5) % 3; k.maxc = i % 3 == 0 ? 10 : i % 3 == 1 ? 1000 : 3; k.mpi = mt[h / 2 % 2]; k.elim = el[h % 4]; k.iterMax = 1; k.ddIter = 2; k.si = h % 3; k.mode = SendMode(h % 3); k.order = h; k.dev = T ? 1 : 0; k.cap = 60; add(k);
    }
    if (needSyms({"mcs_trav_new", "mcs_trav_run", "mcs_setup", "mcs_mu", "mcs_md"}, "traversal")) {
        for (auto mesh : {"box40", "grid2x2x3", "box48", "grid3x2x2", "grid3x3x2"}) for (int np = 1; np <= 3; np++) for (int thr = 2; thr <= 5; thr++) for (int st : {3, 10, 1000}) for (int m = 0; m < 2; m++) {
            CompCase k; h++; k.mesh = mesh; int nc = meshOf(mesh).nc(); k.np = np; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = c * np / nc; k.thr = thr; k.mpi = m; k.mode = SendMode(h % 3); k.order = h; k.sn = h % 5 == 4 ? 4 : 2; k.dev = T ? 1 : 0; k.cap = 40; v.push_back(trav(k, st, h % 4));
        }
        for (auto mesh : {"tet3", "fan4", "cube5"}) for (int np = 1; np <= 2; np++) for (int thr = 2; thr <= 3; thr++) for (int m = 0; m < 2; m++) {
            CompCase k; h++; k.mesh = mesh; int nc = meshOf(mesh).nc(); k.np = np; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = c * np / nc; k.thr = thr; k.mpi = m; k.mode = SendMode(h % 3); k.dev = T ? 3 : 2; k.cap = T ? 20000 : 500; v.push_back(trav(k, 1000, h % 4));
        }
    }
    // sizes beyond those of the other scenarios
    for (auto w : all) for (int i = 0; i < (T ? 32 : 8); i++) { RunCase k; h++; bigSize(k, i + h); if (k.thr == 1) k.thr = 6; if (k.sn > 4) k.sn = 4; k.sweep = w; k.si = h % 3 != 0; k.mpi = mt[i % 2]; k.maxc = (h % 3 == 0) ? 1000 : (h % 3 == 1) ? 33 : 5; k.intra = h % 5; k.inter = (h + i) % 3; k.iterMax = 1; k.ddIter = 2; k.ddErr = "0.0"; k.dev = 0; add(k); }
    return v;
}
static Check chk{"C04", "threads",
    "runs of the program's main for all sweep types with 2-5 threads; happens-before race detection on every memory access of the instrumented program (std containers included), on every explored schedule; every message-passing call from a thread checked against the provided level", "model_checking", make, nullptr,
    {"OpenMP semantics (implicit barriers, atomics, criticals, worksharing) are those of our stand-in", "accesses inside libc and PETSc are not seen, except memcpy/memmove/memset and MPI buffers"}, 150, 780, {ST_RACE, ST_THREADLEVEL}};
static Reg reg(&chk);
