// C02: every run terminates cleanly whatever the legal message timing.
#include "runs.hh"
using namespace rt;
static const char *full[3] = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph"}, *mt[2] = {"TychoTwoSided", "CapsaicinTwoSided"};
static const char *dd[6] = {"PBJ", "PBJOuter", "PBJSI", "Schur", "SchurOuter", "SchurKrylov"};
// parts of a mesh that leave some ranks without a common boundary
static std::vector<Scenario> make()
{
    std::vector<Scenario> v; int h = 0; bool T = g_thorough;
    auto add = [&](RunCase k) { k.ref = RunCase::NONE; v.push_back(runScenario(k)); };
    // 1. full sweeps: all partitions into 2 and 3 ranks of small meshes x buffering of sends
    for (auto mesh : T ? std::vector<std::string>{"tet2", "tet3", "fan4", "tet4", "cube5", "reg5"} : std::vector<std::string>{"tet2", "tet3", "fan4", "reg5"}) {
        int nc = meshOf(mesh).nc();
        for (int np = 2; np <= 3 && np <= nc; np++) for (auto &p : allPartitions(nc, np, true, !T || np == 3)) for (auto w : full) for (int mode = 1; mode < 4; mode++) for (int m = 0; m < 2; m++) {
            RunCase k; k.mesh = mesh; k.part = p; k.np = np; k.sweep = w; h++; k.mode = SendMode(mode); k.mpi = mt[m]; k.maxc = (h % 3 == 0) ? 1 : (h % 3 == 1) ? 2 : 100; k.intra = h % 5; k.inter = (h / 5) % 3; k.order = h * 37 % 64; k.thr = 1 + (h / 3) % 2; k.iterMax = 1 + (h % 4 == 0);
            k.dev = T ? 2 : 1; k.cap = T ? 1200 : 150; add(k);
        }
    }
    // 2. all solvers, source iteration and Krylov inside
    for (auto w : dd) for (int si = 0; si < 2; si++) for (int mode = 0; mode < 4; mode++) {
        struct P { const char *m; int np; std::vector<int> p; };
        std::vector<P> ps = {{"tet3", 2, {0, 1, 0}}, {"tet4", 3, {0, 1, 2, 0}}, {"tet4", 3, {0, 1, 1, 2}}, {"fan4", 4, {0, 1, 2, 3}}, {"tet2", 1, {0, 0}}};
        for (auto &p : ps) for (int it = 0; it < 2; it++) {
            RunCase k; h++; k.mesh = p.m; k.part = p.p; k.np = p.np; k.sweep = w; k.si = si; k.mode = SendMode(mode); k.thr = 1 + h % 3; k.order = h * 37 % 64;
            k.iterMax = it ? 30 : 2; k.errMax = it ? "1e-5" : "0.0"; k.ddIter = it ? 30 : 3; k.ddErr = it ? "1e-6" : "0.0"; k.dev = it ? 0 : (T ? 2 : 1); k.cap = T ? 1500 : 60; add(k);
        }
    }
    for (auto w : full) for (int mode = 0; mode < 4; mode++) for (int m = 0; m < 2; m++) { RunCase k; h++; k.mesh = "fan4"; k.part = {0, 1, 2, 0}; k.np = 3; k.sweep = w; k.si = false; k.mpi = mt[m]; k.mode = SendMode(mode); k.iterMax = 4; k.errMax = "1e-9"; k.maxc = 2; k.dev = 1; k.cap = T ? 2000 : 100; add(k); }
    // 3. larger: work limits x message schemes on more ranks, more neighbours
    for (auto w : full) for (int np = 2; np <= 4; np++) for (int mc : {1, 3, 1000}) for (int m = 0; m < 2; m++) for (int mode = 1; mode < 4; mode++) for (int g = 0; g < (T ? 4 : 1); g++) {
        RunCase k; h++; k.mesh = (h % 2) ? "box10" : "reg12"; int nc = meshOf(k.mesh).nc(); k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = (h + g) % 3 == 0 ? c * np / nc : (h + g) % 3 == 1 ? c % np : (c / 2 + c * c) % np;
        { std::vector<int> used(np); for (int x : k.part) used[x] = 1; bool all = true; for (int x : used) all &= x; if (!all) for (int c = 0; c < nc; c++) k.part[c] = c % np; }
        k.np = np; k.sweep = w; k.maxc = mc; k.mpi = mt[m]; k.mode = SendMode(mode); k.thr = 1 + h % 3; k.intra = h % 5; k.inter = h % 3; k.order = h * 37 % 64; k.dev = T ? 1 : 0; k.cap = 300; add(k);
    }
    // 4. deep exploration of the smallest problems: two ranks that depend on each other in both directions
    for (auto w : full) for (int m = 0; m < 2; m++) for (int mode = 2; mode < 4; mode++) for (int mc : {1, 4, 100}) {
        RunCase k; h++; k.mesh = "tet2"; k.part = {0, 1}; k.np = 2; k.sweep = w; k.mpi = mt[m]; k.mode = SendMode(mode); k.maxc = mc; k.iterMax = 1; k.dev = T ? 4 : 2; k.cap = T ? 60000 : 1500; add(k);
    }
    // 5. output disabled and no iterations
    for (auto w : full) { RunCase k; k.mesh = "tet2"; k.part = {0, 1}; k.np = 2; k.sweep = w; k.iterMax = 0; k.mode = SYNC; k.more = {{"OutputFile", "false"}}; k.dev = 1; k.cap = 200; add(k); }
    // 6. sizes beyond those of the other scenarios
    for (int w = 0; w < 9; w++) for (int i = 0; i < (T ? 40 : 8); i++) {
        RunCase k; h++; bigSize(k, i + w); k.sweep = w < 3 ? full[w] : dd[w - 3]; k.si = h % 3 != 0; k.mpi = mt[i % 2]; k.mode = SendMode(1 + h % 3); k.maxc = (h % 3 == 0) ? 1000 : (h % 3 == 1) ? 33 : 5; k.intra = h % 5; k.inter = (h + i) % 3; k.iterMax = 2; k.ddIter = 3; k.ddErr = "0.0"; k.dev = T ? 1 : 0; k.cap = 40; add(k);
    }
    return v;
}
static Check chk{"C02", "termination",
    "runs of the program's main for all sweep types; every execution must end with all ranks finalized, all messages received, all collectives matching; sends are eager, synchronous, or each decided by the explorer", "model_checking", make, nullptr,
    {"MPI, OpenMP and PETSc are stand-ins that implement their documented semantics", "a polling loop that makes no progress for 3000 fair rounds is called a livelock", "executions with more deviations from the default schedule than the scenario's bound are not explored"}, 150, 780};
static Reg reg(&chk);
