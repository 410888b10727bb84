// C01: full sweeps give the sequential answer under any partition and schedule.
#include "runs.hh"
using namespace rt;
static const char *sw[3] = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph"}, *mt[2] = {"TychoTwoSided", "CapsaicinTwoSided"};
static std::vector<Scenario> make()
{
    std::vector<Scenario> v; int h = 0; bool T = g_thorough;
    auto add = [&](RunCase &k) { v.push_back(runScenario(k)); };
    // 1. every partition of small meshes into one or two ranks; all other settings rotate through their values
    for (auto mesh : T ? std::vector<std::string>{"tet1", "tet2", "tet3", "tet4", "fan4", "cube5", "reg5", "cube6"} : std::vector<std::string>{"tet1", "tet2", "tet3", "fan4", "cube5", "reg5"}) {
        int nc = meshOf(mesh).nc();
        for (int np = 1; np <= 2 && np <= nc; np++) for (auto &p : allPartitions(nc, np)) for (auto w : sw) for (int rep = 0; rep < (T ? 4 : 1); rep++) {
            RunCase k; k.mesh = mesh; k.part = p; k.np = np; k.sweep = w; h++;
            k.thr = 1 + h % 2; k.maxc = (h % 3 == 0) ? 1 : (h % 3 == 1) ? 2 : 100; k.mpi = mt[(h / 2) % 2]; k.intra = h % 5; k.inter = (h / 5) % 3; k.order = (h / 3) * 37 % 64;
            k.mode = SendMode((h + rep) % 3); k.dev = T ? 2 : 1; k.cap = T ? 1500 : 400; k.iterMax = 1 + h % 3;
            add(k);
        }
    }
    // 2. three and four ranks, partitions up to renaming
    for (auto mesh : T ? std::vector<std::string>{"fan4", "tet4", "tet5", "cube5", "cube6", "reg6"} : std::vector<std::string>{"fan4", "tet5", "cube5"}) {
        int nc = meshOf(mesh).nc();
        for (int np = 3; np <= (T ? 4 : 3); np++) for (auto &p : allPartitions(nc, np, true, true)) for (auto w : sw) {
            RunCase k; k.mesh = mesh; k.part = p; k.np = np; k.sweep = w; h++;
            k.thr = 1 + h % 2; k.maxc = (h % 3 == 0) ? 1 : (h % 3 == 1) ? 3 : 100; k.mpi = mt[(h / 2) % 2]; k.intra = h % 5; k.inter = (h / 5) % 3; k.order = (h / 3) * 37 % 64;
            k.mode = SendMode(h % 3); k.dev = T ? 2 : 1; k.cap = T ? 1500 : 150; k.iterMax = 1;
            add(k);
        }
    }
    // 3. all pairs of priorities, all work limits
    for (int intra = 0; intra < 5; intra++) for (int inter = 0; inter < 3; inter++) for (int mc : {1, 2, 7, 100}) for (auto w : sw) for (int b = 0; b < (T ? 3 : 1); b++) {
        RunCase k; h++; k.sweep = w; k.intra = intra; k.inter = inter; k.maxc = mc; k.mpi = mt[h % 2]; k.thr = 1 + (h / 2) % 3; k.mode = SendMode((h / 3) % 3); k.iterMax = 1; k.order = h * 37 % 64;
        int which = T ? b : (intra + inter + mc) % 2;
        if (which == 0) { k.mesh = "cube6"; k.np = 2; k.part = {0, 1, 1, 0, 0, 1}; }
        else if (which == 1) { k.mesh = "box10"; k.np = 3; k.part = {0, 1, 2, 0, 1, 2, 0, 1, 2, 0}; }
        else { k.mesh = "reg12"; k.np = 4; k.part = {0, 1, 2, 3, 0, 1, 2, 3, 3, 2, 1, 0}; }
        k.dev = 1; k.cap = T ? 3000 : 60; add(k);
    }
    // 4. deeper: more deviations on few cells
    struct D { const char *m; std::vector<int> p; int np; }; 
    for (auto &d : std::vector<D>{{"tet2", {0, 1}, 2}, {"tet3", {0, 1, 0}, 2}, {"fan4", {0, 1, 1, 2}, 3}}) for (auto w : sw) for (int mode = 0; mode < 3; mode++) for (int m = 0; m < 2; m++) {
        RunCase k; h++; k.mesh = d.m; k.part = d.p; k.np = d.np; k.sweep = w; k.mpi = mt[m]; k.mode = SendMode(mode); k.maxc = 1 + h % 4; k.iterMax = 1; k.dev = T ? 4 : 2; k.cap = T ? 40000 : 1200; k.sn = 2; k.intra = h % 5; k.thr = 1;
        k.more = {{"OutputFile", "true"}}; add(k);
    }
    // 5. more directions, groups, threads, elimination methods, random orders of magnitude of the cross sections
    static const char *el[4] = {"Original", "NoPivot", "CramerGlu", "CramerIntel"};
    for (auto w : sw) for (int i = 0; i < (T ? 48 : 12); i++) {
        RunCase k; h++; k.sweep = w; k.mesh = (i % 3 == 0) ? "box12" : (i % 3 == 1) ? "reg10" : "box20"; int nc = meshOf(k.mesh).nc(); k.np = 1 + i % 4; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = (i / 4) % 2 ? c * k.np / nc : (c * 7 + c / 3) % k.np;
        k.sn = (i % 5 == 4) ? 6 : (i % 2) ? 4 : 2; k.ng = 1 + i % 3; k.thr = 1 + (i * 5) % 4; k.elim = el[i % 4]; k.maxc = 1 + (i * 3) % 20; k.intra = i % 5; k.inter = i % 3; k.mpi = mt[i % 2]; k.mode = SendMode((i / 2) % 3); k.iterMax = 2; k.order = i;
        if (k.mesh[0] == 'r' && k.sn != 2) k.mesh = "box10";
        if (i % 3 == 2) { k.t1 = 3; k.s1 = 2; k.t2 = 0.001; k.s2 = 0.0005; }
        k.dev = T ? 1 : 0; k.cap = 400; k.part.resize(meshOf(k.mesh).nc()); add(k);
    }
    // 6. a mesh of realistic size
    for (auto w : sw) for (int i = 0; i < (T ? 8 : 2); i++) {
        RunCase k; h++; k.sweep = w; k.mesh = "box48"; int nc = 48; k.np = 4 - i % 2; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = (i % 2) ? c * k.np / nc : (c / 2) % k.np;
        k.sn = 4; k.thr = 1 + i; k.maxc = 10 + i * 40; k.mpi = mt[i % 2]; k.intra = 1 + i % 4; k.inter = (i + 1) % 3; k.dev = 0; k.mode = SendMode(i % 3); k.thr = 1 + i % 4; add(k);
    }
    // 7. sizes beyond those of the other scenarios
    for (auto w : sw) for (int i = 0; i < (T ? 80 : 24); i++) { RunCase k; bigSize(k, i); h++; k.sweep = w; k.maxc = (i % 3 == 0) ? 1000 : (i % 3 == 1) ? 33 : 5; k.mpi = mt[i % 2]; k.intra = (h + i) % 5; k.inter = (i + 1) % 3; k.elim = el[h % 4]; k.dev = T ? 1 : 0; k.cap = 60; k.iterMax = 2 + i % 4; add(k); }
    // 8. more cells than 16 bits can number
    for (int w = 0; w < 3; w++) for (int i = 0; i < (T ? 2 : 1); i++) { RunCase k; k.mesh = "hexa22x22x23"; int nc = 66792; k.np = 1 + i; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = i && c < 100 && c % 2; k.sweep = sw[w]; k.sn = 2; k.ng = 1; k.thr = 1 + w; k.iterMax = 1; k.maxc = w ? 200000 : 70000; k.mpi = mt[w % 2]; k.order = 37 * w; k.dev = 0; k.race = false; v.push_back(runScenario(k)); v.back().cpuLimit = 600; }
    return v;
}
static Check chk{"C01", "full sweeps",
    "every execution runs the program's main and compares every angular flux value in the output file with an independent upwind solver of the whole mesh (1e-11); executions: all choices of schedule, poll results, send buffering and thread interleaving within the deviation bound of each scenario, for all partitions of the small meshes into 1-2 ranks and all partitions up to renaming into 3 (thorough: 4) ranks", "model_checking", make, nullptr,
    {"MPI, OpenMP and PETSc are stand-ins that implement their documented semantics", "executions with more deviations from the default schedule than the scenario's bound are not explored", "meshes of up to 180 cells, 8 ranks, 8 threads, 9 groups"}, 120, 780};
static Reg reg(&chk);
