// C05: buffers handed to pending communication stay valid and untouched; everything started is completed.
#include "comp.hh"
#include <cmath>
using namespace rt;
static const char *all[9] = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph", "PBJ", "PBJOuter", "PBJSI", "Schur", "SchurOuter", "SchurKrylov"}, *mt[2] = {"TychoTwoSided", "CapsaicinTwoSided"};
static std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int h = 0;
    auto add = [&](RunCase k) { k.ref = RunCase::NONE; k.strictBuf = true; v.push_back(runScenario(k)); };
    // 1. every program path x every partition of the small meshes x buffering that keeps sends pending as long as possible
    for (auto mesh : T ? std::vector<std::string>{"tet2", "tet3", "fan4", "cube5", "reg5"} : std::vector<std::string>{"tet2", "tet3", "fan4"}) {
        int nc = meshOf(mesh).nc();
        for (int np = 2; np <= 3 && np <= nc; np++) for (auto &p : allPartitions(nc, np, true, nc > 3 || np == 3)) for (auto w : all) for (int m = 0; m < (isFull(w) ? 2 : 1); m++) for (SendMode mode : {SYNC, CHOOSE, CHOOSE_SYNC}) {
            RunCase k; h++; k.sweep = w; k.mesh = mesh; k.np = np; k.part = p; k.mpi = mt[m]; k.mode = mode; k.order = h * 37 % 64; k.si = h % 3 != 0; k.ng = 1 + h % 2; k.iterMax = 2; k.ddIter = 3; k.ddErr = "0.0"; k.maxc = h % 2 ? 1 : 100; k.intra = h % 5; k.inter = h / 5 % 3; k.thr = 1 + h % 7 / 6; k.dev = 1; k.cap = T ? 1500 : 50; add(k);
        }
    }
    // 2. larger traffic: several packets per neighbour and step, four ranks
    for (auto w : all) for (int m = 0; m < (isFull(w) ? 2 : 1); m++) for (int i = 0; i < (T ? 12 : 3); i++) {
        RunCase k; h++; k.sweep = w; k.mesh = i % 2 ? "cube6" : "box10"; int nc = meshOf(k.mesh).nc(); k.np = 2 + i % 3; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = c % k.np; k.mpi = mt[m]; k.mode = i % 2 ? SYNC : CHOOSE; k.maxc = 1 + i * 9; k.ng = 1 + i % 3; k.thr = 1 + i % 2; k.iterMax = 1; k.ddIter = 2; k.intra = i % 5; k.dev = T ? 1 : 0; k.cap = 300; add(k);
    }
    // 3. depth
    for (auto w : all) for (int m = 0; m < (isFull(w) ? 2 : 1); m++) for (SendMode mode : {SYNC, CHOOSE}) {
        RunCase k; h++; k.sweep = w; k.mesh = "tet2"; k.np = 2; k.part = {0, 1}; k.mpi = mt[m]; k.mode = mode; k.iterMax = 1; k.ddIter = 2; k.dev = T ? 4 : 2; k.cap = T ? 30000 : 500; add(k);
    }
    // 4. the exchange and the mesh set-up on their own: all partitions, repeated exchanges
    if (needSyms({"mcs_setup", "mcs_cs_new", "mcs_cs_run", "mcs_bound_size", "mcs_mu", "mcs_md"}, "boundary exchange"))
        for (auto mesh : {"tet2", "tet3", "fan4", "cube5"}) { int nc = meshOf(mesh).nc();
            for (int np = 2; np <= 3 && np <= nc; np++) for (auto &p : allPartitions(nc, np, true, nc > 3)) {
                CompCase k; h++; k.mesh = mesh; k.np = np; k.part = p; k.order = h * 37 % 64; k.mode = h % 2 ? SYNC : CHOOSE; k.ng = 1 + h % 2; k.strictBuf = true; k.dev = 1; k.cap = T ? 2000 : 60;
                v.push_back(compScenario("exchange", k, [=](int r, LocalView &w) {
                    int na = fn<uint64_t (*)(int, uint64_t, uint64_t, uint64_t)>(r, "mcs_mu")(MU_NANGLES, 0, 0, 0); uint64_t n = fn<uint64_t (*)()>(r, "mcs_bound_size")();
                    std::vector<double> psi((size_t)w.nc * na * 4 * k.ng, 1.5), b(n, 2.5); void *c = fn<void *(*)()>(r, "mcs_cs_new")();
                    for (int i = 0; i < 3; i++) fn<void (*)(void *, double *, double *)>(r, "mcs_cs_run")(c, psi.data(), b.data());
                    countCase();
                }));
            }
        }
    // 5. sizes beyond those of the other scenarios
    for (auto w : all) for (int i = 0; i < (T ? 32 : 8); i++) { RunCase k; h++; bigSize(k, i + h); if (k.np == 1) k.np = 3; for (int c = 0; c < meshOf(k.mesh).nc(); c++) k.part[c] = c < k.np ? c : k.part[c] % k.np; if (k.sn > 4) k.sn = 4; k.sweep = w; k.si = h % 3 != 0; k.mpi = mt[i % 2]; k.mode = SendMode(1 + h % 3); k.maxc = (h % 3 == 0) ? 1000 : (h % 3 == 1) ? 33 : 5; k.intra = h % 5; k.inter = (h + i) % 3; k.iterMax = 1; k.ddIter = 2; k.ddErr = "0.0"; k.dev = 0; add(k); }
    return v;
}
static Check chk{"C05", "communication buffers",
    "runs of the program's main for all sweep types and repeated boundary exchanges, with sends that complete as late as legal; on every explored execution every memory access and release is compared with the buffers of all operations not known complete, and every operation must be completed by a wait or a successful test, with a receive at least as large as its message", "model_checking", make, nullptr,
    {"accesses inside libc and PETSc are not seen, except memcpy/memmove/memset and MPI buffers"}, 150, 780, {ST_BUFFER}};
static Reg reg(&chk);
