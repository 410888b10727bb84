// Scenarios that run the whole program (main) on a small mesh.
#pragma once
#include "harness.hh"
struct RunCase {
    std::string mesh = "tet3"; std::vector<int> part = {0}; int np = 1, thr = 1;
    std::string sweep = "TraverseGraph", mpi = "TychoTwoSided";
    int maxc = 100, intra = 1, inter = 1; unsigned order = 0; int ng = 1, sn = 2;
    int iterMax = 2; std::string errMax = "0.0"; bool si = true; int ddIter = 100; std::string ddErr = "1e-12"; std::string elim = "NoPivot";
    rt::SendMode mode = rt::EAGER; int dev = 1; uint64_t cap = 2000;
    bool race = false, strictLevel = false, strictBuf = false;
    Deck more;
    double t1 = 0.05, s1 = 0.02, t2 = 0.11, s2 = 0.03;
    enum Ref { NONE, ITERATE, CONVERGED } ref = ITERATE; double tol = 1e-11;
    std::string name() const;
    Deck deck() const;
    rt::Config cfg() const;
};
const std::vector<double> &reference(const RunCase &k);           // cached by mesh, order, iterations
// extra: called after the run instead of the standard flux comparison if set
Scenario runScenario(const RunCase &k, std::function<void(const RunCase &)> extra = nullptr);
RMesh &meshOf(const std::string &name);
bool isPBJ(const std::string &s); bool isSchur(const std::string &s); bool isFull(const std::string &s);
// more cells than 16 bits can number
template <class K> void huge(K &k, int i)
{
    k.mesh = "hexa22x22x23"; int nc = meshOf(k.mesh).nc(); k.np = 1 + i % 3; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = k.np == 2 ? c < 100 && c % 2 : k.np == 3 ? (int)((long)c * 3 / nc) : 0;
    k.sn = 2; k.ng = 1; k.thr = 1 + i * 2 % 5; k.order = i * 37 % 64; k.mode = rt::SendMode(i % 3); k.maxc = 200000; k.dev = 0; k.cap = 1; k.race = false;
}
// sizes beyond those of the enumerated scenarios: cells (35-180), ranks (1-8), threads (1-8), groups (1-9; 70 and 300), directions (S2-S8; S16, S18)
template <class K> void bigSize(K &k, int i)
{
    static const char *ms[] = {"grid3x3x2", "hexa4x2x2", "grid7x1x1", "grid4x3x3", "hexa3x3x2", "hexa9x1x1", "grid6x2x2", "even3x2x2", "hexa3x2x2", "even2x2x2", "apart", "cube6", "tet2"}; static const int gs[] = {1, 9, 3, 5}, ss[] = {8, 2, 4, 6, 2};
    k.mesh = ms[i % 13]; int nc = meshOf(k.mesh).nc(); k.np = std::min(nc, 1 + (i * 5 + 4) % 8); k.part.resize(nc); int w = (i + i / 8) % 4;
    for (int c = 0; c < nc; c++) k.part[c] = w == 0 ? c * k.np / nc : w == 1 ? c % k.np : w == 2 ? (c * 5 + c / 7) % k.np : c < nc / 2 ? 0 : c % k.np;
    if (w > 1) for (int r = 0; r < k.np; r++) k.part[r] = r;
    k.thr = 1 + (i * 3 + i / 8 + 4) % 8; k.ng = gs[(i + i / 8) % 4]; k.sn = ss[(i + i / 8) % 5]; k.mode = rt::SendMode(i % 3); k.order = i * 37 % 64; if (k.mesh[0] == 'e') k.sn = i / 13 % 2 ? 6 : 2;
    if (k.mesh == "cube6") { k.sn = i / 13 % 2 ? 18 : 16; k.thr = 1 + i % 4; if (k.ng > 3) k.ng = 2; } else if (k.mesh == "tet2") { k.sn = 2; k.ng = i / 13 % 2 ? 300 : 70; }
    if (k.mesh == "apart") { if (i / 13 % 3 == 0) k.np = 5 + i / 13 % 2; else if (i / 13 % 3 == 2 && k.np > 5) k.np = 5; if (i / 13 % 3 != 1) for (int c = 0; c < nc; c++) { int p = c < 4 ? 0 : c < 5 ? 1 : c < 10 ? 2 : c < 13 ? 3 : 4; k.part[c] = i / 13 % 3 ? p % k.np : k.np == 6 && c > 16 ? 5 : p; } }
}
