#include <map>
#include "comp.hh"
#include <cmath>
#include <cstring>
using namespace rt;
const std::vector<int> *g_part = nullptr;
std::string CompCase::name() const
{
    static const char *mn[] = {"eager", "sync", "choose", "chooseS"};
    return fmt("%s.%s/o%u/t%d/n%d/g%d/%s/m%d/p%d%d/%s/d%d", mesh.c_str(), partName(part).c_str(), order, thr, sn, ng, mpi ? "C" : "T", maxc, intra, inter, mn[mode], dev);
}
McParams CompCase::params() const
{
    McParams p; p.snOrder = sn; p.nGroups = ng; p.nThreads = thr; p.maxCellsPerStep = maxc; p.intraP = intra; p.interP = inter; p.mpiType = mpi; p.gaussElim = elim; p.sT1 = t1; p.sS1 = s1; p.sT2 = t2; p.sS2 = s2; p.pmesh = "in.pmesh"; p.xs = xs; return p;
}
Config CompCase::cfg() const { Config c; c.nRanks = np; c.nThreads = thr; c.sendMode = mode; c.race = race; c.strictLevel = strictLevel; c.strictBuf = strictBuf; return c; }
uint64_t LocalView::mu(int w, uint64_t a, uint64_t b, uint64_t c) const { return fn<uint64_t (*)(int, uint64_t, uint64_t, uint64_t)>(rank, "mcs_mu")(w, a, b, c); }
double LocalView::md(int w, uint64_t a, uint64_t b, uint64_t c) const { return fn<double (*)(int, uint64_t, uint64_t, uint64_t)>(rank, "mcs_md")(w, a, b, c); }
LocalView localView(int r, const RMesh &m)
{
    LocalView v; v.rank = r; v.m = &m; v.nc = v.mu(MU_NCELLS); v.nSides = v.mu(MU_NSIDES); v.lc.assign(m.nc(), -1);
    if (v.nc > m.nc()) fail(ST_WRONG, "rank %d has %d cells of a mesh of %d", r, v.nc, m.nc());
    bool large = m.nc() > 300; std::map<V3, std::vector<int>> at0; std::vector<int> none; if (large) for (int q = 0; q < m.nc(); q++) for (int n : m.cell[q]) at0[m.node[n]].push_back(q);      // cells at a node
    for (int c = 0; c < v.nc; c++) {
        std::array<V3, 4> x; for (int k = 0; k < 4; k++) { uint64_t n = v.mu(MU_CELLNODE, c, k); if (n >= v.mu(MU_NNODES)) fail(ST_WRONG, "rank %d cell %d node %d is number %lu of %lu", r, c, k, n, v.mu(MU_NNODES)); for (int i = 0; i < 3; i++) x[k][i] = v.md(MD_COORD, n, i); }
        int g = -1; std::array<int, 4> idx{};
        const std::vector<int> *cand = nullptr; if (large) { auto it = at0.find(x[0]); cand = it == at0.end() ? &none : &it->second; }
        for (int i = 0, n = large ? cand->size() : m.nc(); i < n && g < 0; i++) { int q = large ? (*cand)[i] : i; bool all = true; for (int k = 0; k < 4; k++) { int at = -1; for (int j = 0; j < 4; j++) if (m.node[m.cell[q][j]] == x[k]) at = j; if (at < 0) { all = false; break; } idx[k] = at; } if (all) g = q; }
        if (g < 0) fail(ST_WRONG, "rank %d cell %d is no cell of the global mesh", r, c);
        if (v.lc[g] >= 0) fail(ST_WRONG, "rank %d has global cell %d twice", r, g);
        v.lc[g] = c; v.gc.push_back(g); v.gv.push_back(idx);
        std::array<int, 4> gk{}; std::array<std::array<int, 3>, 4> fv{};
        for (int f = 0; f < 4; f++) {
            int used = 0; for (int i = 0; i < 3; i++) { uint64_t w = v.mu(MU_FTOC, c, f, i); if (w > 3) fail(ST_WRONG, "rank %d cell %d face %d vertex %d is cell vertex %lu", r, c, f, i, w); fv[f][i] = idx[w]; used |= 1 << idx[w]; }
            int k = -1; for (int j = 0; j < 4; j++) if (used == (15 ^ (1 << j))) k = j;
            if (k < 0) fail(ST_WRONG, "rank %d cell %d face %d is not described by three different vertices", r, c, f);
            gk[f] = k;
        }
        if (((1 << gk[0]) | (1 << gk[1]) | (1 << gk[2]) | (1 << gk[3])) != 15) fail(ST_WRONG, "rank %d cell %d has a face twice", r, c);
        v.gk.push_back(gk); v.fv.push_back(fv);
    }
    v.sc.assign(v.nSides, -1); v.sf.assign(v.nSides, -1);
    for (int c = 0; c < v.nc; c++) for (int f = 0; f < 4; f++) {
        uint64_t s = v.mu(MU_SIDE, c, f); int n = m.nb(v.gc[c], v.gk[c][f]);
        if (n >= 0 && v.lc[n] >= 0) continue;
        if (s >= (uint64_t)v.nSides) fail(ST_WRONG, "rank %d cell %d face %d lies on the boundary of the rank, but its side is %lu of %d", r, c, f, s, v.nSides);
        if (v.sc[s] >= 0) fail(ST_WRONG, "rank %d: side %lu is used twice", r, s);
        v.sc[s] = c; v.sf[s] = f;
    }
    for (int s = 0; s < v.nSides; s++) if (v.sc[s] < 0) fail(ST_WRONG, "rank %d: side %d belongs to no face", r, s);
    return v;
}
bool needSyms(std::initializer_list<const char *> names, const char *what)
{
    for (auto n : names) if (!haveSym(n)) { printf("note: %s: the program no longer has the interface behind %s, these scenarios are left out\n", what, n); return false; }
    return true;
}
Scenario compScenario(const std::string &name, const CompCase &k, std::function<void(int, LocalView &)> body, std::function<void()> after)
{
    Scenario s; s.name = name + "/" + k.name(); s.maxDev = k.dev; s.maxExec = k.cap;
    auto pm = std::make_shared<std::vector<char>>(pmeshBytes(meshOf(k.mesh), k.part, k.np, k.order)); Config cfg = k.cfg();
    s.body = [=] {
        files()["in.pmesh"] = *pm; gapName = "in.pmesh"; gapLen = k.gap; gapAt = 32 + 8 * (3 + k.np); if (gapLen) for (int i = 0; i <= k.np; i++) { uint64_t o; char *at = files()["in.pmesh"].data() + 48 + 8 * i; memcpy(&o, at, 8); o += gapLen; memcpy(at, &o, 8); }
        McParams p = k.params(); const RMesh &m = meshOf(k.mesh); std::vector<int> part = k.part; g_part = &part;
        rt::run(cfg, [&](int r) {
            mpiInit(); fn<void (*)(const McParams *)>(r, "mcs_setup")(&p);
            LocalView v = localView(r, m); body(r, v); mpiFini();
        });
        gapLen = 0; if (after) after();
        countCase();
    };
    return s;
}
