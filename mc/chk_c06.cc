// C06: precomputed sweep schedules are complete, ordered, bounded and matched.
#include "comp.hh"
#include <cmath>
#include <set>
using namespace rt;
namespace {
typedef std::vector<uint64_t> U;
struct Cfg { U angles; uint64_t maxStep, intra, inter; };
std::string desc(const Cfg &c) { std::string s = "angles"; for (auto a : c.angles) s += fmt(" %lu", a); return s + fmt(", at most %lu per step, priorities %lu %lu", c.maxStep, c.intra, c.inter); }
void judge(const RMesh &m, const RQuad &q, const std::vector<int> &part, int np, const Cfg &cfg, const std::vector<U> &dump, const std::vector<std::vector<int>> &gc)
{
    int na = q.n; auto flow = [&](int c, int k, int a) { V3 n = m.normal(c, k); double d = n[0] * q.om[a][0] + n[1] * q.om[a][1] + n[2] * q.om[a][2]; return std::fabs(d) < 1e-10 ? 0.0 : d; };
    std::vector<int> step(m.nc() * na, -1), pos(m.nc() * na, -1); uint64_t ns = 0;
    std::vector<std::vector<std::set<int>>> snd(np), rcv(np), want(np);
    std::vector<char> inSet(na, 0); for (auto a : cfg.angles) inSet[a] = 1;
    for (int r = 0; r < np; r++) {
        const U &d = dump[r]; size_t i = 0; if (d.empty()) fail(ST_WRONG, "rank %d has no schedule", r); uint64_t n = d[i++]; if (r == 0) ns = n; else if (n != ns) fail(ST_WRONG, "rank %d has %lu steps, rank 0 has %lu (%s)", r, n, ns, desc(cfg).c_str());
        snd[r].resize(n); rcv[r].resize(n); want[r].resize(n); int at = 0;
        for (uint64_t s = 0; s < n; s++) {
            uint64_t w = d[i++]; if (w > cfg.maxStep) fail(ST_WRONG, "rank %d step %lu has %lu entries, the limit is %lu", r, s, w, cfg.maxStep);
            for (uint64_t j = 0; j < w; j++) {
                uint64_t c = d[i++], a = d[i++]; if (c >= gc[r].size()) fail(ST_WRONG, "rank %d step %lu lists cell %lu of %zu", r, s, c, gc[r].size()); if (a >= (uint64_t)na || !inSet[a]) fail(ST_WRONG, "rank %d step %lu lists direction %lu, which is not in the set (%s)", r, s, a, desc(cfg).c_str());
                int g = gc[r][c]; if (step[g * na + a] >= 0) fail(ST_WRONG, "rank %d lists cell %d direction %lu twice (%s)", r, g, a, desc(cfg).c_str());
                step[g * na + a] = s; pos[g * na + a] = at++;
                for (int k = 0; k < 4; k++) { int nb = m.nb(g, k); if (nb >= 0 && part[nb] != r && flow(g, k, a) > 0) want[r][s].insert(part[nb]); }
            }
            for (int x = 0; x < 2; x++) { uint64_t w = d[i++]; for (uint64_t j = 0; j < w; j++) { uint64_t p = d[i++]; auto &S = (x ? rcv : snd)[r][s]; if (p >= (uint64_t)np || (int)p == r) fail(ST_WRONG, "rank %d step %lu exchanges with rank %lu", r, s, p); if (!S.insert(p).second) fail(ST_WRONG, "rank %d step %lu names rank %lu twice as a %s", r, s, p, x ? "source" : "destination"); } }
        }
    }
    for (int c = 0; c < m.nc(); c++) for (auto a : cfg.angles) {
        int s = step[c * na + a]; if (s < 0) fail(ST_WRONG, "cell %d direction %lu is in no step (%s)", c, a, desc(cfg).c_str());
        for (int k = 0; k < 4; k++) { int n = m.nb(c, k); if (n < 0 || !(flow(c, k, a) < 0)) continue; int t = step[n * na + a];
            if (part[n] != part[c] ? t >= s : (t > s || pos[n * na + a] > pos[c * na + a])) fail(ST_WRONG, "cell %d (rank %d) direction %lu is in step %d, its upwind cell %d (rank %d) in step %d%s (%s)", c, part[c], a, s, n, part[n], t, t == s ? " and not before it" : "", desc(cfg).c_str()); }
    }
    for (int r = 0; r < np; r++) for (uint64_t s = 0; s < ns; s++) {
        for (int p = 0; p < np; p++) {
            bool S = snd[r][s].count(p), W = want[r][s].count(p), R = rcv[p][s].count(r);
            if (S != W) fail(ST_WRONG, "rank %d step %lu: rank %d %s a destination, but %s computed there flows out to it (%s)", r, s, p, S ? "is" : "is not", W ? "a cell" : "no cell", desc(cfg).c_str());
            if (S != R) fail(ST_WRONG, "step %lu: rank %d %s rank %d as destination, but rank %d %s rank %d as source (%s)", s, r, S ? "lists" : "does not list", p, p, R ? "lists" : "does not list", r, desc(cfg).c_str());
        }
    }
}
Scenario sched(const CompCase &k, const std::vector<Cfg> &cf, const std::string &nm)
{
    auto q = std::make_shared<RQuad>(k.sn); auto d = std::make_shared<std::vector<std::vector<U>>>(); auto gc = std::make_shared<std::vector<std::vector<int>>>(); auto pt = std::make_shared<std::vector<int>>(k.part);
    Scenario s = compScenario(nm, k, [=](int r, LocalView &v) {
        d->resize(cf.size()); gc->resize(k.np); (*gc)[r] = v.gc;
        for (size_t i = 0; i < cf.size(); i++) {
            (*d)[i].resize(k.np);
            void *s = fn<void *(*)(const uint64_t *, uint64_t, uint64_t, uint64_t, uint64_t)>(r, "mcs_sched_new")(cf[i].angles.data(), cf[i].angles.size(), cf[i].maxStep, cf[i].intra, cf[i].inter);
            fn<void (*)(void *, U &)>(r, "mcs_sched_dump")(s, (*d)[i][r]);
        }
    }, [=] { for (size_t i = 0; i < cf.size(); i++) { judge(meshOf(k.mesh), *q, *pt, k.np, cf[i], (*d)[i], *gc); countCase(); } });
    return s;
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int h = 0;
    if (!needSyms({"mcs_sched_new", "mcs_sched_dump", "mcs_setup", "mcs_mu", "mcs_md"}, "sweep schedules")) return v;
    // direction sets of 8 directions
    std::vector<U> sets = {{0, 1, 2, 3, 4, 5, 6, 7}, {7, 5, 3, 1, 0, 2, 4, 6}, {0}, {7}, {3, 4}, {6, 1}, {0, 1, 2, 3}, {4, 5, 6, 7}, {5, 2, 7}, {1, 3, 5, 7}};
    static const uint64_t st[] = {1, 2, 3, 5, 100};
    auto pick = [&](int i) { Cfg c; c.angles = sets[i % sets.size()]; c.maxStep = st[(i / 2) % 5]; c.intra = (i / 3) % 5; c.inter = (i / 7) % 3; return c; };
    // 1. all partitions of the small meshes, rotating direction sets, limits and priorities; message timings
    for (auto mesh : T ? std::vector<std::string>{"tet1", "tet2", "tet3", "tet4", "fan4", "cube5", "reg5", "cube6"} : std::vector<std::string>{"tet1", "tet2", "tet3", "fan4", "cube5", "reg5"}) {
        int nc = meshOf(mesh).nc();
        for (int np = 1; np <= 4 && np <= nc; np++) for (auto &p : allPartitions(nc, np, true, np >= 3)) for (int rep = 0; rep < (T ? 6 : 3); rep++) {
            CompCase k; k.mesh = mesh; k.part = p; k.np = np; k.order = h * 37 % 64; k.mode = SendMode(h % 3); k.dev = np > 1 ? 1 : 0; k.cap = T ? 600 : 40;
            v.push_back(sched(k, {pick(h * 3), pick(h * 3 + 1), pick(h * 7 + 2)}, fmt("sets%d", h))); h++;
        }
    }
    // 2. the full product of limits and priorities on larger meshes, all directions, two and four directions per octant
    for (int st2 : {1, 2, 7, 1000}) for (int intra = 0; intra < 5; intra++) for (int inter = 0; inter < 3; inter++) for (int np = 1; np <= 4; np++) {
        CompCase k; h++; k.mesh = (intra + inter + np) % 3 == 0 ? "cube6" : (intra + np) % 2 ? "box10" : "reg12"; k.sn = h % 4 == 0 ? 4 : 2; if (k.sn == 4) k.mesh = "box10"; int nc = meshOf(k.mesh).nc(); k.np = np; k.part.resize(nc);
        for (int c = 0; c < nc; c++) k.part[c] = (h % 3 == 0) ? c % np : (h % 3 == 1) ? c * np / nc : (c * 5 + c / 3 + h) % np; for (int r = 0; r < np; r++) k.part[r] = r;
        k.order = h * 37 % 64; k.mode = SendMode(h % 3); k.dev = T ? 1 : 0; k.cap = 100;
        Cfg c; int na = k.sn == 4 ? 32 : 8; for (int a = 0; a < na; a++) if (np != 2 || (a + h) % 3) c.angles.push_back(a); c.maxStep = st2; c.intra = intra; c.inter = inter;
        Cfg e = c; e.angles = {(uint64_t)(h % na)};
        v.push_back(sched(k, {c, e}, fmt("grid%d", h)));
    }
    // 3. message orders in depth
    for (int mode = 0; mode < 3; mode++) for (auto &p : allPartitions(3, 3, true, true)) for (int i = 0; i < 2; i++) {
        CompCase k; k.mesh = "tet3"; k.part = p; k.np = 3; k.mode = SendMode(mode); k.dev = T ? 3 : 2; k.cap = T ? 20000 : 600; v.push_back(sched(k, {Cfg{{0, 1, 2, 3, 4, 5, 6, 7}, i ? 2ul : 100ul, 1, 1}}, fmt("deep%d", i)));
    }
    // 4. sizes beyond those of the other scenarios
    for (int i = 0; i < (T ? 96 : 40); i++) {
        CompCase k; bigSize(k, i); int na = RQuad(k.sn).n; Cfg c; for (int a = 0; a < na; a++) if (i % 4 == 0 || (a * 7 + i) % (1 + i % 4)) c.angles.push_back(a); if (i % 3 == 1) std::reverse(c.angles.begin(), c.angles.end()); static const uint64_t ls[] = {1000, 13, 4, 100000}; c.maxStep = ls[i % 4]; c.intra = i % 5; c.inter = (i / 2) % 3;
        Cfg e = c; e.angles = {(uint64_t)(i % na), (uint64_t)((i + 3) % na)}; e.maxStep = 1 + i % 3; k.dev = T ? 1 : 0; k.cap = 40; v.push_back(sched(k, {c, e}, fmt("big%d", i)));
    }
    for (int i = 0; i < 2; i++) { CompCase k; huge(k, i * 2); Cfg c; for (int a = 0; a < 8; a++) c.angles.push_back(a); c.maxStep = i ? 1000 : 200000; c.intra = i; c.inter = 1; v.push_back(sched(k, {c}, fmt("huge%d", i))); v.back().cpuLimit = 600; }
    return v;
}
}
static Check chk{"C06", "sweep schedules",
    "schedules built by the real SweepSchedule on every rank for all partitions of small meshes and families of direction sets, step limits and priority choices; the step lists of all ranks are compared with the dependency relation of the global mesh, on every explored message timing", "model_checking", make, nullptr,
    {"MPI is a stand-in that implements its documented semantics", "executions with more deviations from the default schedule than the scenario's bound are not explored"}, 150, 780};
static Reg reg(&chk);
