#include <set>
// C21: priorities follow the documented rules, and work is done in their order.
#include "comp.hh"
#include <cmath>
#include <algorithm>
#include <queue>
#include <tuple>
using namespace rt;
namespace {
typedef std::vector<uint64_t> U; typedef std::vector<std::vector<uint64_t>> UU;
struct Graph {
    const RMesh &m; RQuad q; int na;
    Graph(const RMesh &mm, int sn) : m(mm), q(sn), na(q.n) {}
    double flow(int c, int k, int a) const { V3 n = m.normal(c, k); double d = n[0] * q.om[a][0] + n[1] * q.om[a][1] + n[2] * q.om[a][2]; return std::fabs(d) < 1e-10 ? 0 : d; }
    std::vector<int> upwindOrder(int a) const
    {
        std::vector<int> need(m.nc()), o; for (int c = 0; c < m.nc(); c++) for (int k = 0; k < 4; k++) if (m.nb(c, k) >= 0 && flow(c, k, a) < 0) need[c]++;
        for (int c = 0; c < m.nc(); c++) if (!need[c]) o.push_back(c);
        for (size_t i = 0; i < o.size(); i++) for (int k = 0; k < 4; k++) { int n = m.nb(o[i], k); if (n >= 0 && flow(o[i], k, a) > 0 && --need[n] == 0) o.push_back(n); }
        return o;
    }
};
// priorities of every cell and direction of the set; angles: direction -> index in the set is its place
struct Prio { UU p; uint64_t maxB = 0, K = 0; };       // p[global cell][index]
Prio reference(const Graph &G, const std::vector<int> &part, int np, const U &angles, int intra, int inter)
{
    const RMesh &m = G.m; int n = angles.size(); Prio R; UU L(m.nc(), U(n)); R.p.assign(m.nc(), U(n)); std::vector<std::vector<int>> ord(n);
    for (int i = 0; i < n; i++) {
        auto o = G.upwindOrder(angles[i]); std::reverse(o.begin(), o.end()); ord[i] = o;
        for (int c : o) { for (int k = 0; k < 4; k++) { int b = m.nb(c, k); if (b >= 0 && G.flow(c, k, angles[i]) > 0) L[c][i] = std::max(L[c][i], L[b][i] + 1); } R.maxB = std::max(R.maxB, L[c][i]); }
    }
    for (int i = 0; i < n; i++) for (int c : ord[i]) {
        uint64_t v = intra == 1 ? L[c][i] : 0;
        if (intra >= 2) for (int k = 0; k < 4; k++) {
            int b = m.nb(c, k); if (b < 0 || !(G.flow(c, k, angles[i]) > 0)) continue; uint64_t x;
            if (part[b] != part[c]) x = intra == 2 ? L[b][i] : intra == 3 ? L[b][i] + R.maxB : L[b][i] * R.maxB + R.maxB;
            else { x = R.p[b][i]; if (intra > 2 && x) x--; }
            v = std::max(v, x);
        }
        R.p[c][i] = v;
    }
    R.K = R.maxB * m.nc();
    if (inter == 1) for (int i = 0; i < n; i++) for (auto &x : R.p) x[i] += i * R.K;
    if (inter == 2) for (int r = 0; r < np; r++) {
        std::vector<std::pair<uint64_t, int>> hi; for (int i = 0; i < n; i++) { uint64_t h = 0; for (int c = 0; c < m.nc(); c++) if (part[c] == r) h = std::max(h, R.p[c][i]); hi.push_back({h, i}); }
        std::sort(hi.begin(), hi.end()); for (int j = 0; j < n; j++) for (int c = 0; c < m.nc(); c++) if (part[c] == r) R.p[c][hi[j].second] += j * R.K;
    }
    return R;
}
uint64_t span(const U &v) { return v.empty() ? 0 : *std::max_element(v.begin(), v.end()) - *std::min_element(v.begin(), v.end()); }
void compare(const Prio &R, const std::vector<int> &gc, int na, const U &got, int intra, int inter, int rank)
{
    if (got.size() != gc.size() * na) fail(ST_WRONG, "rank %d has %zu priorities, expected %zu", rank, got.size(), gc.size() * na);
    if (intra) { for (size_t c = 0; c < gc.size(); c++) for (int a = 0; a < na; a++) if (got[c * na + a] != R.p[gc[c]][a]) fail(ST_WRONG, "rank %d: priority %lu for cell %d direction %d, the rule (%d, %d) gives %lu", rank, got[c * na + a], gc[c], a, intra, inter, R.p[gc[c]][a]); return; }
    // random: only the range is known
    U w; const uint64_t top = (1ull << 31) + (inter == 2 ? (na - 1) * R.K : 0);
    for (size_t i = 0; i < got.size(); i++) { uint64_t x = got[i]; if (inter == 1) { uint64_t o = (i % na) * R.K; if (x < o) fail(ST_WRONG, "rank %d: priority %lu of direction %zu is below the offset %lu of the direction", rank, x, i % na, o); x -= o; } if (x >= top) fail(ST_WRONG, "rank %d: random priority %lu is out of range", rank, got[i]); w.push_back(x); }
    if (w.size() >= 4 && inter != 2 && span(w) == 0) fail(ST_WRONG, "rank %d: all %zu random priorities are %lu", rank, w.size(), w[0]);
}
// A: the table
Scenario table(const CompCase &k)
{
    auto G = std::make_shared<Graph>(meshOf(k.mesh), k.sn); auto P = std::make_shared<Prio>(); bool *made = new bool(false); U all; for (int a = 0; a < G->na; a++) all.push_back(a);
    Scenario s = compScenario("table", k, [=](int r, LocalView &v) {
        U t; fn<void (*)(U &)>(r, "mcs_prio")(t); compare(*P, v.gc, G->na, t, k.intra, k.inter, r); U t2; fn<void (*)(U &)>(r, "mcs_prio")(t2); if (t != t2) fail(ST_WRONG, "rank %d: computed a second time, the priorities differ", r);
    });
    auto body = s.body; s.body = [=] { if (!*made) { *P = reference(*G, k.part, k.np, all, k.intra, k.inter); *made = true; } body(); };
    return s;
}
// B: sweep schedules take the available work of the highest priority
Scenario schedule(const CompCase &k, const U &angles, uint64_t maxStep, int intra, int inter)
{
    auto G = std::make_shared<Graph>(meshOf(k.mesh), k.sn); auto d = std::make_shared<UU>(); auto gc = std::make_shared<std::vector<std::vector<int>>>();
    return compScenario(fmt("schedule/a%zu.%lu/s%lu/p%d%d", angles.size(), angles[0], maxStep, intra, inter), k, [=](int r, LocalView &v) {
        d->resize(k.np); gc->resize(k.np); (*gc)[r] = v.gc;
        void *s = fn<void *(*)(const uint64_t *, uint64_t, uint64_t, uint64_t, uint64_t)>(r, "mcs_sched_new")(angles.data(), angles.size(), maxStep, intra, inter); fn<void (*)(void *, U &)>(r, "mcs_sched_dump")(s, (*d)[r]);
    }, [=] {
        const RMesh &m = G->m; int n = angles.size(), np = k.np; Prio R = reference(*G, k.part, np, angles, intra, inter);
        std::vector<std::vector<int>> need(m.nc(), std::vector<int>(n)); std::vector<std::vector<char>> avail(m.nc(), std::vector<char>(n)); std::vector<int> idx(G->na, -1); for (int i = 0; i < n; i++) idx[angles[i]] = i;
        for (int c = 0; c < m.nc(); c++) for (int i = 0; i < n; i++) { for (int f = 0; f < 4; f++) if (m.nb(c, f) >= 0 && G->flow(c, f, angles[i]) < 0) need[c][i]++; avail[c][i] = !need[c][i]; }
        std::vector<std::priority_queue<std::tuple<uint64_t, int, int>>> queue(np); auto put = [&](int c, int x) { avail[c][x] = 1; queue[k.part[c]].push({R.p[c][x], c, x}); };
        for (int c = 0; c < m.nc(); c++) for (int i = 0; i < n; i++) if (avail[c][i]) put(c, i);
        std::vector<size_t> pos(np, 1); uint64_t ns = (*d)[0].at(0);
        for (uint64_t s = 0; s < ns; s++) {
            std::vector<std::pair<int, int>> remote;
            for (int r = 0; r < np; r++) {
                const U &D = (*d)[r]; size_t &i = pos[r]; uint64_t w = D.at(i++), took = 0;
                auto best = [&](uint64_t &b) { auto &q = queue[r]; while (!q.empty() && !avail[std::get<1>(q.top())][std::get<2>(q.top())]) q.pop(); if (q.empty()) return false; b = std::get<0>(q.top()); return true; };
                uint64_t b;
                for (; took < w; took++) {
                    int c = (*gc)[r].at(D.at(i)), x = idx.at(D.at(i + 1)); i += 2; if (x < 0 || !avail[c][x]) fail(ST_WRONG, "rank %d step %lu lists cell %d direction %d, which is not available", r, s, c, x < 0 ? -1 : (int)angles[x]);
                    if (intra) { best(b); if (R.p[c][x] != b) fail(ST_WRONG, "rank %d step %lu takes cell %d direction %lu of priority %lu although work of priority %lu is available", r, s, c, angles[x], R.p[c][x], b); }
                    avail[c][x] = 0;
                    for (int f = 0; f < 4; f++) { int nb = m.nb(c, f); if (nb < 0 || !(G->flow(c, f, angles[x]) > 0)) continue; if (k.part[nb] != r) remote.push_back({nb, x}); else if (--need[nb][x] == 0) put(nb, x); }
                }
                if (w < maxStep && best(b)) fail(ST_WRONG, "rank %d step %lu has %lu entries, the limit is %lu and there is work left", r, s, w, maxStep);
                for (int j = 0; j < 2; j++) { uint64_t e = D.at(i++); i += e; }
            }
            for (auto &x : remote) if (--need[x.first][x.second] == 0) put(x.first, x.second);
        }
    });
}
// C: the traversal takes the available work of the highest priority
uint64_t g_cum[MAXR];
struct Ord { const Graph *G; const LocalView *v; const std::vector<int> *part; bool back, comm; int kind, thr, rank; std::vector<char> done, got; std::vector<int> need; uint64_t calls = 0, since = 0, limit = 0; std::set<int> nbs; std::vector<uint64_t> total;
    double flow(int c, int k, int a) const { double f = G->flow(c, k, a); return back ? -f : f; }
    uint64_t prio(int c, int a) const { switch (kind) { case 0: return c * 100 + a; case 1: return a * 1000 + 99 - c; case 2: return mix(c * 7, a) % 5; case 3: return mix(c, a) << 8 >> 8; default: return (a % 2 ? 0ull : 1ull << 40) + c % 3; } } };
char zero[64];
const char *oData(void *, uint64_t, uint64_t, uint64_t) { return zero; }
void oSide(void *x, uint64_t side, uint64_t a, const char *) { Ord &O = *(Ord *)x; int na = O.G->na; if (side >= (uint64_t)O.v->nSides || a >= (uint64_t)na) fail(ST_WRONG, "data for side %lu direction %lu", side, a); int lc = O.v->sc[side]; O.need[lc * na + a]--; }
uint64_t oPrio(void *x, uint64_t c, uint64_t a) { Ord &O = *(Ord *)x; return O.prio(O.v->gc.at(c), a); }
void oUpdate(void *x, uint64_t lc, uint64_t a, const uint64_t *, const int *)
{
    Ord &O = *(Ord *)x; int na = O.G->na; const RMesh &m = O.G->m; int c = O.v->gc.at(lc); uint64_t p = O.prio(c, a);
    g_cum[O.rank]++; bool on = false; for (int n : O.nbs) if (g_cum[n] < O.total[n]) on = true;      // a neighbouring rank is still at it
    if (on) { uint64_t n = mpiCalls(O.rank); if (n != O.calls) { O.calls = n; O.since = 0; } if (++O.since > O.limit * O.thr) fail(ST_WRONG, "rank %d: %lu pairs are done without communicating by %d threads, the limit is %lu each", O.rank, O.since, O.thr, O.limit); }
    for (int l = 0; l < O.v->nc; l++) for (int b = 0; b < na; b++) if ((O.thr == 1 || b == (int)a) && !O.done[l * na + b] && !O.need[l * na + b] && O.prio(O.v->gc[l], b) > p) fail(ST_WRONG, "rank %d: cell %d direction %lu of priority %lu is done although cell %d direction %d of priority %lu is available", O.rank, c, a, p, O.v->gc[l], b, O.prio(O.v->gc[l], b));
    O.done[lc * na + a] = 1;
    for (int k = 0; k < 4; k++) { int n = m.nb(c, k); if (n >= 0 && (*O.part)[n] == O.rank && O.flow(c, k, a) > 0) O.need[O.v->lc[n] * na + a]--; }
}
Scenario order(const CompCase &k, bool back, bool comm, int kind, uint64_t maxStep)
{
    auto G = std::make_shared<Graph>(meshOf(k.mesh), k.sn);
    return compScenario(fmt("order/%s%s/k%d/s%lu", back ? "B" : "F", comm ? "c" : "l", kind, maxStep), k, [=](int r, LocalView &v) {
        void *g = fn<void *(*)(int, int, uint64_t)>(r, "mcs_trav_new")(!back, comm, 16);
        for (int t = 0; t < 2; t++) {
            Ord *O = new Ord; O->G = G.get(); O->v = &v; O->part = g_part; O->back = back; O->comm = comm; O->kind = (kind + t) % 5; O->thr = k.thr; O->rank = r; O->done.assign(v.nc * G->na, 0); O->need.assign(v.nc * G->na, 0);
            for (int l = 0; l < v.nc; l++) for (int a = 0; a < G->na; a++) for (int f = 0; f < 4; f++) { int n = v.m->nb(v.gc[l], f); if (n >= 0 && O->flow(v.gc[l], f, a) < 0 && (comm || (*g_part)[n] == r)) O->need[l * G->na + a]++; }
            O->limit = maxStep; if (t == 0) g_cum[r] = 0; O->total.assign(MAXR, 0); for (int p : *g_part) O->total[p] += (t + 1) * G->na; for (int l = 0; l < v.nc; l++) for (int f = 0; f < 4; f++) { int n = v.m->nb(v.gc[l], f); if (comm && n >= 0 && (*g_part)[n] != r) O->nbs.insert((*g_part)[n]); }
            McTrav T = {O, oData, oSide, oPrio, oUpdate}; fn<void (*)(void *, uint64_t, const McTrav *)>(r, "mcs_trav_run")(g, maxStep, &T); delete O;
        }
    });
}
// D: whole runs hand these priorities to the traversal
Scenario whole(RunCase k)
{
    auto G = std::make_shared<Graph>(meshOf(k.mesh), k.sn); U all; for (int a = 0; a < G->na; a++) all.push_back(a);
    Scenario s = runScenario(k, [=](const RunCase &) {
        if (k.ref != RunCase::NONE) checkPsi(readPsi("out.psi"), ::reference(k), k.ng, k.tol, "sweep");
        Prio R = reference(*G, k.part, k.np, all, k.intra, k.inter); PLocal pl = plocal(meshOf(k.mesh), k.part, k.np, k.order);
        for (int r = 0; r < k.np; r++) { UU D; fn<void (*)(UU &)>(r, "mcs_trav_dumps")(D); if (D.empty()) { countCase(false); return; }
            U t = D.back(); if (t[0] != (uint64_t)k.maxc) fail(ST_WRONG, "rank %d sweeps with at most %lu per step, the deck says %d", r, t[0], k.maxc); t.erase(t.begin()); compare(R, pl.cells[r], G->na, t, k.intra, k.inter, r); }
    });
    auto body = s.body; s.body = [=] { for (int r = 0; r < k.np; r++) fn<void (*)(int)>(r, "mcs_trav_hook")(1); body(); }; s.name = "run/" + s.name;
    return s;
}
// E: whole runs build their schedules for all directions with the limit and the priorities of the deck
Scenario built(RunCase k)
{
    int na = RQuad(k.sn).n;
    Scenario s = runScenario(k, [=](const RunCase &) {
        if (k.ref != RunCase::NONE) checkPsi(readPsi("out.psi"), ::reference(k), k.ng, k.tol, "sweep");
        UU first;
        for (int r = 0; r < k.np; r++) { UU D; fn<void (*)(UU &)>(r, "mcs_sched_args")(D); if (D.empty()) { countCase(false); return; }
            std::vector<int> n(na); UU sets; for (auto &d : D) { if (d[0] != (uint64_t)k.maxc || d[1] != (uint64_t)k.intra || d[2] != (uint64_t)k.inter) fail(ST_WRONG, "rank %d: a schedule is built with limit %lu and priorities %lu %lu, the deck has %d and %d %d", r, d[0], d[1], d[2], k.maxc, k.intra, k.inter);
                for (size_t i = 3; i < d.size(); i++) { if (d[i] >= (uint64_t)na) fail(ST_WRONG, "direction %lu in a schedule", d[i]); n[d[i]]++; } sets.push_back(U(d.begin() + 3, d.end())); }
            for (int a = 0; a < na; a++) if (n[a] != 1) fail(ST_WRONG, "rank %d: direction %d is in %d schedules", r, a, n[a]); if (r == 0) first = sets; else if (sets != first) fail(ST_WRONG, "the schedules of ranks 0 and %d are for different directions", r); }
    });
    auto body = s.body; s.body = [=] { for (int r = 0; r < k.np; r++) fn<void (*)(int)>(r, "mcs_sched_hook")(1); body(); }; s.name = "built/" + s.name;
    return s;
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int h = 0;
    typedef std::vector<std::string> S; S small = {"tet1", "tet2", "tet3", "fan4", "cube5", "reg5"}; if (T) { small.push_back("tet4"); small.push_back("cube6"); small.push_back("tet5"); small.push_back("reg6"); }
    auto spread = [](CompCase &k, int np, int how) { int nc = meshOf(k.mesh).nc(); k.np = np; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = how == 0 ? c % np : how == 1 ? c * np / nc : how == 2 ? (c * 5 + c / 3) % np : (c * 7 / 4 + c / 5) % np; for (int r = 0; r < np; r++) k.part[r * (how == 1 ? nc / np : 1)] = r; };
    if (needSyms({"mcs_prio", "mcs_setup", "mcs_mu", "mcs_md"}, "the priorities")) {
        for (auto &mesh : small) { int nc = meshOf(mesh).nc(); for (int np = 1; np <= 4 && np <= nc; np++) for (auto &p : allPartitions(nc, np, true, np >= 3)) for (int intra = 0; intra < 5; intra++) for (int inter = 0; inter < 3; inter++) {
            h++; if (!T && nc > 3 && np > 1 && (h + h / 15) % 3) continue;
            CompCase k; k.mesh = mesh; k.part = p; k.np = np; k.intra = intra; k.inter = inter; k.order = h * 37 % 64; k.mode = SendMode((h + h / 12) % 3); k.mpi = (h / 3) % 2; k.thr = 1 + (h / 5) % 3; k.maxc = h % 4 == 0 ? 1 : h % 4 == 1 ? 2 : 100; k.dev = 0; if (nc <= 3 && h % 4 == 1) k.sn = 4; if (np > 1 && h % (T ? 2 : 8) == 0) { k.dev = 1; k.cap = T ? 200 : 12; } v.push_back(table(k)); } }
        for (auto mesh : S{"box10", "reg10", "reg12", "box12", "box20", "box40", "shape3"}) for (int np = 1; np <= 4; np++) for (int how = 0; how < 4; how++) for (int intra = 0; intra < 5; intra++) for (int inter = 0; inter < 3; inter++) {
            h++; CompCase k; k.mesh = mesh; if (meshOf(mesh).nc() < 2 * np || (np == 1 && how) || (!T && (h + h / 15 + how) % 4)) continue;
            spread(k, np, how); k.intra = intra; k.inter = inter; k.order = h * 37 % 64; k.mode = SendMode((h + h / 12) % 3); k.mpi = (h / 3) % 2; k.thr = 1 + (h / 5) % 4; static const int mc[] = {1, 3, 7, 1000}; k.maxc = mc[h / 2 % 4]; if (mesh == "box10") k.sn = 2 + 2 * (h % 3); k.dev = 0; v.push_back(table(k));
        }
    }
    if (needSyms({"mcs_sched_new", "mcs_sched_dump", "mcs_setup", "mcs_mu", "mcs_md"}, "sweep schedules")) {
        std::vector<U> sets = {{0, 1, 2, 3, 4, 5, 6, 7}, {7, 5, 3, 1, 0, 2, 4, 6}, {0}, {3, 4}, {6, 1}, {0, 1, 2, 3}, {5, 2, 7}}; static const uint64_t st[] = {1, 2, 3, 100};
        for (auto &mesh : small) { int nc = meshOf(mesh).nc(); for (int np = 1; np <= 4 && np <= nc; np++) for (auto &p : allPartitions(nc, np, true, np >= 3)) for (int intra = 1; intra < 5; intra++) for (int inter = 0; inter < 3; inter++) {
            h++; if (!T && nc > 3 && np > 1 && (h + h / 12) % 4) continue; CompCase k; k.mesh = mesh; k.part = p; k.np = np; k.order = h * 37 % 64; k.mode = SendMode((h + h / 12) % 3); k.dev = 0; v.push_back(schedule(k, sets[(h + h / 7) % 7], st[(h + h / 4) % 4], intra, inter)); } }
        for (auto mesh : S{"box10", "reg12", "box20", "box40"}) for (int np = 1; np <= 4; np++) for (int how = 0; how < 4; how++) for (int intra = 0; intra < 5; intra++) for (int inter = 0; inter < 3; inter++) {
            h++; CompCase k; k.mesh = mesh; if ((np == 1 && how) || (!T && (h + h / 15 + how) % 4)) continue; spread(k, np, how); k.order = h * 37 % 64; k.mode = SendMode((h + h / 12) % 3); k.dev = 0; v.push_back(schedule(k, sets[(h + h / 7) % 7], st[(h + h / 4) % 4] * (h % 3 == 0 ? 5 : 1), intra, inter)); }
    }
    if (needSyms({"mcs_trav_new", "mcs_trav_run", "mcs_setup", "mcs_mu", "mcs_md"}, "traversal")) {
        for (auto &mesh : small) { int nc = meshOf(mesh).nc(); for (int np = 1; np <= 3 && np <= nc; np++) for (auto &p : allPartitions(nc, np, true, np >= 3)) for (int kind = 0; kind < 5; kind++) for (int d = 0; d < 3; d++) {
            h++; if (!T && nc > 3 && (h + h / 15) % 4) continue; CompCase k; k.mesh = mesh; k.part = p; k.np = np; k.thr = h % 4 == 3 ? 2 : 1; k.order = h * 37 % 64; k.mode = SendMode((h + h / 12) % 3); k.mpi = (h / 2) % 2; k.dev = np > 1 && h % 4 == 0 ? 1 : 0; k.cap = T ? 200 : 20; v.push_back(order(k, d == 1, d != 2, kind, h / 3 % 3 == 0 ? 1 : h / 3 % 3 == 1 ? 3 : 100)); } }
        for (auto mesh : S{"box10", "reg12", "box20", "box40"}) for (int np = 1; np <= 4; np++) for (int thr = 1; thr <= 3; thr++) for (int kind = 0; kind < 5; kind++) { h++; CompCase k; k.mesh = mesh; spread(k, np, h % 4); k.thr = thr; k.order = h * 37 % 64; k.mode = SendMode((h + h / 12) % 3); k.mpi = (h / 2) % 2; k.dev = 0; v.push_back(order(k, h % 2, (h / 3) % 4 != 0, kind, h % 3 == 0 ? 2 : h % 3 == 1 ? 9 : 1000)); }
    }
    if (needSyms({"mcs_trav_hook", "mcs_trav_dumps"}, "the priorities of a run")) for (auto mesh : S{"tet3", "fan4", "box10", "reg12"}) for (int np = 1; np <= 3; np++) for (int intra = 0; intra < 5; intra++) for (int inter = 0; inter < 3; inter++) {
        h++; CompCase c; c.mesh = mesh; if (np == 3 && meshOf(mesh).nc() < 6) continue; spread(c, np, h % 4); RunCase k; k.mesh = mesh; k.part = c.part; k.np = np; k.intra = intra; k.inter = inter; k.thr = 1 + h % 2; k.order = h * 37 % 64; k.maxc = h % 3 == 0 ? 1 : h % 3 == 1 ? 5 : 100; k.mpi = (h / 2) % 2 ? "TychoTwoSided" : "CapsaicinTwoSided"; k.iterMax = 1; k.si = h % 5 != 0; if (!k.si) k.ref = RunCase::NONE; k.ng = 1 + h % 2; k.dev = 0; v.push_back(whole(k));
    }
    if (needSyms({"mcs_sched_hook", "mcs_sched_args"}, "the schedules of a run")) for (auto mesh : S{"tet3", "fan4", "box10", "reg12"}) for (int np = 1; np <= 3; np++) for (int intra = 0; intra < 5; intra++) for (int inter = 0; inter < 3; inter++) for (int two = 0; two < 2; two++) {
        h++; CompCase c; c.mesh = mesh; if (np == 3 && meshOf(mesh).nc() < 6) continue; spread(c, np, h % 4); RunCase k; k.mesh = mesh; k.part = c.part; k.np = np; k.sweep = two ? "OriginalTycho2" : "OriginalTycho1"; k.intra = intra; k.inter = inter; k.thr = 1 + (h / 2) % 3; k.order = h * 37 % 64; k.maxc = h % 3 == 0 ? 1 : h % 3 == 1 ? 5 : 100; k.iterMax = 1; k.si = h % 5 != 0; if (!k.si) k.ref = RunCase::NONE; k.ng = 1 + h % 2; k.dev = 0; v.push_back(built(k));
    }
    // priorities beyond 32 bits
    for (int i = 0; i < (T ? 8 : 2); i++) {
        CompCase k; k.mesh = i % 2 ? "hexa8x8x8" : i % 4 ? "grid1x1000x1" : "grid1x1x1000"; k.sn = 12; k.np = 1 + i % 3; int nc = meshOf(k.mesh).nc(); k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = c * k.np / nc; k.dev = 0; k.race = false; k.maxc = 1000000; k.intra = 1 + i % 4; k.inter = 1 + i / 4 % 2; k.thr = 1 + i % 2;
        if (haveSym("mcs_prio")) v.push_back(table(k));
        U all; for (int x = 0; x < RQuad(k.sn).n; x++) all.push_back(x);
        if (haveSym("mcs_sched_new") && haveSym("mcs_sched_dump")) v.push_back(schedule(k, all, 20000, k.intra, k.inter));
    }
    // sizes beyond those of the other scenarios
    for (int i = 0; i < (T ? 120 : 45); i++) {
        CompCase k; bigSize(k, i); k.mpi = i % 2; static const int ls[] = {1000, 33, 6}; k.maxc = ls[i % 3]; k.intra = i % 5; k.inter = (i / 5) % 3; k.dev = 0; if (k.sn > 4) k.sn = 4;
        if (haveSym("mcs_prio")) v.push_back(table(k));
        U a; for (int x = 0; x < RQuad(k.sn).n; x++) if ((x + i) % 3) a.push_back(x);
        if (haveSym("mcs_sched_new") && haveSym("mcs_sched_dump") && k.intra) v.push_back(schedule(k, a, k.maxc, k.intra, k.inter));
        CompCase o = k; o.sn = 2; if (haveSym("mcs_trav_new")) v.push_back(order(o, i % 2, i % 3 != 2, i % 5, k.maxc));
        RunCase r; bigSize(r, i); r.sn = k.sn; r.mpi = i % 2 ? "TychoTwoSided" : "CapsaicinTwoSided"; r.maxc = k.maxc; r.intra = k.intra; r.inter = k.inter; r.iterMax = 1; r.dev = 0; if (r.ng > 3) r.ng = 2;
        if (haveSym("mcs_trav_hook")) v.push_back(whole(r)); if (haveSym("mcs_sched_hook")) { r.sweep = i % 2 ? "OriginalTycho2" : "OriginalTycho1"; v.push_back(built(r)); }
    }
    return v;
}
}
static Check chk{"C21", "priorities and order of work",
    "priority tables of the real code on every rank for all partitions of small meshes x the 15 choices of priorities x threads x message schemes, compared with levels computed from the global mesh; sweep schedules and traversals are replayed and every piece of work taken must have the highest priority of the available work; whole runs hand these priorities to their sweeps and build their schedules for all directions with them", "model_checking", make, nullptr,
    {"MPI and OpenMP are stand-ins that implement their documented semantics", "random priorities are only checked for their range"}, 150, 780};
static Reg reg(&chk);
