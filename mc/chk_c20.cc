// C20: moment and scattering operators are exact and thread-independent.
#include "comp.hh"
#include <cmath>
#include <cstring>
using namespace rt;
namespace {
typedef std::vector<double> V;
typedef void (*F2)(double *, double *); typedef void (*F3)(double *, double *, double *);
double num(uint64_t i, int kind)      // dense test values
{
    uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull * (kind + 1); x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; double d = (double)(x % 2000001) / 1e6 - 1;
    return kind == 0 ? d : kind == 1 ? d * std::pow(10.0, (int)(x / 7 % 21) - 10) : kind == 2 ? std::fabs(d) : d * 1e200;
}
Scenario ops(const CompCase &k, bool dense)
{
    auto q = std::make_shared<RQuad>(k.sn);
    return compScenario(dense ? "dense" : "unit", k, [=](int r, LocalView &v) {
        const RMesh &m = *v.m; int na = q->n, ng = k.ng, nc = v.nc; size_t np = (size_t)nc * na * 4 * ng, nf = (size_t)nc * 4 * ng;
        V sS(nc); for (int c = 0; c < nc; c++) sS[c] = m.mat[v.gc[c]] == 1 ? k.s1 : k.s2;
        auto pi = [&](int c, int a, int x, int g) { return ((size_t)(c * na + a) * 4 + x) * ng + g; }; auto fi = [&](int c, int x, int g) { return ((size_t)c * 4 + x) * ng + g; };
        auto near = [&](const char *what, const V &got, const V &want, const V &scale) { for (size_t i = 0; i < want.size(); i++) if (!(std::fabs(got[i] - want[i]) <= 1e-13 * scale[i])) fail(ST_WRONG, "rank %d: %s: entry %zu is %.17g, expected %.17g", r, what, i, got[i], want[i]); };
        auto same = [&](const char *what, const V &a, const V &b) { if (memcmp(a.data(), b.data(), 8 * std::min(a.size(), b.size()))) fail(ST_WRONG, "rank %d: %s was changed", r, what); };
        auto guard = [&](const V &a, size_t n) { if (a[n] != 4711) fail(ST_WRONG, "rank %d: written beyond the end", r); };
        auto one = [&](const V &psi, const V &phi, const V &src, double old) {
            V p = psi, f = phi, s = src, F(nf + 1, old), P(np + 1, old), T(np + 1, old), S(nf + 1, old); F[nf] = P[np] = T[np] = S[nf] = 4711; p.push_back(4711); f.push_back(4711); s.push_back(4711);
            V wf(nf), af(nf), wp(np), wt(np), at(np), ws(nf), as(nf);
            for (int c = 0; c < nc; c++) for (int x = 0; x < 4; x++) for (int g = 0; g < ng; g++) {
                double h = sS[c] / (4 * M_PI) * phi[fi(c, x, g)]; ws[fi(c, x, g)] = h; as[fi(c, x, g)] = std::fabs(h);
                for (int a = 0; a < na; a++) { size_t i = pi(c, a, x, g); wf[fi(c, x, g)] += q->w[a] * psi[i]; af[fi(c, x, g)] += std::fabs(q->w[a] * psi[i]); wp[i] = phi[fi(c, x, g)]; wt[i] = src[i] + h; at[i] = std::fabs(src[i]) + std::fabs(h); }
            }
            fn<F2>(r, "mcs_psi2phi")(F.data(), p.data()); near("scalar flux", F, wf, af); guard(F, nf); same("the angular flux", p, psi);
            fn<F2>(r, "mcs_phi2psi")(f.data(), P.data()); near("spread scalar flux", P, wp, wp.size() ? V(np, 0.0) : V()); guard(P, np); same("the scalar flux", f, phi);
            fn<F3>(r, "mcs_total")(s.data(), f.data(), T.data()); near("total source", T, wt, at); guard(T, np); same("the scalar flux", f, phi); same("the fixed source", s, src);
            fn<F2>(r, "mcs_opS")(f.data(), S.data()); near("scattering", S, ws, as); guard(S, nf); same("the scalar flux", f, phi);
            fn<F2>(r, "mcs_opS")(f.data(), f.data()); near("scattering in place", f, ws, as); guard(f, nf);
            countCase();
        };
        if (dense) { for (int kind = 0; kind < 4; kind++) { V p(np), f(nf), s(np); for (size_t i = 0; i < np; i++) { p[i] = num(i, kind); s[i] = num(i + 99991, kind); } for (size_t i = 0; i < nf; i++) f[i] = num(i + 7777777, kind); one(p, f, s, kind == 0 ? 0 : -3.5e5); } return; }
        if (nc == 0) { one(V(), V(), V(), 1); return; }
        for (size_t i = 0; i < np; i++) { V p(np), f(nf), s(np); p[i] = 1; f[i % nf] = i % 2 ? 1 : -2; s[i * 31 % np] = 0.5; one(p, f, s, i % 3 ? 1e10 : 0); }
    });
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int h = 0;
    if (!needSyms({"mcs_psi2phi", "mcs_phi2psi", "mcs_total", "mcs_opS", "mcs_setup", "mcs_mu", "mcs_md"}, "the operators")) return v;
    // every unit vector
    for (auto mesh : {"tet1", "tet2", "tet3", "fan4", "cube5"}) { int nc = meshOf(mesh).nc(); for (int np = 1; np <= 3; np++) for (auto &p : allPartitions(nc, np, false, true)) for (int thr = 1; thr <= 4; thr++) {
        h++; if (nc > 3 && !T && (h + h / 4) % 6) continue; CompCase k; k.mesh = mesh; k.part = p; k.np = np; k.thr = thr; k.ng = 1 + (h + h / 4) % 3; k.sn = nc > 3 ? 2 : h % 2 ? 2 : 4; k.xs = true; k.order = h * 37 % 64; k.dev = 0; v.push_back(ops(k, false)); } }
    // every quadrature
    for (int sn = 2; sn <= 30; sn += 2) for (int thr = 1; thr <= 4; thr++) for (int ng = 1; ng <= 3; ng++) { CompCase k; k.mesh = sn > 12 ? "tet2" : "cube5"; int nc = meshOf(k.mesh).nc(); k.part.assign(nc, 0); for (int c = 0; c < nc; c++) k.part[c] = c % 2; k.np = 2; k.sn = sn; k.thr = thr; k.ng = ng; k.xs = true; k.order = h++ * 37 % 64; k.dev = 0; if (h % 3 == 1) { k.s1 = 0; k.s2 = 0.11; } if (h % 3 == 2) { k.t1 = 2; k.s1 = 1.9; k.t2 = 3; k.s2 = 1e-4; } v.push_back(ops(k, true)); }
    // threads in every order, with race detection; more threads than cells
    for (auto mesh : {"tet1", "tet3", "fan4", "cube6", "box12", "box20"}) for (int thr = 1; thr <= (T ? 8 : 5); thr++) for (int ng = 1; ng <= 3; ng++) { CompCase k; k.mesh = mesh; k.part.assign(meshOf(mesh).nc(), 0); k.thr = thr; k.ng = ng; k.xs = true; k.order = h++ * 37 % 64; k.race = true; k.dev = thr > 1 ? (T ? 3 : 2) : 0; k.cap = T ? 5000 : 100; v.push_back(ops(k, true)); }
    // sizes beyond those of the other scenarios
    for (int i = 0; i < (T ? 96 : 40); i++) { CompCase k; bigSize(k, i); k.xs = true; k.dev = 0; if (i % 3 == 1) { k.s1 = 0; k.s2 = 0.11; } v.push_back(ops(k, true)); }
    for (int i = 0; i < 2; i++) { CompCase k; huge(k, i); k.xs = true; k.thr = 1 + i * 2; v.push_back(ops(k, true)); v.back().cpuLimit = 600; }
    return v;
}
}
static Check chk{"C20", "moment and scattering operators",
    "psiToPhi, phiToPsi, calcTotalSource and operatorS (two objects and in place) on every unit vector of small meshes (all partitions into 1-3 ranks, empty ones included, 1-4 threads, 1-3 groups) and on dense vectors of four ranges for every quadrature; compared entry by entry with the definition; guards behind the arrays; thread schedules and races explored", "model_checking", make, nullptr,
    {"OpenMP is a stand-in that implements its documented semantics"}, 150, 780};
static Reg reg(&chk);
