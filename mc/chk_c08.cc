// C08: every supported quadrature is a valid direction set; other orders are refused.
#include "comp.hh"
#include <cmath>
using namespace rt;
namespace {
const double PI4 = 4 * M_PI;
// exact integral of x^a y^b z^c over the unit sphere
double exactMoment(int a, int b, int c)
{
    if ((a | b | c) & 1) return 0;
    auto df = [](int n) { long double r = 1; for (; n > 1; n -= 2) r *= n; return r; };
    return (double)(PI4 * (df(a - 1) * df(b - 1) * df(c - 1) / df(a + b + c + 1)));
}
void check(const std::vector<double> &d, int N, uint64_t na)
{
    int n = na; if (d.size() != (size_t)n * 7) fail(ST_WRONG, "order %d: %zu values for %d directions", N, d.size(), n);
    if (n != 2 * N * N) fail(ST_WRONG, "order %d: %d directions, expected %d", N, n, 2 * N * N);
    std::vector<V3> o(n); std::vector<double> w(n);
    for (int i = 0; i < n; i++) {
        const double *p = &d[i * 7]; o[i] = {p[4], p[5], p[6]}; w[i] = p[3];
        if (p[4] != p[2] || p[5] != p[1] || p[6] != p[0]) fail(ST_WRONG, "order %d direction %d: the vector (%g %g %g) is not the recorded components (%g %g %g)", N, i, p[4], p[5], p[6], p[2], p[1], p[0]);
        double l = std::sqrt(p[4] * p[4] + p[5] * p[5] + p[6] * p[6]); if (!(std::fabs(l - 1) < 1e-13)) fail(ST_WRONG, "order %d direction %d has length %.17g", N, i, l);
        if (!(w[i] > 0)) fail(ST_WRONG, "order %d direction %d has weight %g", N, i, w[i]);
        countCase();
    }
    auto same = [&](const V3 &a, const V3 &b) { return std::fabs(a[0] - b[0]) < 1e-11 && std::fabs(a[1] - b[1]) < 1e-11 && std::fabs(a[2] - b[2]) < 1e-11; };
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (same(o[i], o[j])) fail(ST_WRONG, "order %d: directions %d and %d coincide", N, i, j);
    for (int i = 0; i < n; i++) for (int x = 0; x < 3; x++) {
        V3 r = o[i]; r[x] = -r[x]; int f = -1; for (int j = 0; j < n && f < 0; j++) if (same(o[j], r)) f = j;
        if (f < 0) fail(ST_WRONG, "order %d: direction %d has no mirror image in axis %d", N, i, x);
        if (!(std::fabs(w[f] - w[i]) < 1e-13)) fail(ST_WRONG, "order %d: direction %d and its mirror image %d have weights %.17g and %.17g", N, i, f, w[i], w[f]);
        countCase();
    }
    // every monomial up to degree 2N - 1
    int D = 2 * N - 1; double worst = 0; std::vector<std::vector<double>> px(D + 1, std::vector<double>(n, 1)), py = px, pz = px;
    for (int k = 1; k <= D; k++) for (int i = 0; i < n; i++) { px[k][i] = px[k - 1][i] * o[i][0]; py[k][i] = py[k - 1][i] * o[i][1]; pz[k][i] = pz[k - 1][i] * o[i][2]; }
    for (int a = 0; a <= D; a++) for (int b = 0; a + b <= D; b++) for (int c = 0; a + b + c <= D; c++) {
        long double s = 0; for (int i = 0; i < n; i++) s += (long double)w[i] * px[a][i] * py[b][i] * pz[c][i];
        double e = std::fabs((double)s - exactMoment(a, b, c)); if (!(e <= worst)) worst = e;
        if (!(e < 5e-14 * PI4)) fail(ST_WRONG, "order %d: the integral of x^%d y^%d z^%d is %.17g, exact is %.17g", N, a, b, c, (double)s, exactMoment(a, b, c));
        countCase();
    }
    snprintf(sh->note, sizeof sh->note, "%d directions, degree %d, largest moment error %.2g", n, D, worst);
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v;
    if (needSyms({"mcs_quad"}, "quadrature")) {
        for (int N = 2; N <= 30; N += 2) {
            Scenario s; s.name = fmt("order%d", N); s.body = [=] { Config c; c.nRanks = 1; rt::run(c, [&](int r) { mpiInit(); std::vector<double> d; uint64_t n = fn<uint64_t (*)(uint64_t, std::vector<double> &)>(r, "mcs_quad")(N, d); check(d, N, n); mpiFini(); }); }; s.cpuLimit = 120; v.push_back(s);
        }
        std::vector<uint64_t> bad = {0, 1, 31, 32, 34, 62, 64, 1000, 0x100000002ull, 0x8000000000000002ull, ~0ull, ~0ull - 1}; for (int i = 3; i < 31; i += 2) bad.push_back(i);
        for (auto b : bad) { Scenario s; s.name = fmt("refused%lu", b); s.expect = Scenario::REFUSES; s.body = [=] { Config c; c.nRanks = 1; countCase(); rt::run(c, [&](int r) { mpiInit(); std::vector<double> d; fn<uint64_t (*)(uint64_t, std::vector<double> &)>(r, "mcs_quad")(b, d); mpiFini(); }); }; v.push_back(s); }
    }
    // the same through the input deck, and all supported orders complete a run
    for (int sn : {-2, -1, 0, 1, 3, 5, 29, 31, 32, 100}) { RunCase k; k.mesh = "tet1"; k.sn = sn; k.ref = RunCase::NONE; k.dev = 0; k.iterMax = 1; Scenario s = runScenario(k); s.name = "deck/" + s.name; s.expect = Scenario::REFUSES; v.push_back(s); }
    for (int sn = 2; sn <= 30; sn += 2) { RunCase k; k.mesh = "tet1"; k.sn = sn; k.ref = RunCase::NONE; k.dev = 0; k.iterMax = 1; Scenario s = runScenario(k, [=](const RunCase &) { RunOut o = readPsi("out.psi"); if (!o.fileOk) fail(ST_WRONG, "%s", o.why.c_str()); if (o.na != 2u * sn * sn) fail(ST_WRONG, "run with order %d used %lu directions", sn, o.na); }); s.name = "deck/" + s.name; s.cpuLimit = 60; v.push_back(s); }
    return v;
}
}
static Check chk{"C08", "quadrature",
    "all 15 supported orders completely: number, length, distinctness, weights, mirror images, and every monomial up to degree 2N-1; the orders around them and unreasonable ones refused, directly and through the deck", "exploration", make, nullptr, {}, 200, 780};
static Reg reg(&chk);
