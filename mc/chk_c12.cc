// C12: the flux output file is complete, exact and partition-independent.
#include "comp.hh"
#include <cstring>
#include <unistd.h>
#include <map>
#include <sys/mman.h>
using namespace rt;
namespace {
typedef std::vector<char> B;
// a different bit pattern for every (global cell, direction, vertex, group), special values among them
uint64_t bits(int c, int a, int v, int g)
{
    static const uint64_t special[] = {0x8000000000000000ull, 0, 1, 0x7ff0000000000000ull, 0x7ff8000000000001ull, 0xffefffffffffffffull};
    uint64_t n = ((c * 97ull + a) * 4 + v) * 7 + g; if (n % 11 == 3) return special[(n / 11) % 6] ^ (n % 11 == 3 && (n / 11) % 6 == 4 ? n << 8 : 0);
    double d = 1.0 + n * 1e-3 + 1e-15 * (n % 3); uint64_t u; memcpy(&u, &d, 8); return u;
}
B expected(int nc, int na, int ng, bool headOnly = false)
{
    B b(headOnly ? 64 : 64 + 8ull * nc * na * 4 * ng, 0); memcpy(b.data(), "Tycho 2 Psi Output", 18); uint64_t h[4] = {1, (uint64_t)nc, (uint64_t)na, (uint64_t)ng}; memcpy(b.data() + 32, h, 32); if (headOnly) return b;
    char *p = b.data() + 64; for (int c = 0; c < nc; c++) for (int a = 0; a < na; a++) for (int v = 0; v < 4; v++) for (int g = 0; g < ng; g++) { uint64_t u = bits(c, a, v, g); memcpy(p, &u, 8); p += 8; }
    return b;
}
B earlier(int kind, const B &want)
{
    switch (kind) { case 1: return B(); case 2: return B(17, 'x'); case 3: return B(want.size(), '\x7f'); case 4: return B(want.size() + 4097, 'y'); case 5: { B b = want; for (size_t i = 64; i < b.size(); i += 5) b[i] ^= 0x55; b.resize(b.size() + 8, 'z'); return b; } case 6: return B(want.begin(), want.begin() + 64); }
    return B();
}
void compare(const std::string &name, const B &want)
{
    auto it = files().find(name); if (it == files().end()) fail(ST_WRONG, "no file '%s' was written", name.c_str());
    const B &g = it->second; if (g == want) return;
    if (g.size() != want.size()) fail(ST_WRONG, "the file has %zu bytes, expected %zu", g.size(), want.size());
    for (size_t i = 0; i < g.size(); i++) if (g[i] != want[i]) fail(ST_WRONG, "byte %zu of the file is %02x, expected %02x%s", i, (unsigned char)g[i], (unsigned char)want[i], i < 64 ? " (header)" : "");
}
struct W { std::string name; int prior; int twice; uint64_t fault; };
Scenario direct(const CompCase &k, const W &w)
{
    auto want = std::make_shared<B>(expected(meshOf(k.mesh).nc(), RQuad(k.sn).n, k.ng));
    auto begun = std::make_shared<bool>(false);
    Scenario s = compScenario(fmt("write%d%s.f%lu", w.prior, w.twice ? "twice" : "", w.fault), k, [=](int r, LocalView &v) {
        if (!*begun) { *begun = true; ioOps = 0; ioFaultHit = false; ioFaultAt = w.fault; }     // the mesh file has been closed by all ranks
        int na = RQuad(k.sn).n; std::vector<double> psi((size_t)v.nc * na * 4 * k.ng); for (int c = 0; c < v.nc; c++) for (int a = 0; a < na; a++) for (int x = 0; x < 4; x++) for (int g = 0; g < k.ng; g++) { uint64_t u = bits(v.gc[c], a, x, g); memcpy(&psi[((size_t)(c * na + a) * 4 + x) * k.ng + g], &u, 8); }
        if (v.nc == 0) psi.resize(1);
        B before((char *)psi.data(), (char *)(psi.data() + psi.size()));
        if (w.twice) { std::vector<double> q(psi.size(), 3.25); fn<void (*)(double *, const char *)>(r, "mcs_write_psi")(q.data(), w.name.c_str()); }
        fn<void (*)(double *, const char *)>(r, "mcs_write_psi")(psi.data(), w.name.c_str());
        if (memcmp(before.data(), psi.data(), before.size())) fail(ST_WRONG, "rank %d: writing changed the flux", r);
    }, [=] { if (w.fault && !ioFaultHit) snprintf(sh->note, sizeof sh->note, "fewer file operations"); compare(w.name, *want); for (auto &f : files()) if (f.first != "in.pmesh" && f.first != w.name) fail(ST_WRONG, "a file '%s' was written", f.first.c_str()); });
    auto inner = s.body; s.body = [=] { if (w.prior) files()[w.name] = earlier(w.prior, *want); ioFaultAt = 0; inner(); };
    if (w.fault) s.expect = Scenario::EITHER;
    return s;
}
Scenario viaMain(RunCase k, const std::string &name, int prior, bool enabled)
{
    k.more = {{"OutputFile", enabled ? "true" : "false"}, {"OutputFilename", name}}; k.ref = RunCase::NONE;
    const std::vector<double> *ref = enabled ? (k.ref = RunCase::ITERATE, &reference(k)) : nullptr;
    auto want = std::make_shared<B>(expected(meshOf(k.mesh).nc(), RQuad(k.sn).n, k.ng)); auto prev = std::make_shared<B>(earlier(prior, *want));
    Scenario s = runScenario(k, [=](const RunCase &q) {
        if (enabled) { checkPsi(readPsi(name), *ref, q.ng, q.tol, "output file"); auto &f = files()[name]; if (memcmp(f.data(), want->data(), 64)) fail(ST_WRONG, "wrong header"); }
        else { auto it = files().find(name); if (!prior && it != files().end()) fail(ST_WRONG, "output is disabled, but '%s' was written", name.c_str()); if (prior && (it == files().end() || it->second != *prev)) fail(ST_WRONG, "output is disabled, but '%s' was changed", name.c_str()); }
        for (auto &f : files()) if (f.first != "in.pmesh" && f.first != name) fail(ST_WRONG, "a file '%s' was written", f.first.c_str());
    });
    s.name = fmt("main/%s/%s/prior%d/", enabled ? "on" : "off", name.c_str(), prior) + s.name;
    auto inner = s.body; s.body = [=] { if (prior) files()[name] = *prev; inner(); };
    return s;
}
// the file is larger than 32 bits (bytes, and values): every write goes to a probe, the flux is zero but for the first and the last value of each cell
Scenario far(const CompCase &k)
{
    struct St { std::map<uint64_t, uint64_t> have; std::vector<int> seen; }; auto S = std::make_shared<St>(); int nc = meshOf(k.mesh).nc(); uint64_t per = (uint64_t)RQuad(k.sn).n * 4 * k.ng; B head = expected(nc, RQuad(k.sn).n, k.ng, true);
    Scenario s = compScenario("far", k, [=](int r, LocalView &v) {
        size_t n = (size_t)v.nc * per * 8; double *psi = (double *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (psi == MAP_FAILED) fail(ST_MEM, "mmap of %zu bytes", n);
        for (int c = 0; c < v.nc; c++) { psi[c * per] = v.gc[c] + 0.25; psi[(c + 1) * per - 1] = -v.gc[c] - 0.5; }
        fn<void (*)(double *, const char *)>(r, "mcs_write_psi")(psi, "far.psi"); munmap(psi, n);
    }, [=] { probeName.clear(); uint64_t at = 0; for (auto &x : S->have) { if (x.first != at) fail(ST_WRONG, "bytes from %lu on are written, expected from %lu on", x.first, at); at = x.second; } if (at != 64 + 8 * per * nc) fail(ST_WRONG, "the file has %lu bytes, expected %lu", at, 64 + 8 * per * nc); });
    auto inner = s.body; s.body = [=] {
        S->have.clear(); probeName = "far.psi"; probe = [=](uint64_t pos, const char *b, uint64_t n) {
            auto it = S->have.upper_bound(pos); if (it != S->have.begin() && std::prev(it)->second > pos) fail(ST_WRONG, "byte %lu is written twice", pos); if (it != S->have.end() && it->first < pos + n) fail(ST_WRONG, "byte %lu is written twice", it->first);
            S->have[pos] = pos + n; for (uint64_t i = pos; i < std::min<uint64_t>(64, pos + n); i++) if (b[i - pos] != head[i]) fail(ST_WRONG, "byte %lu of the header is wrong", i);
            uint64_t c0 = pos < 64 ? 0 : (pos - 64) / 8 / per; for (uint64_t c = c0; c <= (pos + n - 64) / 8 / per && pos + n > 64; c++) for (int l = 0; l < 2; l++) { uint64_t p = 64 + 8 * (c * per + (l ? per - 1 : 0)); if (p < pos || p + 8 > pos + n) continue; double d; memcpy(&d, b + (p - pos), 8); double w = l ? -(double)c - 0.5 : c + 0.25; if (d != w) fail(ST_WRONG, "cell %lu: value at byte %lu is %g, expected %g", c, p, d, w); }
        };
        inner();
    };
    return s;
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int h = 0;
    const char *nm[] = {"out.psi", "a", "results.with-a_long+name.0123456789.psi"};
    if (needSyms({"mcs_write_psi", "mcs_setup", "mcs_mu", "mcs_md"}, "writing the flux")) {
        for (auto mesh : T ? std::vector<std::string>{"tet1", "tet2", "tet3", "fan4", "tet4", "tet5", "cube5", "cube6"} : std::vector<std::string>{"tet1", "tet2", "tet3", "fan4", "cube5"}) {
            int nc = meshOf(mesh).nc(); for (int np = 1; np <= 4 && np <= nc; np++) for (auto &p : allPartitions(nc, np)) {
                if (!T && nc > 4 && np > 2 && (h++ % 3)) continue;
                CompCase k; k.mesh = mesh; k.part = p; k.np = np; k.order = h * 37 % 64; k.ng = 1 + h % 3; k.sn = h % 7 == 0 ? 4 : 2; k.mode = SendMode(h % 3); k.dev = np > 1 ? (T ? 2 : 1) : 0; k.cap = T ? 300 : 25;
                v.push_back(direct(k, W{nm[h % 3], h % 7, h % 5 == 4, 0})); h++;
            }
        }
        // all earlier contents, in depth
        for (int prior = 0; prior < 7; prior++) for (int np = 1; np <= 3; np++) for (int tw = 0; tw < 2; tw++) { CompCase k; k.mesh = "fan4"; k.np = np; k.part = {0, np > 1, np > 2 ? 2 : 0, np > 1}; k.ng = 2; k.dev = np > 1 ? (T ? 4 : 2) : 0; k.cap = T ? 8000 : 700; v.push_back(direct(k, W{"out.psi", prior, tw, 0})); }
        // every file operation fails once: the run stops or the file is right
        for (int prior = 0; prior < 2; prior++) for (int np = 1; np <= 3; np++) for (uint64_t f = 1; f <= 10 + (uint64_t)np; f++) { CompCase k; k.mesh = "fan4"; k.np = np; k.part = {0, np > 1, np > 2 ? 2 : 0, np > 1}; k.dev = 0; v.push_back(direct(k, W{"out.psi", prior * 4, 0, f})); }
    }
    static const char *sw[] = {"OriginalTycho1", "TraverseGraph", "OriginalTycho2"};
    for (auto mesh : {"tet3", "cube5"}) { int nc = meshOf(mesh).nc(); for (int np = 1; np <= 3; np++) for (auto &p : allPartitions(nc, np, true, true)) for (int on = 0; on < 2; on++) {
        RunCase k; k.mesh = mesh; k.part = p; k.np = np; k.sweep = sw[h % 3]; k.ng = 1 + h % 2; k.iterMax = 1; k.order = h * 37 % 64; k.mode = SendMode(h % 3); k.dev = T ? 1 : 0; k.cap = 60; v.push_back(viaMain(k, nm[(h / 2) % 3], h % 7, on)); h++;
    } }
    static const char *all[] = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph", "PBJ", "PBJOuter", "PBJSI", "Schur", "SchurOuter", "SchurKrylov"};
    for (auto w : all) for (int np = 1; np <= 2; np++) { RunCase k; k.mesh = "tet3"; k.part = {0, np - 1, 0}; k.np = np; k.sweep = w; k.iterMax = 3; k.dev = 0; for (int pr : {0, 4}) { v.push_back(viaMain(k, "out.psi", pr, false)); if (isFull(w)) v.push_back(viaMain(k, "out.psi", pr, true)); } }
    // files beyond 32 bits
    if (needSyms({"mcs_write_psi", "mcs_setup", "mcs_mu", "mcs_md"}, "writing the flux")) for (int np = 2; np <= 8; np += T ? 2 : 3) { CompCase k; k.mesh = "grid11x7x1"; int nc = meshOf(k.mesh).nc(); k.np = np; k.part.resize(nc); for (int c = 0; c < nc; c++) k.part[c] = (c * 5 + c / 7) % np; k.sn = 4; k.ng = 100000; k.dev = 0; v.push_back(far(k)); }
    // sizes beyond those of the other scenarios
    if (needSyms({"mcs_write_psi", "mcs_setup", "mcs_mu", "mcs_md"}, "writing the flux")) for (int i = 0; i < (T ? 96 : 40); i++) { CompCase k; bigSize(k, i); k.dev = T ? 1 : 0; k.cap = 20; v.push_back(direct(k, W{nm[i % 3], i % 7, i % 5 == 4, 0})); }
    if (needSyms({"mcs_write_psi", "mcs_setup", "mcs_mu", "mcs_md"}, "writing the flux")) for (int i = 0; i < 3; i++) { CompCase k; huge(k, i); v.push_back(direct(k, W{nm[i], i, false, 0})); v.back().cpuLimit = 600; }
    for (auto w : all) for (int i = 0; i < (T ? 16 : 4); i++) { RunCase k; bigSize(k, i * 3 + h++); k.sweep = w; k.iterMax = 2; k.ddIter = 2; k.dev = 0; v.push_back(viaMain(k, nm[h % 3], h % 7, isFull(w))); }
    return v;
}
}
static Check chk{"C12", "flux output file",
    "the writer driven directly with a different bit pattern for every value (signed zeros, denormals, infinities and NaNs among them) for all partitions of small meshes, group and direction counts, and seven kinds of earlier file content, compared byte by byte on every explored schedule; every file operation failing once; whole runs with output on and off", "model_checking", make, nullptr,
    {"MPI-IO is a stand-in: files of shared memory, exclusive creation, collective open and close", "executions with more deviations from the default schedule than the scenario's bound are not explored"}, 150, 780};
static Reg reg(&chk);
