#include "harness.hh"
#include "fake/mpi.h"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <fnmatch.h>
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>
#include <sstream>
#include <map>
#include <array>
using namespace rt;

std::string g_build, g_scratch; bool g_thorough = false;
std::vector<Check *> &checks() { static std::vector<Check *> c; return c; }
std::string fmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

std::string g_variant;
void *copyHandle(int r)
{
    static std::map<std::string, std::array<void *, MAXR>> hs; static std::string last; static void **h = nullptr; if (!h || last != g_variant) { h = hs[g_variant].data(); last = g_variant; }
    if (!h[r]) { std::string p = g_build + "/tycho" + g_variant + "_" + std::to_string(r) + ".so"; h[r] = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h[r]) { fprintf(stderr, "%s\n", dlerror()); exit(2); } }
    return h[r];
}
void *symOf(int r, const char *n) { void *p = dlsym(copyHandle(r), n); if (!p) { fprintf(stderr, "the program's interface used by this check is gone: %s\n", n); exit(2); } return p; }
bool haveSym(const char *n) { return dlsym(copyHandle(0), n) != nullptr; }
void *toolHandle(const char *tool)
{
    std::string t = tool;
    static std::map<std::string, void *> h; void *&p = h[t + g_variant];
    if (!p) { std::string f = g_build + "/" + t + g_variant + ".so"; p = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL); if (!p) { fprintf(stderr, "%s\n", dlerror()); exit(2); } }
    return p;
}
void *toolSym(const char *t, const char *n) { void *p = dlsym(toolHandle(t), n); if (!p) { fprintf(stderr, "tool %s has no %s\n", t, n); exit(2); } return p; }

std::string rawFile(const std::string &text, const char *suf)
{
    static std::map<std::string, std::string> known; auto it = known.find(text + "|" + suf); if (it != known.end()) return it->second;
    std::string n = g_scratch + "/f" + std::to_string(known.size()) + "_" + std::to_string(scratchPid()) + suf; writeDisk(n, text); known[text + "|" + suf] = n; return n;
}
std::string deckFile(const Deck &o) { return rawFile(deckText(o), ".deck"); }
std::string partName(const std::vector<int> &p) { std::string s; for (int x : p) s += char('0' + x); if (s.size() > 48) { uint64_t h = 0; for (int x : p) h = h * 1000003 + x + 1; char b[24]; snprintf(b, sizeof b, "~%08x", (unsigned)(h ^ h >> 32)); s = s.substr(0, 12) + b; } return s; }
static int pidFixed = 0; int scratchPid() { return pidFixed ? pidFixed : (int)getpid(); } void fixScratchPid() { pidFixed = (int)getpid(); }
void mpiInit() { int p; MPI_Init_thread(nullptr, nullptr, MPI_THREAD_SERIALIZED, &p); }
void mpiFini() { MPI_Finalize(); }

void runMain(const Config &cfg, const std::vector<char> &pmesh, const std::string &deck)
{
    files()["in.pmesh"] = pmesh;
    rt::run(cfg, [&](int r) {
        static char a0[] = "sweep.x", a1[] = "in.pmesh"; char a2[512]; snprintf(a2, sizeof a2, "%s", deck.c_str());
        char *argv[] = {a0, a1, a2, nullptr};
        int rc = fn<int (*)(int, char **)>(r, "mcs_main")(3, argv);
        if (rc) fail(ST_EXIT, "rank %d: main returned %d: %s", r, rc, captured(r).c_str());
    });
}
RunOut readPsi(const std::string &name)
{
    RunOut o; auto it = files().find(name);
    if (it == files().end()) { o.why = "no output file"; return o; }
    const std::vector<char> &d = it->second; if (d.size() < 64) { o.why = "output file shorter than its header"; return o; }
    char nm[32]; memset(nm, 0, 32); strcpy(nm, "Tycho 2 Psi Output");
    if (memcmp(nm, d.data(), 32)) { o.why = "wrong name in the output header"; return o; }
    uint64_t h[4]; memcpy(h, d.data() + 32, 32);
    if (h[0] != 1) { o.why = "wrong version in the output header"; return o; }
    o.nc = h[1]; o.na = h[2]; o.ng = h[3];
    if (d.size() != 64 + 8 * h[1] * h[2] * h[3] * 4) { o.why = fmt("output file has %zu bytes for %lu cells, %lu angles, %lu groups", d.size(), h[1], h[2], h[3]); return o; }
    o.psi.assign(h[3], std::vector<double>(h[1] * h[2] * 4));
    const char *p = d.data() + 64; for (size_t i = 0; i < h[1] * h[2] * 4; i++) for (uint64_t g = 0; g < h[3]; g++) { memcpy(&o.psi[g][i], p, 8); p += 8; }
    o.fileOk = true; return o;
}
void checkPsi(const RunOut &o, const std::vector<double> &ref, int ng, double tol, const char *what)
{
    if (!o.fileOk) fail(ST_WRONG, "%s: %s", what, o.why.c_str());
    if (o.ng != (uint64_t)ng) fail(ST_WRONG, "%s: %lu groups in the file, expected %d", what, o.ng, ng);
    for (int g = 0; g < ng; g++) {
        size_t w = 0; double e = maxRel(o.psi[g], ref, &w);
        if (!(e <= tol)) fail(ST_WRONG, "%s: group %d: flux at cell %zu angle %zu vertex %zu is %.15g, reference %.15g (relative difference %.3g)", what, g, w / 4 / o.na, w / 4 % o.na, w % 4,
                              w < o.psi[g].size() ? o.psi[g][w] : 0.0, w < ref.size() ? ref[w] : 0.0, e);
    }
}

// ---------------------------------------------------------------- main
static std::string js(const std::string &s)
{
    std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += ' '; else o += c; } return o + "\"";
}
struct Known { std::string scenario, status, msg, text; };
static std::vector<Known> readKnown(const std::string &file, const std::string &id)
{
    // known: property=<id> | scenario=<glob> | status=<status> | message=<glob> | <what fails>
    std::vector<Known> k; std::ifstream f(file); std::string l;
    while (std::getline(f, l)) {
        if (l.rfind("known:", 0)) continue;
        std::vector<std::string> p; std::stringstream ss(l.substr(6)); std::string x; while (std::getline(ss, x, '|')) { size_t a = x.find_first_not_of(' '), b = x.find_last_not_of(' '); p.push_back(a == std::string::npos ? "" : x.substr(a, b - a + 1)); }
        if (p.size() < 5 || p[0] != "property=" + id) continue;
        k.push_back({p[1].substr(9), p[2].substr(7), p[3].substr(8), p[4]});
    }
    return k;
}
int main(int argc, char **argv)
{
    rt::captureStreams();
    std::string id, out, replay, known, replayDir; double limit = 0; bool list = false; std::string only;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--build") g_build = nx(); else if (a == "--scratch") g_scratch = nx(); else if (a == "--evidence") out = nx(); else if (a == "--tier") g_thorough = nx() == "thorough";
        else if (a == "--replay") replay = nx(); else if (a == "--known") known = nx(); else if (a == "--limit") limit = atof(nx().c_str()); else if (a == "--replays") replayDir = nx(); else if (a == "--list") list = true; else if (a == "--only") only = nx();
        else id = a;
    }
    Check *c = nullptr; for (Check *x : checks()) if (id == x->id) c = x;
    if (!c) { fprintf(stderr, "no check %s\n", id.c_str()); return 2; }
    double t0 = now(); g_only = c->only;
    std::vector<Scenario> scn = c->make();
    if (!only.empty()) { std::vector<Scenario> s2; for (auto &s : scn) if (!fnmatch(only.c_str(), s.name.c_str(), 0)) s2.push_back(s); scn = s2; }
    if (list) { for (auto &s : scn) printf("%s  maxDev=%d cap=%lu\n", s.name.c_str(), s.maxDev, s.maxExec); printf("%zu scenarios\n", scn.size()); return 0; }
    if (!replay.empty()) {
        std::ifstream f(replay); std::string l, name; std::vector<Dev> dev;
        while (std::getline(f, l)) { if (l.rfind("scenario ", 0) == 0) name = l.substr(9); unsigned p, ch, n; if (sscanf(l.c_str(), "dev %u %u %u", &p, &ch, &n) == 3) dev.push_back(Dev{p, (uint16_t)ch, (uint16_t)n}); }
        for (auto &s : scn) if (s.name == name) { std::string m; int j = replayOne(s, dev, m); printf("replay of %s: %s (%s)\n", name.c_str(), j == 1 ? "VIOLATION" : j ? "problem" : "no violation", m.c_str()); return j; }
        fprintf(stderr, "no scenario %s in this tier\n", name.c_str()); return 2;
    }
    Totals t; std::vector<Finding> found;
    explore(scn, limit > 0 ? limit : (g_thorough ? c->thoroughSec : c->quickSec), t, found);
    std::vector<Known> kn = readKnown(known, id); int nv = 0, machinery = 0, nk = 0; std::map<std::string, int> knownHits;
    for (auto &f : found) {
        if (f.status == "machinery") { machinery++; fprintf(stderr, "machinery problem in %s: %s\n", f.scenario.c_str(), f.msg.c_str()); continue; }
        const Known *k = nullptr; for (auto &x : kn) if (!fnmatch(x.scenario.c_str(), f.scenario.c_str(), 0) && (x.status == "*" || x.status == f.status) && !fnmatch(x.msg.c_str(), f.msg.c_str(), 0)) k = &x;
        if (k) { nk++; knownHits[k->text]++; continue; }
        std::string rp = replayDir + "/" + id + "_" + std::to_string(nv) + ".replay"; nv++;
        if (nv <= 20) {
            std::ofstream o(rp); o << "property " << id << "\nscenario " << f.scenario << "\nstatus " << f.status << "\n"; for (auto &d : f.dev) o << "dev " << d.pos << " " << d.c << " " << d.n << "\n"; o << "# " << f.msg << "\n# tier " << (g_thorough ? "thorough" : "quick") << "; replay: python3 check.py " << id << " --tier " << (g_thorough ? "thorough" : "quick") << " --replay " << rp << "\n";
            printf("VIOLATION property=%s replay=%s\n  scenario: %s (%zu deviations)\n  %s: %s\n", id.c_str(), rp.c_str(), f.scenario.c_str(), f.dev.size(), f.status.c_str(), f.msg.substr(0, 700).c_str());
        }
    }
    for (auto &h : knownHits) printf("KNOWN-FINDING: property=%s %s (%d scenarios)\n", id.c_str(), h.first.c_str(), h.second);
    std::string level = c->level, cov;
    bool complete = !t.deadline && t.scenariosDone == t.scenarios;
    cov += fmt("\"rule\": %s, ", js(c->rule).c_str());
    if (level == "model_checking") cov += fmt("\"states\": %lu, \"transitions\": %lu, \"traces_validated_against_impl\": %lu, \"executions_cut_at_a_visited_state\": %lu, \"distinct_outcomes\": %lu, ", t.states, t.steps, t.exec, t.pruned, t.outcomes);
    else cov += fmt("\"evaluations\": %lu, \"distinct_nontrivial\": %lu, \"executions\": %lu, ", t.user[UC_CASES], t.user[UC_NONTRIVIAL], t.exec);
    cov += fmt("\"scenarios\": %lu, \"scenarios_completed\": %lu, \"scenarios_with_nothing_left_out\": %lu, \"choice_points\": %lu, \"longest_execution_choice_points\": %lu, ", t.scenarios, t.scenariosDone, t.exhaustive, t.points, t.maxPts);
    cov += fmt("\"messages\": %lu, \"collectives\": %lu, \"polls\": %lu, \"parallel_regions\": %lu, \"accesses_race_checked\": %lu, \"refusals_seen\": %lu, ", t.messages, t.collectives, t.polls, t.regions, t.racesChecked, t.refused);
    cov += "\"scenarios_completed_with_all_deviations_up_to\": {"; bool first = true; for (int i = 0; i < 8; i++) if (t.doneAt[i]) { cov += fmt("%s\"%d\": %lu", first ? "" : ", ", i, t.doneAt[i]); first = false; } cov += "}, ";
    if (level == "model_checking" && t.user[UC_CASES]) cov += fmt("\"cases\": %lu, ", t.user[UC_CASES]);
    if (t.other) { cov += fmt("\"executions_that_failed_in_a_way_other_properties_are_about\": %lu, ", t.other); printf("note: %lu executions failed in a way that is not this property's subject\n", t.other); }
    if (machinery) cov += fmt("\"scenarios_without_an_answer\": %d, ", machinery);
    if (t.odd) { cov += fmt("\"executions_not_under_full_control\": %lu, ", t.odd); printf("note: %lu executions were not reproducible or too long and were left out\n", t.odd); }
    std::string ex; if (c->extra) c->extra(t, ex); cov += ex;
    cov += "\"samples\": ["; for (size_t i = 0; i < t.samples.size(); i++) cov += (i ? ", " : "") + js(t.samples[i]); cov += "], ";
    cov += fmt("\"exhaustive\": %s", complete && t.exhaustive == t.scenarios ? "true" : "false");
    if (t.deadline) { cov += ", \"not_reached_before_the_deadline\": ["; for (size_t i = 0; i < t.skipped.size(); i++) cov += (i ? ", " : "") + js(t.skipped[i]); cov += "]"; }
    std::string as; for (size_t i = 0; i < c->assumptions.size(); i++) as += (i ? ", " : "") + js(c->assumptions[i]);
    const char *seed = getenv("VERIF_SEED");
    if (!out.empty()) {
        std::ofstream o(out);
        o << "{\"property\": \"" << id << "\", \"tier\": \"" << (g_thorough ? "thorough" : "quick") << "\", \"seed\": " << (seed ? atoi(seed) : 1) << ", \"level\": \"" << level << "\", \"coverage\": {" << cov << "}, \"assumptions\": [" << as << "], \"violations\": " << nv << ", \"known_findings\": " << nk << fmt(", \"wall_s\": %.2f}\n", now() - t0);
    }
    printf("%s: %lu scenarios (%lu completed), %lu executions, %lu states, %lu steps, %lu cases, %d violations, %d known, %.1f s%s\n", id.c_str(), t.scenarios, t.scenariosDone, t.exec, t.states, t.steps, t.user[UC_CASES], nv, nk, now() - t0, t.deadline ? " (deadline)" : "");
    if (nv) return 1;
    if (machinery && 2 * machinery >= (int)t.scenarios) return 2;
    return 0;
}
