// C11: damaged or foreign mesh files are refused, never silently used.
#include "comp.hh"
#include <cstring>
#include <unistd.h>
using namespace rt;
namespace {
typedef std::vector<char> B;
typedef std::shared_ptr<B> PB;
enum Reader { SREAD, PREAD, PARALLEL, MAIN, T_SINFO, T_COLS, T_METIS, T_REFINE, T_PINFO, NREADERS };
const char *rn[] = {"SerialMesh::read", "ParallelMesh::read", "readInParallel", "main", "SerialMeshInfo", "PartitionColumns", "PartitionMetis", "RefineSerialMesh", "ParallelMeshInfo"};
bool serialReader(Reader r) { return r == SREAD || (r >= T_SINFO && r <= T_REFINE); }
struct Tmp { std::string n; bool made; Tmp(const char *s, const B *d) : n(fmt("c11_%d%s", scratchPid(), s)), made(d) { if (d) writeDisk(n, *d); } ~Tmp() { unlink(n.c_str()); } };
int runTool(const char *tool, std::vector<std::string> a)
{
    std::vector<char *> v; a.insert(a.begin(), tool); for (auto &s : a) v.push_back(&s[0]); v.push_back(nullptr);
    return ((int (*)(int, char **))toolSym(tool, "_Z9tool_mainiPPc"))(a.size(), v.data());
}
// the reader gets the file; whatever it returns, reaching the end of this function means it was accepted
void drive(Reader rd, const B *file, int np, const std::string &deck)
{
    Config c; c.nRanks = np; c.race = false; c.strictLevel = false; c.strictBuf = false; c.schedRanks = false; c.pollMiss = false;
    Tmp f(".mesh", file), o(".out", nullptr);
    auto ok = [&](int rc) { if (rc) fail(ST_EXIT, "exit status %d", rc); };
    switch (rd) {
    case SREAD: { McSerial m; fn<void (*)(const char *, McSerial &)>(0, "mcs_smesh_read")(f.n.c_str(), m); snprintf(sh->note, sizeof sh->note, "%lu cells read", m.nc); break; }
    case PREAD: { McParallel m; fn<void (*)(const char *, McParallel &)>(0, "mcs_pmesh_read")(f.n.c_str(), m); snprintf(sh->note, sizeof sh->note, "%lu partitions read", m.np); break; }
    case PARALLEL: if (file) files()["in.pmesh"] = *file; rt::run(c, [&](int r) { mpiInit(); McPart p; fn<void (*)(const char *, McPart &)>(r, "mcs_pmesh_readpar")("in.pmesh", p); mpiFini(); }); break;
    case MAIN: if (file) runMain(c, *file, deck); else rt::run(c, [&](int r) { char a0[] = "sweep.x", a1[] = "nowhere.pmesh"; std::string d = deck; char *argv[] = {a0, a1, &d[0], nullptr}; ok(fn<int (*)(int, char **)>(r, "mcs_main")(3, argv)); }); break;
    case T_SINFO: ok(runTool("SerialMeshInfo", {f.n, "verbose"})); break;
    case T_COLS: ok(runTool("PartitionColumns", {"1", "2", f.n, o.n})); if (readDisk(o.n).empty()) fail(ST_EXIT, "nothing written"); break;
    case T_METIS: ok(runTool("PartitionMetis", {"2", f.n, o.n})); break;
    case T_REFINE: ok(runTool("RefineSerialMesh", {f.n, o.n})); break;
    case T_PINFO: { files()[f.n] = file ? *file : B(); if (!file) files().erase(f.n); rt::run(c, [&](int) { ok(runTool("ParallelMeshInfo", {f.n, "verbose"})); }); break; }
    default: break;
    }
}
Scenario one(Reader rd, PB file, int np, const std::string &what, Scenario::Expect e)
{
    Scenario s; s.name = fmt("%s/np%d/%s", rn[rd], np, what.c_str()); s.expect = e; s.maxDev = 0; s.maxExec = 1;
    std::string deck = rd == MAIN ? deckFile({{"snOrder", "2"}, {"iterMax", "1"}, {"SweepType", "PBJ"}, {"DD_IterMax", "2"}, {"OutputFile", "false"}}) : "";
    s.body = [=] { sh->note[0] = 0; countCase(); drive(rd, file.get(), np, deck); };
    return s;
}
B cut(const B &b, size_t n) { return B(b.begin(), b.begin() + n); }
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough;
    bool have[NREADERS] = {needSyms({"mcs_smesh_read"}, "serial reader"), needSyms({"mcs_pmesh_read"}, "partitioned mesh reader"), needSyms({"mcs_pmesh_readpar"}, "parallel reader"), true, true, true, true, true, true};
    auto add = [&](Reader rd, PB f, int np, const std::string &w, Scenario::Expect e) { if (have[rd]) v.push_back(one(rd, f, np, w, e)); };
    auto P = [](B b) { return std::make_shared<B>(std::move(b)); };
    // the readers of both formats; ParallelMeshInfo reads the file serially and then in parallel, one copy: only on one rank
    std::vector<Reader> ser = {SREAD, T_SINFO, T_COLS, T_METIS, T_REFINE};
    struct PF { std::string m; std::vector<int> part; int np; };
    std::vector<PF> pf = {{"tet1", {0}, 1}, {"tet2", {0, 1}, 2}, {"tet3", {0, 1, 2}, 3}}; if (T) { pf.push_back({"fan4", {0, 1, 1, 0}, 2}); pf.push_back({"cube5", {0, 1, 2, 3, 0}, 4}); pf.push_back({"tet2", {0, 0}, 1}); pf.push_back({"cube6", {0, 1, 2, 0, 1, 2}, 3}); }
    std::vector<std::string> sf = {"tet1", "tet2"}; if (T) { sf.push_back("tet3"); sf.push_back("cube5"); sf.push_back("cube6"); }
    // 1. whole files are accepted; every truncation is refused; every bit of name and version matters
    for (auto &m : sf) { B full = smeshBytes(meshOf(m)); for (auto rd : ser) {
        if (rd != T_METIS || meshOf(m).nc() > 1) add(rd, P(full), 1, m + "/whole", Scenario::RUNS);
        size_t step = rd == SREAD || T ? 1 : 3; for (size_t n = 0; n < full.size(); n += (n < 72 ? 1 : step)) add(rd, P(cut(full, n)), 1, fmt("%s/cut%zu", m.c_str(), n), Scenario::REFUSES);
        for (size_t i = 0; i < 40; i++) for (int b = 0; b < 8; b++) { if (rd != SREAD && !T && b % 3) continue; B x = full; x[i] ^= 1 << b; add(rd, P(x), 1, fmt("%s/byte%zu bit%d", m.c_str(), i, b), Scenario::REFUSES); }
    } }
    for (auto &p : pf) { B full = pmeshBytes(meshOf(p.m), p.part, p.np); std::string nm = p.m + "." + partName(p.part);
        for (auto rd : {PREAD, PARALLEL, MAIN, T_PINFO}) {
            int np = rd == PREAD ? 1 : rd == T_PINFO ? 1 : p.np; if (rd == T_PINFO && p.np > 1) continue;
            add(rd, P(full), np, nm + "/whole", Scenario::RUNS);
            size_t step = rd == MAIN && !T ? 5 : 1; for (size_t n = 0; n < full.size(); n += (n < 56 + 8 * (size_t)p.np ? 1 : step)) add(rd, P(cut(full, n)), np, fmt("%s/cut%zu", nm.c_str(), n), Scenario::REFUSES);
            if (p.np > 1 && rd != PREAD) add(rd, P(cut(full, full.size() - 1)), np, nm + "/last byte", Scenario::REFUSES);
            for (size_t i = 0; i < 48; i++) for (int b = 0; b < 8; b++) { if (i >= 40 && rd != PARALLEL && rd != MAIN) continue; if (rd == MAIN && !T && b % 3) continue; B x = full; x[i] ^= 1 << b; add(rd, P(x), np, fmt("%s/byte%zu bit%d", nm.c_str(), i, b), Scenario::REFUSES); }
        }
    }
    // 2. partition counts other than the number of ranks
    std::vector<std::vector<int>> ps = {{0, 0, 0, 0}, {0, 1, 0, 1}, {0, 1, 2, 0}, {0, 1, 2, 3}};
    for (int q = 1; q <= 4; q++) for (int np = 1; np <= 4; np++) for (auto rd : {PARALLEL, MAIN}) add(rd, P(pmeshBytes(meshOf("fan4"), ps[q - 1], q)), np, fmt("%d partitions", q), q == np ? Scenario::RUNS : Scenario::REFUSES);
    // 3. the other format, other versions, empty files, files that do not exist, text
    B s2 = smeshBytes(meshOf("tet3")), p2 = pmeshBytes(meshOf("tet3"), {0, 0, 0}, 1);
    for (int rd = 0; rd < NREADERS; rd++) {
        Reader R = Reader(rd); bool ser = serialReader(R); const B &own = ser ? s2 : p2, &other = ser ? p2 : s2;
        add(R, P(own), 1, "own", Scenario::RUNS); add(R, P(other), 1, "other format", Scenario::REFUSES);
        B x = other; memcpy(x.data(), own.data(), 32); if (x != own) { B y = x; uint64_t ver; memcpy(&ver, own.data() + 32, 8); for (uint64_t k : {ver - 1, ver + 1, 0ul, 3ul, 77ul}) { if (k == ver) continue; y = own; memcpy(y.data() + 32, &k, 8); add(R, P(y), 1, fmt("version %lu", k), Scenario::REFUSES); } }
        add(R, nullptr, 1, "no file", Scenario::REFUSES); add(R, P(B()), 1, "empty", Scenario::REFUSES);
        std::string txt = "Tycho 2 Serial Mesh is what this text begins with, but it is no mesh at all, however long it may be. ................................................."; add(R, P(B(txt.begin(), txt.end())), 1, "text", Scenario::REFUSES);
    }
    return v;
}
}
static Check chk{"C11", "damaged mesh files",
    "every truncation length of small serial and partitioned mesh files (quick: every third length behind the header for the utilities, every fifth for main), every single-bit change of name, version and (when read by all ranks) partition count, all pairs of partition count and rank count up to 4, foreign and missing files; through the serial readers, the parallel reader, the main program and the mesh utilities; whole files must be accepted, everything else must end with an error", "fault_enumeration", make, nullptr, {"one schedule per case"}, 200, 780};
static Reg reg(&chk);
