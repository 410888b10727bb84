// C26: the information tools say what the file holds.
#include "meshfiles.hh"
#include <cmath>
using namespace rt; using namespace meshfiles;
namespace {
int runTool(const std::string &tool, std::vector<std::string> a)
{
    std::vector<char *> v; a.insert(a.begin(), tool); for (auto &s : a) v.push_back(&s[0]); v.push_back(nullptr);
    return ((int (*)(int, char **))toolSym(tool.c_str(), "_Z9tool_mainiPPc"))(a.size(), v.data());
}
typedef std::vector<std::string> W;
// words and numbers, without punctuation
W words(const std::string &t) { W w; std::string c; for (char x : t + " ") { if (isalnum((unsigned char)x) || ((x == '.' || x == '-' || x == '+') && (!c.empty() || x == '-'))) c += x; else if (!c.empty()) { while (!c.empty() && c.back() == '.') c.pop_back(); if (c.find_first_not_of('-') != std::string::npos) w.push_back(c); c.clear(); } } return w; }
bool isNumber(const std::string &s) { char *e; strtod(s.c_str(), &e); return !*e && !s.empty(); }
struct Says {                              // what must be said; numbers: exact; coordinates: to the precision of the print
    struct T { std::string w; double x; bool coord; }; std::vector<T> t;
    Says &text(const char *s) { for (auto &w : words(s)) t.push_back({w, 0, false}); return *this; }
    Says &num(uint64_t n) { t.push_back({std::to_string(n), 0, false}); return *this; }
    Says &nums(const uint64_t *p, int n) { for (int i = 0; i < n; i++) num(p[i]); return *this; }
    Says &coords(const double *p) { for (int i = 0; i < 3; i++) t.push_back({"", p[i], true}); return *this; }
};
void compare(const std::string &out, const Says &s)
{
    W w = words(out); std::string low;
    for (size_t i = 0; i < s.t.size(); i++) {
        std::string want = s.t[i].coord ? fmt("%.17g", s.t[i].x) : s.t[i].w, got = i < w.size() ? w[i] : "nothing"; bool ok;
        if (s.t[i].coord) ok = isNumber(got) && std::fabs(atof(got.c_str()) - s.t[i].x) <= 6e-7 + 1e-6 * std::fabs(s.t[i].x);
        else ok = i < w.size() && !strcasecmp(want.c_str(), got.c_str());
        if (!ok) { std::string before; for (size_t k = i > 4 ? i - 4 : 0; k < i; k++) before += (k < w.size() ? w[k] : "?") + " "; fail(ST_WRONG, "after '%s' the tool says '%s', expected '%s'", before.c_str(), got.c_str(), want.c_str()); }
    }
    if (w.size() > s.t.size()) fail(ST_WRONG, "the tool says more: '%s'", w[s.t.size()].c_str());
    sh->userCount[UC_A] += s.t.size();
}
void serialSays(Says &s, const McSerial &m, bool verbose)
{
    s.text("Mesh Format Name: Tycho 2 Serial Mesh").text("Mesh Version").num(m.version).text("Num Cells").num(m.nc).text("Num Faces").num(m.nf).text("Num Nodes").num(m.nn); if (!verbose) return;
    for (uint64_t c = 0; c < m.nc; c++) s.text("Cell").num(c).text("Faces").nums(&m.cells[9 * c], 4).text("Nodes").nums(&m.cells[9 * c + 4], 4).text("Material Index").num(m.cells[9 * c + 8]);
    for (uint64_t f = 0; f < m.nf; f++) s.text("Face").num(f).text("Cells").nums(&m.faces[5 * f], 2).text("Nodes").nums(&m.faces[5 * f + 2], 3);
    for (uint64_t n = 0; n < m.nn; n++) s.text("Node").num(n).coords(&m.nodes[3 * n]);
}
void partSays(Says &s, const McPart &p, bool verbose)
{
    static const char *types[] = {"MeshBoundary", "PartitionBoundary", "NotBoundary"};
    s.text("Num Cells").num(p.nc).text("Num Faces").num(p.nf).text("Num Nodes").num(p.nn); if (!verbose) return;
    for (uint64_t c = 0; c < p.nc; c++) s.text("Cell").num(c).text("Faces").nums(&p.cells[10 * c], 4).text("Nodes").nums(&p.cells[10 * c + 4], 4).text("globalID").num(p.cells[10 * c + 8]).text("materialIndex").num(p.cells[10 * c + 9]);
    for (uint64_t f = 0; f < p.nf; f++) s.text("Face").num(f).text("Cells").nums(&p.faces[9 * f], 2).text("Nodes").nums(&p.faces[9 * f + 2], 3).text("globalID").num(p.faces[9 * f + 5]).text("partition").nums(&p.faces[9 * f + 6], 2).text("boundaryType").text(types[p.faces[9 * f + 8]]);
    for (uint64_t n = 0; n < p.nn; n++) s.text("Node").num(n).text("coords").coords(&p.nodes[3 * n]).text("globalID").num(p.nodeIds[n]);
}
B parallelBytes(const McParallel &m)
{
    B b(32); strcpy(b.data(), "Tycho 2 Parallel Mesh"); auto put = [&](const void *p, size_t n) { b.insert(b.end(), (const char *)p, (const char *)p + n); };
    put(&m.version, 8); put(&m.np, 8); put(m.offsets.data(), 8 * m.offsets.size());
    for (auto &p : m.parts) { put(&p.nc, 8); put(&p.nf, 8); put(&p.nn, 8); put(p.cells.data(), 8 * p.cells.size()); put(p.faces.data(), 8 * p.faces.size()); for (uint64_t n = 0; n < p.nn; n++) { put(&p.nodes[3 * n], 24); put(&p.nodeIds[n], 8); } }
    return b;
}
// meshes in which every entry has a value of its own
uint64_t odd(uint64_t i) { return i % 7 == 6 ? NONE - i : i % 5 == 4 ? 0x100000000ull * i + 3 : i % 3 == 2 ? i * 1000003 : i; }
double oddX(uint64_t i) { static const double k[] = {0.25, -1, 1e-3, 12345.678, -0.5, 3e6}; return k[i % 6] * (1 + i * 0.001); }
McSerial fakeSerial(int nc, int nf, int nn)
{
    McSerial m; m.version = 2; m.nc = nc; m.nf = nf; m.nn = nn; uint64_t k = 1; for (int i = 0; i < 9 * nc; i++) m.cells.push_back(odd(k++)); for (int i = 0; i < 5 * nf; i++) m.faces.push_back(odd(k++)); for (int i = 0; i < 3 * nn; i++) m.nodes.push_back(oddX(k++)); return m;
}
McParallel fakeParallel(const std::vector<std::array<int, 3>> &n)
{
    McParallel m; m.version = 2; m.np = n.size(); uint64_t k = 1, at = 32 + 16 + 8 * (m.np + 1); for (auto &c : n) {
        m.offsets.push_back(at); McPart p; p.nc = c[0]; p.nf = c[1]; p.nn = c[2]; for (int i = 0; i < 10 * c[0]; i++) p.cells.push_back(odd(k++)); for (int i = 0; i < 9 * c[1]; i++) p.faces.push_back(i % 9 == 8 ? (k++ / 9 + i / 9) % 3 : odd(k++)); for (int i = 0; i < c[2]; i++) { for (int q = 0; q < 3; q++) p.nodes.push_back(oddX(k++)); p.nodeIds.push_back(odd(k++)); }
        at += 24 + 80 * p.nc + 72 * p.nf + 32 * p.nn; m.parts.push_back(p); }
    m.offsets.push_back(at); return m;
}
Scenario serialInfo(const std::string &name, const McSerial &m, bool verbose)
{
    Scenario s; s.name = fmt("SerialMeshInfo/%s%s", name.c_str(), verbose ? "/verbose" : ""); s.maxDev = 0; s.maxExec = 1; auto p = std::make_shared<McSerial>(m);
    s.body = [=] {
        std::string f = fmt("c26_%d.smesh", scratchPid()); B b = serialBytes(*p); writeDisk(f, b); allText.clear(); W a = {f}; if (verbose) a.push_back("verbose");
        int rc = runTool("SerialMeshInfo", a); std::string t = allText; B after = readDisk(f); unlink(f.c_str()); if (rc) fail(ST_EXIT, "exit status %d", rc);
        if (after != b) fail(ST_WRONG, "the tool changed the file");
        Says w; w.text("--- SerialMeshInfo Utility ---"); serialSays(w, *p, verbose); compare(t, w); countCase();
    };
    return s;
}
Scenario parallelInfo(const std::string &name, const McParallel &m, bool verbose, int dev)
{
    Scenario s; s.name = fmt("ParallelMeshInfo/%s%s", name.c_str(), verbose ? "/verbose" : ""); s.maxDev = dev; s.maxExec = 60; auto p = std::make_shared<McParallel>(m);
    s.body = [=] {
        std::string f = fmt("c26_%d.pmesh", scratchPid()); B b = parallelBytes(*p); writeDisk(f, b); allText.clear();
        Config c; c.nRanks = p->np; c.race = false; c.strictLevel = false; c.strictBuf = false;
        rt::run(c, [&](int r) { W a = {f}; if (verbose) a.push_back("verbose"); int rc = runTool(r ? fmt("ParallelMeshInfo_%d", r) : "ParallelMeshInfo", a); if (rc) fail(ST_EXIT, "exit status %d", rc); });
        B after = readDisk(f); unlink(f.c_str()); if (after != b) fail(ST_WRONG, "the tool changed the file");
        Says w; w.text("--- ParallelMeshInfo Utility ---").text("Parallel mesh data read serially").text("Mesh Format Name: Tycho 2 Parallel Mesh").text("Mesh Version").num(p->version).text("Num partitions").num(p->np).text("Bytes Offset"); for (auto o : p->offsets) w.num(o);
        for (uint64_t i = 0; i < p->np; i++) { w.text("Partition").num(i); partSays(w, p->parts[i], verbose); }
        w.text("Parallel mesh data read in parallel"); for (uint64_t i = 0; i < p->np; i++) { w.text("Partition").num(i); partSays(w, p->parts[i], verbose); }
        compare(allText, w); countCase();
    };
    return s;
}
// wrong arguments: says how it is used, ends normally
Scenario usage(const char *tool, const W &args, int np)
{
    Scenario s; std::string n; for (auto &a : args) n += "/" + a; s.name = fmt("usage/%s/np%d%s", tool, np, n.c_str()); s.maxDev = np > 1 ? 1 : 0; s.maxExec = 20; std::string t = tool;
    s.body = [=] {
        allText.clear(); int rc = 0; if (t == "SerialMeshInfo") rc = runTool(t, args);
        else { Config c; c.nRanks = np; c.race = false; c.strictLevel = false; c.strictBuf = false; rt::run(c, [&](int r) { rc |= runTool(r ? t + fmt("_%d", r) : t, args); }); }
        size_t k = 0, at = 0; while ((at = allText.find("Usage", at)) != std::string::npos) { k++; at++; } if (k != 1) fail(ST_WRONG, "says %zu times how it is used", k);
        countCase(); (void)rc;
    };
    return s;
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int top = T ? 4 : 3;
    for (int vb = 0; vb < 2; vb++) {
        for (int a = 0; a <= top; a++) for (int b = 0; b <= top; b++) for (int c = 0; c <= top; c++) v.push_back(serialInfo(fmt("%d.%d.%d", a, b, c), fakeSerial(a, b, c), vb));
        for (auto n : {"tet1", "tet2", "tet5", "fan4", "cube5", "cube6@112", "box12", "reg10", "box40"}) for (unsigned fo = 0; fo < 3; fo++) v.push_back(serialInfo(fmt("%s/f%u", n, fo), toSerial(meshOf(n), fo), vb));
        for (int a = 0; a <= top; a++) for (int b = 0; b <= top; b++) for (int c = 0; c <= top; c++) v.push_back(parallelInfo(fmt("%d.%d.%d", a, b, c), fakeParallel({{a, b, c}}), vb, 0));
        for (int np = 2; np <= 4; np++) for (int x = 0; x < (T ? 24 : 8); x++) { std::vector<std::array<int, 3>> n; for (int p = 0; p < np; p++) n.push_back({(x + p) % 4, (x * 2 + p * 3) % 5, (x + p * p) % 4}); v.push_back(parallelInfo(fmt("np%d.%d", np, x), fakeParallel(n), vb, 1)); }
        for (auto n : {"tet3", "fan4", "cube6@112", "box12"}) for (int np = 1; np <= 4; np++) for (unsigned o = 0; o < 3; o++) {
            RMesh &m = meshOf(n); if (np > m.nc()) continue; std::vector<int> part; for (int c = 0; c < m.nc(); c++) part.push_back((c + o) % np); v.push_back(parallelInfo(fmt("%s.%d.o%u", n, np, o), parseParallel(pmeshBytes(m, part, np, o)), vb, 1)); }
    }
    for (auto &a : std::vector<W>{{}, {"a", "b"}, {"a", "verbose", "c"}, {"a", "verbos"}, {"a", "VERBOSE"}, {"a", "b", "c", "d"}}) { v.push_back(usage("SerialMeshInfo", a, 1)); for (int np = 1; np <= 3; np++) v.push_back(usage("ParallelMeshInfo", a, np)); }
    return v;
}
}
static Check chk{"C26", "information tools",
    "SerialMeshInfo and ParallelMeshInfo, short and verbose, on files in which every entry has a value of its own (all counts of cells, faces and nodes up to 3) and on the meshes of the family, with 1-4 partitions and the schedules of the ranks, compared word by word with what the file says; wrong arguments", "exploration", make,
    [](const Totals &t, std::string &x) { x += fmt("\"words_compared\": %lu, ", t.user[UC_A]); }, {"coordinates are compared to the printed precision"}, 100, 780};
static Reg reg(&chk);
