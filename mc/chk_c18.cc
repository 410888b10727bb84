// C18: the partitioners assign every cell to exactly one valid partition.
#include "meshfiles.hh"
#include <algorithm>
#include <cmath>
using namespace rt;
using namespace meshfiles;
namespace {
struct Tmp { std::string n; Tmp(const char *s) : n(fmt("c18_%d%s", scratchPid(), s)) {} ~Tmp() { unlink(n.c_str()); } };
int runTool(const char *tool, std::vector<std::string> a)
{
    std::vector<char *> v; a.insert(a.begin(), tool); for (auto &s : a) v.push_back(&s[0]); v.push_back(nullptr);
    return ((int (*)(int, char **))toolSym(tool, "_Z9tool_mainiPPc"))(a.size(), v.data());
}
typedef std::shared_ptr<McSerial> PS;
double centre(const McSerial &s, uint64_t c, int d) { double x = 0; for (int k = 0; k < 4; k++) x += s.nodes[3 * s.cells[9 * c + 4 + k] + d]; return x / 4; }
// group[i] holds cells; sizes are an equal split of the total, and no cell of a group lies before one of an earlier group
void ordered(const McSerial &s, const std::vector<std::vector<uint64_t>> &g, int d, const char *what)
{
    uint64_t n = 0; for (auto &x : g) n += x.size(); uint64_t k = g.size(), big = 0;
    for (size_t i = 0; i < k; i++) { if (g[i].size() != n / k && g[i].size() != n / k + 1) fail(ST_WRONG, "%s %zu has %zu of %lu cells, %lu are asked for", what, i, g[i].size(), n, k); big += g[i].size() == n / k + 1; }
    if (n % k != big) fail(ST_WRONG, "%s: sizes", what);
    double lo = 0, hi = 0; for (auto &x : s.nodes) { lo = std::min(lo, x); hi = std::max(hi, x); }
    double last = -1e300; for (size_t i = 0; i < k; i++) { double top = last; for (uint64_t c : g[i]) { double x = centre(s, c, d); if (x < last - 1e-12 * (hi - lo)) fail(ST_WRONG, "%s %zu has cell %lu at %g, one before it has a cell at %g", what, i, c, x, last); top = std::max(top, x); } last = top; }
}
void columns(const McSerial &s, const std::vector<uint64_t> &pv, int nx, int ny)
{
    std::vector<std::vector<uint64_t>> col(nx); std::vector<std::vector<std::vector<uint64_t>>> cell(nx, std::vector<std::vector<uint64_t>>(ny));
    for (uint64_t c = 0; c < s.nc; c++) { col[pv[c] / ny].push_back(c); cell[pv[c] / ny][pv[c] % ny].push_back(c); }
    ordered(s, col, 0, "column"); for (int i = 0; i < nx; i++) ordered(s, cell[i], 1, "part of a column");
}
Scenario one(const std::string &name, PS s, int nx, int ny, bool old)           // ny == 0: metis
{
    Scenario sc; sc.name = fmt("%s/%s/%d%s%s", ny ? "columns" : "metis", name.c_str(), nx, ny ? fmt("x%d", ny).c_str() : "", old ? "/old" : ""); sc.maxDev = 0; sc.maxExec = 1; sc.cpuLimit = 60;
    sc.body = [=] {
        countCase(nx * (ny ? ny : 1) > 1); Tmp in(".in"), out(".out"); B file = serialBytes(*s); writeDisk(in.n, file); if (old) writeDisk(out.n, std::string(300000, 'x'));
        int rc = ny ? runTool("PartitionColumns", {std::to_string(nx), std::to_string(ny), in.n, out.n}) : runTool("PartitionMetis", {std::to_string(nx), in.n, out.n});
        if (rc) fail(ST_EXIT, "exit status %d", rc); if (readDisk(in.n) != file) fail(ST_WRONG, "the input file was changed");
        int np = nx * (ny ? ny : 1); McParallel m = parseParallel(readDisk(out.n)); if (m.version != 2) fail(ST_WRONG, "version %lu", m.version); if (m.np != (uint64_t)np) fail(ST_WRONG, "%lu partitions, %d asked for", m.np, np);
        auto pv = assignment(*s, m); judge(*s, pv, np, m); if (ny) columns(*s, pv, nx, ny);
        uint64_t big = 0, cut = 0, inner = 0; for (auto &p : m.parts) big = std::max(big, p.nc); for (uint64_t f = 0; f < s->nf; f++) if (s->faces[5 * f + 1] != NONE) { inner++; cut += pv[s->faces[5 * f]] != pv[s->faces[5 * f + 1]]; }
        if (!ny && s->nc >= 8ull * np && big > 2 * ((s->nc + np - 1) / np)) fail(ST_WRONG, "a partition of %lu cells of %lu, %d partitions", big, s->nc, np);
        sh->userCount[UC_A] += s->nc; sh->userCount[UC_B] += cut;
    };
    return sc;
}
Scenario bad(const std::string &tool, std::vector<std::string> args, bool refuse)       // "IN", "OUT" stand for the files
{
    Scenario sc; sc.name = "refuse/" + tool; for (auto &a : args) sc.name += "/" + (a.empty() ? std::string("''") : a); sc.maxDev = 0; sc.maxExec = 1; sc.expect = refuse ? Scenario::REFUSES : Scenario::EITHER; sc.cpuLimit = 60;
    sc.body = [=] {
        Tmp in(".in"), out(".out"); B file = serialBytes(toSerial(meshOf("cube6"))); writeDisk(in.n, file); auto a = args; for (auto &x : a) { if (x == "IN") x = in.n; if (x == "OUT") x = out.n; }
        countCase(); int rc = runTool(tool.c_str(), a);
        if (!refuse && readDisk(out.n).size()) { sh->note[0] = 0; fail(ST_WRONG, "a file was written"); }
        if (refuse && rc) fail(ST_EXIT, "exit status %d", rc);
    };
    return sc;
}
PS share(const RMesh &m, unsigned fo) { return std::make_shared<McSerial>(toSerial(m, fo)); }
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; unsigned h = 0;
    for (auto n : {"tet1", "tet2", "tet3", "tet4", "tet5", "fan4", "cube5", "cube6", "box10", "box12", "box20", "box40", "box48", "reg5", "reg6", "reg10", "reg12", "shape0", "shape3"}) {
        RMesh m = meshOf(n); for (int c = 0; c < m.nc(); c++) m.mat[c] = c * 7 + 1; int nc = m.nc();
        for (unsigned fo = 0; fo < 4; fo++) for (unsigned p = 0; p < (T ? 16 : 4); p++) {
            m.faces(p * 5 % 16); PS s = share(m, fo);
            int lim = std::min(nc + 3, T ? 60 : 26);
            for (int nx = 1; nx <= lim; nx++) for (int ny = 1; ny <= lim && nx * ny <= (T ? 64 : 40); ny++) { h++; if (!T && nc > 12 && (h + h / 16) % 4) continue; v.push_back(one(fmt("%s/p%u/f%u", n, p, fo), s, nx, ny, h % 8 == 3)); }
            for (int np = 1; np <= (T ? nc : std::min(nc, 12)); np++) v.push_back(one(fmt("%s/p%u/f%u", n, p, fo), s, np, 0, np % 4 == 3));
        }
    }
    // larger meshes
    for (auto n : {"grid4x3x3", "hexa4x4x4", "grid1x1x60", "hexa30x2x1", "hexa6x6x6", "grid9x8x7"}) {
        if (!T && n == std::string("grid9x8x7")) continue; RMesh m = meshOf(n); for (int c = 0; c < m.nc(); c++) m.mat[c] = c * 7 + 1; PS s = share(m, h++ % 4);
        for (int nx : {1, 2, 3, 7, 8, 16, 33, 50, 100}) for (int ny : {1, 2, 3, 7, 8, 16, 33, 50, 100}) if (nx * ny <= 100) v.push_back(one(n, s, nx, ny, h++ % 8 == 3));
        for (int np : {1, 2, 3, 5, 8, 9, 16, 17, 32, 64, 100}) v.push_back(one(n, s, np, 0, np % 4 == 3));
    }
    { PS s = share(meshOf("hexa22x22x23"), 1); for (int i = 1; i < 4; i++) { v.push_back(one("hexa22x22x23", s, i, 5 - i, false)); v.push_back(one("hexa22x22x23", s, i * 2, 0, false)); } }
    // more than a hundred partitions
    { PS s = share(meshOf("hexa6x6x6"), 2); for (auto &x : std::vector<std::pair<int, int>>{{1, 101}, {101, 1}, {10, 11}, {11, 10}, {17, 16}, {16, 17}, {257, 2}, {1, 300}, {300, 5}, {40, 40}}) v.push_back(one("hexa6x6x6", s, x.first, x.second, false)); for (int np : {101, 128, 256, 257, 300, 600}) v.push_back(one("hexa6x6x6", s, np, 0, false)); }
    // every numbering of the cells of a small mesh; coordinates that tie, coincide or are negative
    { int a[4] = {0, 1, 2, 3}; int i = 0; do { RMesh m = meshOf("fan4"); auto c = m.cell; auto mt = m.mat; for (int k = 0; k < 4; k++) { m.cell[a[k]] = c[k]; m.mat[a[k]] = mt[k]; } m.faces(i % 16); PS s = share(m, i % 4); for (int nx = 1; nx <= 5; nx++) for (int ny = 1; ny <= 5; ny++) v.push_back(one(fmt("fan4cells%d", i), s, nx, ny, false)); for (int np = 1; np <= 4; np++) v.push_back(one(fmt("fan4cells%d", i), s, np, 0, false)); i++; } while (std::next_permutation(a, a + 4)); }
    for (int rot = 0; rot < 6; rot++) for (int sg = 0; sg < 8; sg++) for (auto n : {"cube6", "box12", "reg10", "fan4"}) {
        RMesh m = meshOf(n); static const int ax[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; for (auto &x : m.node) { V3 y = x; for (int d = 0; d < 3; d++) x[d] = (sg >> d & 1 ? -1 : 1) * y[ax[rot][d]] * (rot % 2 ? 1e-3 : 10) + (sg == 5 ? 100 : 0); }
        m.faces(rot); PS s = share(m, sg % 4); for (int nx = 1; nx <= 4; nx++) for (int ny = 1; ny <= 4; ny++) v.push_back(one(fmt("%s/turned%d%d", n, rot, sg), s, nx, ny, false));
    }
    // refused requests; a wrong number of arguments writes nothing
    for (auto x : {"0", "-1", "-3", "-2147483648", "x", ""}) { v.push_back(bad("PartitionColumns", {x, "1", "IN", "OUT"}, true)); v.push_back(bad("PartitionColumns", {"1", x, "IN", "OUT"}, true)); v.push_back(bad("PartitionColumns", {x, x, "IN", "OUT"}, true)); v.push_back(bad("PartitionColumns", {x, "-2", "IN", "OUT"}, true)); v.push_back(bad("PartitionMetis", {x, "IN", "OUT"}, true)); }
    v.push_back(bad("PartitionColumns", {"1", "2", "nowhere", "OUT"}, true)); v.push_back(bad("PartitionMetis", {"2", "nowhere", "OUT"}, true));
    v.push_back(bad("PartitionColumns", {"1", "2", "IN", "no/such/folder/file"}, true)); v.push_back(bad("PartitionMetis", {"2", "IN", "no/such/folder/file"}, true));
    for (auto &a : std::vector<std::vector<std::string>>{{}, {"2"}, {"2", "2"}, {"2", "IN", "OUT"}, {"2", "2", "IN"}, {"2", "2", "IN", "OUT", "x"}, {"2", "2", "2", "IN", "OUT"}}) v.push_back(bad("PartitionColumns", a, false));
    for (auto &a : std::vector<std::vector<std::string>>{{}, {"2"}, {"2", "IN"}, {"2", "2", "IN", "OUT"}, {"2", "IN", "OUT", "x"}}) v.push_back(bad("PartitionMetis", a, false));
    return v;
}
}
static Check chk{"C18", "mesh partitioners",
    "PartitionColumns and PartitionMetis run on meshes of the family (1-48 cells, some up to 1300, thorough 2500; several listings, all numberings of the cells of one mesh, turned and mirrored meshes) for every number of partitions up to more than the cells (columns: every nx x ny up to 40, thorough 64); the file is parsed independently and compared with the serial mesh, the split with the documented one; every request outside the range", "exploration", make, nullptr,
    {"METIS answers as installed; it may leave partitions empty"}, 100, 780};
static Reg reg(&chk);
