// C17: refinement splits each cell into eight and keeps the mesh valid.
#include "comp.hh"
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <unistd.h>
using namespace rt;
namespace {
struct Tmp { std::string n; Tmp(const char *s) : n(fmt("c17_%d%s", scratchPid(), s)) {} ~Tmp() { unlink(n.c_str()); } };
int runTool(const char *tool, std::vector<std::string> a)
{
    std::vector<char *> v; a.insert(a.begin(), tool); for (auto &s : a) v.push_back(&s[0]); v.push_back(nullptr);
    return ((int (*)(int, char **))toolSym(tool, "_Z9tool_mainiPPc"))(a.size(), v.data());
}
const uint64_t NONE = ~0ull;
McSerial parse(const std::vector<char> &b)
{
    McSerial s; uint64_t h[4]; char nm[32]; memset(nm, 0, 32); strcpy(nm, "Tycho 2 Serial Mesh");
    if (b.size() < 64 || memcmp(b.data(), nm, 32)) fail(ST_WRONG, "the refined mesh file has no serial mesh header");
    memcpy(h, b.data() + 32, 32); s.version = h[0]; s.nc = h[1]; s.nf = h[2]; s.nn = h[3];
    if (s.version != 2 || s.nc > 1u << 24 || s.nf > 1u << 26 || s.nn > 1u << 24 || b.size() != 64 + 72 * s.nc + 40 * s.nf + 24 * s.nn) fail(ST_WRONG, "the refined mesh file has %zu bytes for %lu cells, %lu faces, %lu nodes", b.size(), s.nc, s.nf, s.nn);
    const uint64_t *p = (const uint64_t *)(b.data() + 64); s.cells.assign(p, p + 9 * s.nc); p += 9 * s.nc; s.faces.assign(p, p + 5 * s.nf); p += 5 * s.nf; s.nodes.assign((const double *)p, (const double *)p + 3 * s.nn);
    return s;
}
V3 at(const McSerial &s, uint64_t n) { return {s.nodes[3 * n], s.nodes[3 * n + 1], s.nodes[3 * n + 2]}; }
V3 sub(const V3 &a, const V3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
V3 cross(const V3 &a, const V3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
double dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
double det(const V3 &a, const V3 &b, const V3 &c, const V3 &d) { return dot(cross(sub(b, a), sub(c, a)), sub(d, a)); }
// the relation between a mesh and its refinement
void checkRefined(const McSerial &o, const McSerial &r, int level)
{
    auto bad = [&](const char *f, auto... x) { fail(ST_WRONG, "%s", (fmt("refinement %d: ", level) + fmt(f, x...)).c_str()); };
    if (r.nc != 8 * o.nc) bad("%lu cells from %lu", r.nc, o.nc);
    // what nodes there must be: the nodes of the cells, and the middle of every edge
    typedef std::pair<uint64_t, uint64_t> E; std::set<E> edges; std::set<uint64_t> used;
    for (uint64_t c = 0; c < o.nc; c++) for (int i = 0; i < 4; i++) { used.insert(o.cells[9 * c + 4 + i]); for (int j = i + 1; j < 4; j++) { uint64_t a = o.cells[9 * c + 4 + i], b = o.cells[9 * c + 4 + j]; edges.insert(E(std::min(a, b), std::max(a, b))); } }
    if (r.nn != used.size() + edges.size()) bad("%lu nodes, expected %zu old nodes and %zu edges", r.nn, used.size(), edges.size());
    // name every node of the refined mesh: (a, a) old node a, (a, b) middle of the edge a b
    std::map<V3, E> byPos; double big = 0; for (uint64_t a : used) { byPos[at(o, a)] = E(a, a); V3 x = at(o, a); for (double y : x) big = std::max(big, std::fabs(y)); }
    auto mid = [&](const E &e) { V3 x = at(o, e.first), y = at(o, e.second); return V3{(x[0] + y[0]) / 2, (x[1] + y[1]) / 2, (x[2] + y[2]) / 2}; };
    for (auto &e : edges) byPos[mid(e)] = e;
    std::vector<E> name(r.nn); std::set<E> seen;
    for (uint64_t n = 0; n < r.nn; n++) {
        V3 x = at(r, n); auto it = byPos.find(x); E e(NONE, NONE);
        if (it != byPos.end()) e = it->second;
        else { double best = 1e-13 * big; for (auto &y : byPos) { V3 d = sub(y.first, x); double l = std::sqrt(dot(d, d)); if (l <= best && y.second.first != y.second.second) { best = l; e = y.second; } } }
        if (e.first == NONE) bad("node %lu (%.17g, %.17g, %.17g) is neither an old node nor the middle of an edge", n, x[0], x[1], x[2]);
        if (!seen.insert(e).second) bad("node %lu occurs twice", n);
        name[n] = e;
    }
    // cells
    std::vector<double> vol(o.nc, 0); std::vector<int> kids(o.nc, 0), parent(r.nc); std::map<uint64_t, std::vector<uint64_t>> touching; for (uint64_t c = 0; c < o.nc; c++) for (int i = 0; i < 4; i++) touching[o.cells[9 * c + 4 + i]].push_back(c);
    std::map<std::array<uint64_t, 3>, std::vector<std::pair<uint64_t, int>>> share;     // faces by their nodes
    for (uint64_t c = 0; c < r.nc; c++) {
        const uint64_t *q = &r.cells[9 * c]; V3 x[4];
        for (int i = 0; i < 4; i++) { if (q[4 + i] >= r.nn) bad("cell %lu has node %lu of %lu", c, q[4 + i], r.nn); if (q[i] >= r.nf) bad("cell %lu has face %lu of %lu", c, q[i], r.nf); x[i] = at(r, q[4 + i]); for (int j = 0; j < i; j++) if (q[4 + i] == q[4 + j]) bad("cell %lu has a node twice", c); }
        // the parent: the only old cell that has all these nodes on its edges
        std::vector<uint64_t> cand; E e0 = name[q[4]]; for (uint64_t p : touching[e0.first]) { bool all = true; for (int i = 0; i < 4 && all; i++) { E e = name[q[4 + i]]; bool a = false, b = false; for (int j = 0; j < 4; j++) { if (o.cells[9 * p + 4 + j] == e.first) a = true; if (o.cells[9 * p + 4 + j] == e.second) b = true; } all = a && b; } if (all) cand.push_back(p); }
        if (cand.size() != 1) bad("cell %lu lies in %zu old cells", c, cand.size());
        uint64_t p = parent[c] = cand[0]; kids[p]++;
        double v = std::fabs(det(x[0], x[1], x[2], x[3])), vp = std::fabs(det(at(o, o.cells[9 * p + 4]), at(o, o.cells[9 * p + 5]), at(o, o.cells[9 * p + 6]), at(o, o.cells[9 * p + 7]))); vol[p] += v;
        if (!(v > 1e-3 * vp)) bad("cell %lu has no volume", c);
        if (q[8] != o.cells[9 * p + 8]) bad("cell %lu has material %lu, its parent %lu", c, q[8], o.cells[9 * p + 8]);
        for (int i = 0; i < 4; i++) { std::array<uint64_t, 3> f; int j = 0; for (int k = 0; k < 4; k++) if (k != i) f[j++] = q[4 + k]; std::sort(f.begin(), f.end()); share[f].push_back({c, i}); }
    }
    for (uint64_t p = 0; p < o.nc; p++) {
        double vp = std::fabs(det(at(o, o.cells[9 * p + 4]), at(o, o.cells[9 * p + 5]), at(o, o.cells[9 * p + 6]), at(o, o.cells[9 * p + 7])));
        if (kids[p] != 8) bad("old cell %lu has %d cells", p, kids[p]);
        if (!(std::fabs(vol[p] - vp) <= 1e-9 * vp)) bad("old cell %lu: volume %.12g, its cells %.12g", p, vp / 6, vol[p] / 6);
    }
    // the octahedron in the middle of a cell is split along its shortest diagonal
    std::vector<std::vector<uint64_t>> inner(o.nc);
    for (uint64_t c = 0; c < r.nc; c++) { bool corner = false; for (int i = 0; i < 4; i++) { E e = name[r.cells[9 * c + 4 + i]]; if (e.first == e.second) corner = true; } if (!corner) inner[parent[c]].push_back(c); }
    for (uint64_t p = 0; p < o.nc; p++) {
        if (inner[p].size() != 4) bad("old cell %lu has %zu cells that touch none of its corners", p, inner[p].size());
        std::map<uint64_t, int> times; for (uint64_t c : inner[p]) for (int i = 0; i < 4; i++) times[r.cells[9 * c + 4 + i]]++;
        std::vector<uint64_t> d; for (auto &t : times) if (t.second == 4) d.push_back(t.first);
        if (d.size() != 2) bad("the cells in the middle of old cell %lu share %zu nodes", p, d.size());
        V3 q[4]; for (int i = 0; i < 4; i++) q[i] = at(o, o.cells[9 * p + 4 + i]);
        auto len = [](const V3 &x) { return std::sqrt(dot(x, x)); }; auto half = [&](int a, int b, int c, int e) { V3 u; for (int k = 0; k < 3; k++) u[k] = ((q[a][k] - q[c][k]) + (q[b][k] - q[e][k])) / 2; return len(u); };
        double best = std::min(half(0, 1, 2, 3), std::min(half(0, 2, 1, 3), half(0, 3, 1, 2))), mine = len(sub(at(r, d[0]), at(r, d[1])));
        if (!(mine <= best * (1 + 1e-9) + 1e-12 * big)) bad("the middle of old cell %lu is split along a diagonal of length %.12g, the shortest is %.12g", p, mine, best);
    }
    // faces: every set of nodes that is a side of a cell is one face of the file, which names exactly the cells that have it
    if (r.nf != share.size()) bad("%lu faces, the cells have %zu different ones", r.nf, share.size());
    std::map<std::array<uint64_t, 3>, int> cover;     // old boundary faces
    std::map<std::array<uint64_t, 3>, int> oldFace; for (uint64_t c = 0; c < o.nc; c++) for (int i = 0; i < 4; i++) { std::array<uint64_t, 3> f; int j = 0; for (int k = 0; k < 4; k++) if (k != i) f[j++] = o.cells[9 * c + 4 + k]; std::sort(f.begin(), f.end()); oldFace[f]++; }
    std::vector<char> named(r.nf);
    for (auto &f : share) {
        if (f.second.size() > 2) bad("%zu cells share a face", f.second.size());
        uint64_t id = NONE; for (auto &u : f.second) {
            const uint64_t *q = &r.cells[9 * u.first]; uint64_t mine = NONE;
            for (int i = 0; i < 4; i++) { std::array<uint64_t, 3> g{r.faces[5 * q[i] + 2], r.faces[5 * q[i] + 3], r.faces[5 * q[i] + 4]}; std::sort(g.begin(), g.end()); if (g == f.first) mine = q[i]; }
            if (mine == NONE) bad("cell %lu does not list the face of its nodes %lu %lu %lu", u.first, f.first[0], f.first[1], f.first[2]);
            if (id != NONE && id != mine) bad("cells %lu and %lu list different faces for the same nodes", f.second[0].first, u.first);
            id = mine;
        }
        if (named[id]) bad("face %lu is used for two sets of nodes", id);
        named[id] = 1;
        std::set<uint64_t> want, have; for (auto &u : f.second) want.insert(u.first); for (int i = 0; i < 2; i++) have.insert(r.faces[5 * id + i]); if (want.size() == 1) want.insert(NONE);
        if (want != have) bad("face %lu names cells %ld and %ld", id, (long)r.faces[5 * id], (long)r.faces[5 * id + 1]);
        if (f.second.size() == 1 && r.faces[5 * id + 1] != NONE) bad("face %lu names its only cell second", id);
        V3 a = at(r, f.first[0]), b = at(r, f.first[1]), c = at(r, f.first[2]);
        if (f.second.size() == 2) {
            double s[2]; for (int i = 0; i < 2; i++) { auto &u = f.second[i]; s[i] = det(a, b, c, at(r, r.cells[9 * u.first + 4 + u.second])); }
            if (!((s[0] < 0 && s[1] > 0) || (s[0] > 0 && s[1] < 0))) bad("cells %lu and %lu lie on the same side of their common face", f.second[0].first, f.second[1].first);
        } else {
            // lies on an old boundary face
            std::set<uint64_t> corners; for (int i = 0; i < 3; i++) { corners.insert(name[f.first[i]].first); corners.insert(name[f.first[i]].second); }
            if (corners.size() != 3) bad("boundary face %lu does not lie on a face of an old cell", id);
            std::array<uint64_t, 3> g; std::copy(corners.begin(), corners.end(), g.begin()); auto it = oldFace.find(g);
            if (it == oldFace.end() || it->second != 1) bad("boundary face %lu does not lie on the boundary of the old mesh", id);
            cover[g]++;
        }
    }
    for (auto &f : oldFace) if (f.second == 1 && cover[f.first] != 4) bad("a boundary face of the old mesh is covered by %d faces", cover[f.first]);
}
std::vector<char> bytes(const McSerial &s)
{
    std::vector<char> b(64); strcpy(b.data(), "Tycho 2 Serial Mesh"); uint64_t h[4] = {s.version, s.nc, s.nf, s.nn}; memcpy(b.data() + 32, h, 32);
    auto put = [&](const void *p, size_t n) { b.insert(b.end(), (const char *)p, (const char *)p + n); }; put(s.cells.data(), 8 * s.cells.size()); put(s.faces.data(), 8 * s.faces.size()); put(s.nodes.data(), 8 * s.nodes.size()); return b;
}
Scenario refine(const std::string &name, std::shared_ptr<McSerial> first, int depth, bool preexisting = false)
{
    Scenario s; s.name = fmt("%s/depth%d%s", name.c_str(), depth, preexisting ? "/old" : ""); s.maxDev = 0; s.maxExec = 1; s.cpuLimit = 60;
    s.body = [=] {
        Tmp in(".in"), out(".out"); McSerial cur = *first; writeDisk(in.n, bytes(cur)); if (preexisting) writeDisk(out.n, std::string(200000, 'x'));
        for (int d = 1; d <= depth; d++) {
            std::vector<char> before = readDisk(in.n); int rc = runTool("RefineSerialMesh", {in.n, out.n}); if (rc) fail(ST_EXIT, "exit status %d", rc);
            if (readDisk(in.n) != before) fail(ST_WRONG, "the input file was changed");
            McSerial r = parse(readDisk(out.n)); checkRefined(cur, r, d); countCase(); sh->userCount[UC_A] += r.nc; cur = r; std::string t = in.n; rename(out.n.c_str(), t.c_str());
        }
    };
    return s;
}
std::shared_ptr<McSerial> share(const RMesh &m, unsigned fo) { return std::make_shared<McSerial>(toSerial(m, fo)); }
// the refined mesh in use: partitioned, swept, compared with the reference on the refined mesh
RMesh fromSerial(const McSerial &s)
{
    RMesh m; m.name = "refined"; for (uint64_t n = 0; n < s.nn; n++) m.node.push_back(at(s, n)); for (uint64_t c = 0; c < s.nc; c++) { m.cell.push_back({(int)s.cells[9 * c + 4], (int)s.cells[9 * c + 5], (int)s.cells[9 * c + 6], (int)s.cells[9 * c + 7]}); m.mat.push_back(s.cells[9 * c + 8]); } m.faces(); return m;
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough;
    for (auto n : {"tet1", "tet2", "tet3", "tet4", "tet5", "fan4", "cube5", "cube6", "box10", "box12", "box20", "reg5", "reg6", "reg10", "reg12", "shape0", "shape1", "shape2", "shape3", "shape4", "shape5", "shape6", "shape7", "shape8"})
        for (unsigned p = 0; p < 16; p++) for (unsigned fo = 0; fo < 4; fo++) { if (!T && p % 4 != fo && p > 3) continue; RMesh m = meshOf(n); m.faces(p); v.push_back(refine(fmt("%s/p%u/f%u", n, p, fo), share(m, fo), p == 0 && fo < 2 ? 2 : 1, fo == 1)); }
    // all numberings of the vertices of two neighbouring cells
    { int a[4] = {0, 1, 2, 3}; int i = 0; do { int b[4] = {0, 1, 2, 3}; do { RMesh m = meshOf("tet2"); auto c = m.cell; for (int k = 0; k < 4; k++) { m.cell[0][k] = c[0][a[k]]; m.cell[1][k] = c[1][b[k]]; } m.faces(i % 16); v.push_back(refine(fmt("tet2perm%d", i), share(m, i % 4), T ? 3 : 1)); i++; } while (std::next_permutation(b, b + 4)); } while (std::next_permutation(a, a + 4)); }
    // all numberings of the nodes of a mesh
    { int a[5] = {0, 1, 2, 3, 4}; int i = 0; do { RMesh m = meshOf("tet2"); auto x = m.node; for (int k = 0; k < 5; k++) m.node[a[k]] = x[k]; for (auto &c : m.cell) for (int &n : c) n = a[n]; m.faces(i % 16); v.push_back(refine(fmt("tet2nodes%d", i), share(m, i % 4), 1)); i++; } while (std::next_permutation(a, a + 5)); }
    // repeated refinement, up to thousands of cells (1000 and more change how progress is reported)
    v.push_back(refine("deep/hexa11x11x12", share(meshOf("hexa11x11x12"), 2), 1));
    for (auto n : {"tet1", "tet2", "fan4", "cube5", "reg6", "box12"}) v.push_back(refine(fmt("deep/%s", n), share(meshOf(n), 1), T ? (meshOf(n).nc() > 4 ? 5 : 6) : 4));
    // sizes, positions and stretched shapes
    for (double sc : {1e-6, 1e-3, 1.0, 1e3, 1e6}) for (double off : {0.0, 1.0, 1e3}) for (int st = 0; st < 10; st++) for (auto n : {"tet3", "cube6", "reg5"}) { if (st > 3 && off > 0) continue; RMesh m = meshOf(n); for (auto &x : m.node) for (int i = 0; i < 3; i++) x[i] = sc * ((st && (st - 1) % 3 == i ? (st < 4 ? 1e-3 : st < 7 ? 1e-6 : 1e-9) : 1) * x[i] + off * 100); v.push_back(refine(fmt("scale%g/off%g/st%d/%s", sc, off, st, n), share(m, 2), 2)); }
    // materials
    for (int k = 0; k < 4; k++) { RMesh m = meshOf("cube6"); for (int c = 0; c < 6; c++) m.mat[c] = k == 0 ? c : k == 1 ? 1000000 + c : k == 2 ? 0 : (c * c) % 7; v.push_back(refine(fmt("materials%d", k), share(m, 0), 2)); }
    // use of the result
    for (auto n : {"tet2", "fan4", "cube5", "cube6"}) for (int np = 1; np <= 4; np++) {
        Scenario s; s.name = fmt("use/%s/np%d", n, np); s.maxDev = 0; s.maxExec = 1; s.cpuLimit = 60; std::string deck = deckFile({{"snOrder", "2"}, {"iterMax", "2"}, {"errMax", "0.0"}, {"SweepType", np % 2 ? "OriginalTycho2" : "TraverseGraph"}}); std::string nm = n;
        s.body = [=] {
            Tmp in(".in"), out(".out"), pm(".pm"); McSerial first = toSerial(meshOf(nm)); writeDisk(in.n, bytes(first)); runTool("RefineSerialMesh", {in.n, out.n}); McSerial r = parse(readDisk(out.n));
            RMesh m = fromSerial(r); RProblem P(m, 2, 0.05, 0.02, 0.11, 0.03); if (!P.acyclic() || P.minDot() < 1e-7) return;
            std::vector<int> part(m.nc()); for (int c = 0; c < m.nc(); c++) part[c] = c * np / m.nc(); Config c; c.nRanks = np; c.race = false;
            // the mesh file as the refinement wrote it, partitioned by the code under test
            runTool("PartitionColumns", {std::to_string(np), "1", out.n, pm.n});
            runMain(c, readDisk(pm.n), deck); std::vector<double> ref = P.iterate(2); RunOut o = readPsi("out.psi"); if (o.fileOk && o.psi.size() == 1) { if (!(maxRel(o.psi[0], ref) < 1e-10)) fail(ST_WRONG, "sweep of the refined mesh differs by %g", maxRel(o.psi[0], ref)); } else fail(ST_WRONG, "sweep of the refined mesh: %s", o.why.c_str());
            countCase();
        };
        v.push_back(s);
    }
    return v;
}
}
static Check chk{"C17", "mesh refinement",
    "RefineSerialMesh run on meshes of the family under all listings (16 face numberings x 4 listings per cell), all 24x24 vertex numberings of two neighbouring cells, all numberings of the nodes of a mesh, 24 numberings of nine cell shapes, sizes from 1e-6 to 1e6, shifts and stretched meshes, repeated up to four times (thorough six); the refined file is parsed independently and compared with its parent: nodes, children, volumes, materials, conformity, boundary cover; some refined meshes are partitioned and swept", "exploration", make, nullptr,
    {"cells that are not degenerate; coordinates of one mesh within 9 orders of magnitude"}, 100, 780};
static Reg reg(&chk);
