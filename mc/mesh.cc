#include "mesh.hh"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <algorithm>
#include <numeric>
using std::vector;

static V3 sub(V3 a, V3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static V3 cross(V3 a, V3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

void RMesh::faces() { faces(0); }
void RMesh::faces(unsigned perm)
{
    face.clear(); cf.assign(nc(), {0, 0, 0, 0});
    std::map<std::array<int, 3>, int> idx;
    vector<int> order(nc()); std::iota(order.begin(), order.end(), 0);
    if (perm & 1) std::reverse(order.begin(), order.end());
    for (int c : order) for (int kk = 0; kk < 4; kk++) {
        int k = (perm & 2) ? 3 - kk : kk;
        std::array<int, 3> s; int j = 0; int o[3];
        for (int v = 0; v < 4; v++) if (v != k) { o[j] = cell[c][v]; s[j++] = cell[c][v]; }
        std::sort(s.begin(), s.end());
        auto it = idx.find(s);
        if (it == idx.end()) {
            RFace f; int rot = (perm & 4) ? 1 : 0; for (int i = 0; i < 3; i++) f.n[i] = o[(i + rot) % 3];
            if (perm & 8) std::swap(f.n[0], f.n[2]);
            f.c[0] = c; f.c[1] = -1; idx[s] = face.size(); cf[c][k] = face.size(); face.push_back(f);
        } else { face[it->second].c[1] = c; cf[c][k] = it->second; }
    }
}
double RMesh::volume(int c) const
{
    V3 a = sub(node[cell[c][1]], node[cell[c][0]]), b = sub(node[cell[c][2]], node[cell[c][0]]), d = sub(node[cell[c][3]], node[cell[c][0]]);
    return std::fabs(dot(cross(a, b), d)) / 6;
}
static void facePts(const RMesh &m, int c, int k, V3 p[3]) { int j = 0; for (int v = 0; v < 4; v++) if (v != k) p[j++] = m.node[m.cell[c][v]]; }
double RMesh::area(int c, int k) const { V3 p[3]; facePts(*this, c, k, p); V3 x = cross(sub(p[1], p[0]), sub(p[2], p[0])); return 0.5 * std::sqrt(dot(x, x)); }
V3 RMesh::normal(int c, int k) const
{
    V3 p[3]; facePts(*this, c, k, p); V3 x = cross(sub(p[1], p[0]), sub(p[2], p[0])); double l = std::sqrt(dot(x, x));
    double s = dot(x, sub(node[cell[c][k]], p[0])) > 0 ? -1 / l : 1 / l; return {x[0] * s, x[1] * s, x[2] * s};
}

// deterministic jitter so that no face is parallel to a quadrature direction
static double jit(int i, int k) { unsigned h = (unsigned)(i * 3 + k) * 2654435761u + 12345u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return ((h & 0xffff) / 65535.0 - 0.5); }
static void box(RMesh &m, int nx, int ny, int nz, bool six, double jitter)
{
    auto id = [&](int i, int j, int k) { return (k * (ny + 1) + j) * (nx + 1) + i; };
    for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) {
        int n = m.node.size();
        m.node.push_back({37 + 52.0 * i / nx + jitter * jit(n, 0), 41 + 50.0 * j / ny + jitter * jit(n, 1), 44 + 51.0 * k / nz + jitter * jit(n, 2)});      // one corner lies inside of the hat
    }
    static const int kuhn[6][4] = {{0, 1, 3, 7}, {0, 1, 5, 7}, {0, 2, 3, 7}, {0, 2, 6, 7}, {0, 4, 5, 7}, {0, 4, 6, 7}};
    static const int five[2][5][4] = {{{0, 1, 2, 4}, {1, 3, 2, 7}, {1, 5, 4, 7}, {2, 4, 6, 7}, {1, 2, 4, 7}}, {{0, 1, 3, 5}, {0, 3, 2, 6}, {0, 5, 4, 6}, {3, 5, 6, 7}, {0, 3, 5, 6}}};
    for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
        int v[8]; for (int b = 0; b < 8; b++) v[b] = id(i + (b & 1), j + ((b >> 1) & 1), k + ((b >> 2) & 1));
        if (six) for (auto &t : kuhn) m.cell.push_back({v[t[0]], v[t[1]], v[t[2]], v[t[3]]});
        else for (auto &t : five[(i + j + k) & 1]) m.cell.push_back({v[t[0]], v[t[1]], v[t[2]], v[t[3]]});
    }
}
// equal cubes of 6 cells: many faces are parallel to directions
static void even(RMesh &m, int gx, int gy, int gz)
{
    box(m, gx, gy, gz, true, 0); int n = 0;
    for (int k = 0; k <= gz; k++) for (int j = 0; j <= gy; j++) for (int i = 0; i <= gx; i++) m.node[n++] = {37 + 18.0 * i, 41 + 18.0 * j, 44 + 18.0 * k};
}
vector<std::string> meshNames() { return {"tet1", "tet2", "tet3", "tet4", "fan4", "cube5", "cube6", "box10", "box12", "box20"}; }
// "name@112": materials repeated from the pattern; "name+vNpK": moved so that node N lies at special point K of the hat problem; "gridAxBxC" / "hexaAxBxC": 5 or 6 cells per box; "apart": 19 cells in five pieces; "evenAxBxC": 6 cells per box, faces parallel to directions
const vector<V3> &hatPoints() { static const vector<V3> p = {{50, 50, 50}, {80, 50, 50}, {50, 20, 50}, {70, 70, 60}, {40, 30, 30}, {50, 50, 79}, {50, 50, 81}, {75, 75, 75}}; return p; }
RMesh makeMesh(const std::string &name)
{
    size_t at = name.find('@'), pl = name.find('+'), st = name.find('~');
    if (st != std::string::npos) {     // "name~K": stretched, compressed, scaled or moved
        static const double T[][6] = {{1e-3, 1, 1, 0, 0, 0}, {1, 1e-4, 1, 0, 0, 0}, {1, 1, 1e-4, 0, 0, 0}, {1e-5, 1e-5, 1e-5, 0, 0, 0}, {1e5, 1e5, 1e5, 0, 0, 0}, {1, 1, 1, -5000, 3000, 7000}, {1, 1e-3, 1e-3, 0, 0, 0}, {-1, 1, 1, 0, 0, 0}, {1e-3, 1e-3, 1e-3, 0, 0, 0}, {1, 1, 1, -50, -50, -50}};
        RMesh m = makeMesh(name.substr(0, st)); m.name = name; int k = atoi(name.c_str() + st + 1); for (auto &x : m.node) for (int i = 0; i < 3; i++) x[i] = T[k][i] * x[i] + T[k][3 + i];
        m.face.clear(); m.faces(); return m;
    }
    if (at != std::string::npos) { RMesh m = makeMesh(name.substr(0, at)); m.name = name; std::string p = name.substr(at + 1); for (int c = 0; c < m.nc(); c++) m.mat[c] = p[c % p.size()] - '0'; return m; }
    if (pl != std::string::npos) { RMesh m = makeMesh(name.substr(0, pl)); m.name = name; int v = 0, k = 0; sscanf(name.c_str() + pl, "+v%dp%d", &v, &k); V3 o = m.node.at(v), q = hatPoints().at(k); for (auto &x : m.node) for (int i = 0; i < 3; i++) x[i] = x[i] + (q[i] - o[i]); m.node[v] = q; return m; }
    RMesh m; m.name = name; int gx, gy, gz;
    auto chain = [&](int n) {
        m.node = {{30, 28, 33}, {71, 35, 29}, {38, 72, 31}, {45, 44, 69}, {80, 76, 72}, {35, 90, 78}, {90, 60, 110}, {48, 112, 118}};
        m.cell = {{0, 1, 2, 3}, {4, 2, 1, 3}, {2, 5, 4, 3}, {3, 4, 6, 5}, {5, 6, 4, 7}};
        m.cell.resize(n); m.node.resize(3 + n);
    };
    if (name == "tet1") chain(1);
    else if (name == "tet2") chain(2);
    else if (name == "tet3") chain(3);
    else if (name == "tet4") chain(4);
    else if (name == "tet5") chain(5);
    else if (name == "fan4") { // one cell with a neighbour on three faces
        m.node = {{42, 41, 43}, {67, 46, 39}, {48, 70, 44}, {46, 52, 71}, {79, 81, 77}, {12, 61, 64}, {58, 17, 66}};
        m.cell = {{0, 1, 2, 3}, {1, 4, 3, 2}, {5, 0, 2, 3}, {0, 3, 1, 6}};
    }
    else if (name.rfind("shape", 0) == 0) { // 24 separate cells of one shape, one for every numbering of its vertices
        static const double S[9][4][3] = {
            {{0, 0, 0}, {10, 0, 0}, {0, 10, 0}, {0, 0, 10}}, {{1, 1, 1}, {-1, -1, 1}, {-1, 1, -1}, {1, -1, -1}}, {{0, 0, 0}, {9, 2, 1}, {3, 8, -1}, {5, 4, 7}},
            {{0, 0, 0}, {12, 1, 0.3}, {2, 11, 0.5}, {5, 4, 0.7}}, {{0, 0, 0}, {0.3, 0.1, 15}, {0.2, -0.3, 14}, {-0.4, 0.2, 16}}, {{0, 0, 0}, {0.02, 0.003, 0.001}, {0.004, 0.019, 0.002}, {0.007, 0.005, 0.021}},
            {{0, 0, 0}, {3000, 500, 100}, {400, 2500, -300}, {700, 900, 2800}}, {{-4, 1, 2}, {5, -3, 1}, {1, 6, -2}, {0, 1, 8}}, {{0, 0, 0}, {7, 7, 0.5}, {7, -6, 1}, {0.5, 1, -9}}};
        int k = atoi(name.c_str() + 5); int p[4] = {0, 1, 2, 3};
        for (int i = 0; ; i++) { int b = m.node.size(); double sc = k == 6 ? 8192 : k == 5 ? 0.0625 : 64; for (int v = 0; v < 4; v++) m.node.push_back({S[k][p[v]][0] + sc * (i % 4), S[k][p[v]][1] + sc * (i / 4 % 3), S[k][p[v]][2] + sc * (i / 12)}); m.cell.push_back({b, b + 1, b + 2, b + 3}); if (!std::next_permutation(p, p + 4)) break; }
    }
    else if (name == "apart") { // pieces that do not touch: 4 + 1 + 5 + 3 + 6 cells
        static const char *pc[] = {"fan4", "tet1", "cube5", "tet3", "cube6"}; static const double at[5][3] = {{36, 38, 41}, {63, 42, 44}, {49, 61, 37}, {41, 58, 62}, {61, 59, 60}};
        for (int i = 0; i < 5; i++) { RMesh q = makeMesh(pc[i]); V3 lo = q.node[0], hi = lo; for (auto &x : q.node) for (int d = 0; d < 3; d++) { lo[d] = std::min(lo[d], x[d]); hi[d] = std::max(hi[d], x[d]); } double L = std::max(hi[0] - lo[0], std::max(hi[1] - lo[1], hi[2] - lo[2])); int b = m.node.size();
            for (auto &x : q.node) { V3 y; for (int d = 0; d < 3; d++) y[d] = at[i][d] + (x[d] - (lo[d] + hi[d]) / 2) * 12 / L; m.node.push_back(y); } for (auto c : q.cell) { for (auto &n : c) n += b; m.cell.push_back(c); } }
    }
    else if (name == "cube5") box(m, 1, 1, 1, false, 9);
    else if (name == "cube6") box(m, 1, 1, 1, true, 9);
    else if (name == "box10") box(m, 2, 1, 1, false, 7);
    else if (name == "box12") box(m, 2, 1, 1, true, 7);
    else if (name == "box20") box(m, 2, 2, 1, false, 6);
    else if (name == "box40") box(m, 2, 2, 2, false, 5);
    else if (name == "box48") box(m, 2, 2, 2, true, 5);
    else if (name == "reg5") box(m, 1, 1, 1, false, 0);
    else if (name == "reg6") even(m, 1, 1, 1);
    else if (name == "reg12") even(m, 2, 1, 1);
    else if (sscanf(name.c_str(), "even%dx%dx%d", &gx, &gy, &gz) == 3) even(m, gx, gy, gz);
    else if (name == "reg10") box(m, 2, 1, 1, false, 0);
    else if (sscanf(name.c_str(), "grid%dx%dx%d", &gx, &gy, &gz) == 3) box(m, gx, gy, gz, false, 12.0 / std::max(gx, std::max(gy, gz)));
    else if (sscanf(name.c_str(), "hexa%dx%dx%d", &gx, &gy, &gz) == 3) box(m, gx, gy, gz, true, 12.0 / std::max(gx, std::max(gy, gz)));
    else { fprintf(stderr, "no mesh %s\n", name.c_str()); exit(2); }
    m.mat.resize(m.nc()); for (int c = 0; c < m.nc(); c++) m.mat[c] = (c % 3 == 1) ? 2 : 1;
    m.faces();
    return m;
}

static void put64(vector<char> &b, uint64_t v) { const char *p = (const char *)&v; b.insert(b.end(), p, p + 8); }
static void putd(vector<char> &b, double v) { const char *p = (const char *)&v; b.insert(b.end(), p, p + 8); }
static void putName(vector<char> &b, const char *s) { char n[32]; memset(n, 0, 32); strncpy(n, s, 32); b.insert(b.end(), n, n + 32); }
static const uint64_t NONE = UINT64_MAX;

// order in which a cell lists its four faces in the file: any is legal
static int cellFaceAt(unsigned fo, int c, int k) { return (fo & 1) ? (k + c) % 4 : k; }
McSerial toSerial(const RMesh &m, unsigned fo)
{
    McSerial s; s.nc = m.nc(); s.nf = m.face.size(); s.nn = m.node.size(); s.version = 2;
    for (int c = 0; c < m.nc(); c++) { for (int k = 0; k < 4; k++) s.cells.push_back(m.cf[c][cellFaceAt(fo, c, k)]); for (int k = 0; k < 4; k++) s.cells.push_back(m.cell[c][k]); s.cells.push_back(m.mat[c]); }
    for (auto &f : m.face) { int a = f.c[0], b = f.c[1]; if ((fo & 2) && b >= 0) std::swap(a, b); s.faces.push_back(a < 0 ? NONE : a); s.faces.push_back(b < 0 ? NONE : b); for (int k = 0; k < 3; k++) s.faces.push_back(f.n[k]); }
    for (auto &n : m.node) for (int k = 0; k < 3; k++) s.nodes.push_back(n[k]);
    return s;
}
vector<char> smeshBytes(const RMesh &m, unsigned fo)
{
    McSerial s = toSerial(m, fo); vector<char> b; putName(b, "Tycho 2 Serial Mesh"); put64(b, 2); put64(b, s.nc); put64(b, s.nf); put64(b, s.nn);
    for (auto x : s.cells) put64(b, x); for (auto x : s.faces) put64(b, x); for (auto x : s.nodes) putd(b, x);
    return b;
}
PLocal plocal(const RMesh &m, const vector<int> &part, int np, unsigned order)
{
    PLocal p; p.cells.resize(np);
    for (int c = 0; c < m.nc(); c++) p.cells[part[c]].push_back(c);
    for (int i = 0; i < np; i++) if ((order & 1) && ((i & 1) || (order & 8))) std::reverse(p.cells[i].begin(), p.cells[i].end());
    return p;
}
vector<char> pmeshBytes(const RMesh &m, const vector<int> &part, int np, unsigned order)
{
    PLocal pl = plocal(m, part, np, order);
    vector<int> lc(m.nc()); for (auto &v : pl.cells) for (size_t i = 0; i < v.size(); i++) lc[v[i]] = i;
    vector<vector<char>> body(np);
    for (int p = 0; p < np; p++) {
        bool alt = (p & 1) || (order & 8);
        vector<int> fs, ns; std::map<int, int> lf, ln;
        for (size_t f = 0; f < m.face.size(); f++) { const RFace &F = m.face[f]; if (part[F.c[0]] == p || (F.c[1] >= 0 && part[F.c[1]] == p)) fs.push_back(f); }
        { vector<char> used(m.node.size()); for (int c : pl.cells[p]) for (int v : m.cell[c]) used[v] = 1; for (size_t n = 0; n < used.size(); n++) if (used[n]) ns.push_back(n); }
        if ((order & 2) && alt) std::reverse(fs.begin(), fs.end());
        if ((order & 4) && alt) std::reverse(ns.begin(), ns.end());
        for (size_t i = 0; i < fs.size(); i++) lf[fs[i]] = i;
        for (size_t i = 0; i < ns.size(); i++) ln[ns[i]] = i;
        vector<char> &b = body[p];
        put64(b, pl.cells[p].size()); put64(b, fs.size()); put64(b, ns.size());
        for (int c : pl.cells[p]) { for (int k = 0; k < 4; k++) put64(b, lf[m.cf[c][k]]); for (int k = 0; k < 4; k++) put64(b, ln[m.cell[c][k]]); put64(b, c); put64(b, m.mat[c]); }
        for (int f : fs) { const RFace &F = m.face[f];
            bool sw = (order & 32) && alt && F.c[1] >= 0; int tw = (order & 16) && alt ? 1 + f % 5 : 0;      // listing order of the two cells and the three nodes
            static const int tab[6][3] = {{0, 1, 2}, {1, 2, 0}, {0, 2, 1}, {2, 1, 0}, {2, 0, 1}, {1, 0, 2}};
            for (int k = 0; k < 2; k++) { int c = F.c[sw ? 1 - k : k]; put64(b, c < 0 ? NONE : lc[c]); }
            for (int k = 0; k < 3; k++) put64(b, ln[F.n[tab[tw][k]]]);
            put64(b, f);
            for (int k = 0; k < 2; k++) { int c = F.c[sw ? 1 - k : k]; put64(b, c < 0 ? NONE : part[c]); }
            put64(b, F.c[1] < 0 ? 0 : part[F.c[0]] != part[F.c[1]] ? 1 : 2); }
        for (int n : ns) { for (int k = 0; k < 3; k++) putd(b, m.node[n][k]); put64(b, n); }
    }
    vector<char> b; putName(b, "Tycho 2 Parallel Mesh"); put64(b, 2); put64(b, np);
    uint64_t off = 32 + 8 * (3 + np); put64(b, off); for (int p = 0; p < np; p++) { off += body[p].size(); put64(b, off); }
    for (int p = 0; p < np; p++) b.insert(b.end(), body[p].begin(), body[p].end());
    return b;
}
vector<vector<int>> allPartitions(int nc, int np, bool nonEmpty, bool upTo)
{
    vector<vector<int>> out; vector<int> p(nc, 0);
    for (;;) {
        vector<char> used(np); for (int x : p) used[x] = 1;
        bool ok = !nonEmpty || std::count(used.begin(), used.end(), 1) == np;
        if (ok && upTo) { int mx = -1; for (int x : p) { if (x > mx + 1) ok = false; mx = std::max(mx, x); } }
        if (ok) out.push_back(p);
        int i = nc - 1; while (i >= 0 && p[i] == np - 1) p[i--] = 0;
        if (i < 0) break; p[i]++;
    }
    return out;
}

RQuad::RQuad(int N)
{
    n = 2 * N * N; om.resize(n); w.resize(n);
    vector<long double> x(N), gw(N);
    for (int i = 0; i < N; i++) {
        long double z = -cosl(M_PIl * (i + 0.75L) / (N + 0.5L)), d = 0;
        for (int it = 0; it < 100; it++) {
            long double p0 = 1, p1 = z; for (int k = 2; k <= N; k++) { long double p2 = ((2 * k - 1) * z * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
            if (N == 1) { p1 = z; p0 = 1; }
            d = N * (z * p1 - p0) / (z * z - 1); long double dz = p1 / d; z -= dz; if (fabsl(dz) < 1e-19L) break;
        }
        x[i] = z; gw[i] = 2 / ((1 - z * z) * d * d);
    }
    for (int i = 0; i < N; i++) for (int k = 0; k < 2 * N; k++) {
        long double ph = M_PIl / N * (k + 0.5L), s = sqrtl(1 - x[i] * x[i]); int a = i * 2 * N + k;
        om[a] = {(double)(s * cosl(ph)), (double)(s * sinl(ph)), (double)x[i]}; w[a] = (double)(gw[i] * M_PIl / N);
    }
}
RProblem::RProblem(const RMesh &mm, int sn, double t1, double s1, double t2, double s2) : m(&mm), q(sn)
{ sT[0] = sS[0] = 0; sT[1] = t1; sS[1] = s1; sT[2] = t2; sS[2] = s2; hatSource(); }
// a face parallel to a direction is neither inflow nor outflow
double RProblem::flow(int c, int k, int a) const { double d = dot(q.om[a], m->normal(c, k)); return std::fabs(d) < 1e-10 ? 0 : d; }
double RProblem::minDot() const      // smallest |omega.n| of the faces that are not parallel to a direction
{
    double r = 1; for (int c = 0; c < m->nc(); c++) for (int k = 0; k < 4; k++) { V3 n = m->normal(c, k); for (auto &o : q.om) { double d = std::fabs(dot(o, n)); if (d > 1e-13) r = std::min(r, d); } } return r;
}
int RProblem::parallelFaces() const { int r = 0; for (int c = 0; c < m->nc(); c++) for (int k = 0; k < 4; k++) for (int a = 0; a < q.n; a++) r += flow(c, k, a) == 0; return r; }
vector<int> RProblem::order(int a) const
{
    int nc = m->nc(); vector<int> dep(nc), out, st;
    for (int c = 0; c < nc; c++) for (int k = 0; k < 4; k++) if (m->nb(c, k) >= 0 && flow(c, k, a) < 0) dep[c]++;
    for (int c = 0; c < nc; c++) if (!dep[c]) st.push_back(c);
    while (!st.empty()) { int c = st.back(); st.pop_back(); out.push_back(c); for (int k = 0; k < 4; k++) { int n = m->nb(c, k); if (n >= 0 && flow(c, k, a) > 0 && --dep[n] == 0) st.push_back(n); } }
    if ((int)out.size() != nc) out.clear();
    return out;
}
bool RProblem::acyclic() const { for (int a = 0; a < q.n; a++) if (order(a).empty()) return false; return true; }
void RProblem::hatSource()
{
    src.assign(size(), 0);
    for (int c = 0; c < m->nc(); c++) for (int a = 0; a < q.n; a++) for (int v = 0; v < 4; v++) {
        V3 p = m->node[m->cell[c][v]]; V3 x = {p[0] - 50, p[1] - 50, p[2] - 50}; double r = std::sqrt(dot(x, x));
        double s = 0;
        if (r <= 30) { double grad = r > 0 ? -dot(x, q.om[a]) / (30 * r) : 0; s = grad + (sT[m->mat[c]] - sS[m->mat[c]]) * (1 - r / 30); }
        src[((size_t)c * q.n + a) * 4 + v] = s;
    }
}
// Weak form with linear elements, nodal basis b_i = barycentric coordinates, upwind traces:
//   sum_j [ - int_V (omega.grad b_i) b_j + sigma int_V b_i b_j + sum_{outflow f} (omega.n_f) int_f b_i b_j ] psi_j
//     = int_V b_i q - sum_{inflow f} (omega.n_f) int_f b_i psi_in
// grad b_i = -A_i n_i / (3 V) for the face i opposite to vertex i.
void RProblem::solveCell(int c, int a, const double q4[4], const double in[4][3], double out[4]) const { solveCellS(c, a, sT[m->mat[c]], q4, in, out); }
static void cellMatrixSolve(double V, const double A[4], const double on[4], double sigma, const long double rhs[4], long double out[4])
{
    long double M[4][5];
    for (int i = 0; i < 4; i++) {
        for (int j = 0; j < 4; j++) {
            long double e = (long double)A[i] * on[i] / (3 * V) * (V / 4) + sigma * V / 20 * (i == j ? 2 : 1);
            for (int f = 0; f < 4; f++) if (on[f] > 0 && f != i && f != j) e += (long double)on[f] * A[f] / 12 * (i == j ? 2 : 1);
            M[i][j] = e;
        }
        M[i][4] = rhs[i];
    }
    for (int k = 0; k < 4; k++) {
        int p = k; for (int i = k + 1; i < 4; i++) if (fabsl(M[i][k]) > fabsl(M[p][k])) p = i;
        for (int j = 0; j < 5; j++) std::swap(M[k][j], M[p][j]);
        for (int i = k + 1; i < 4; i++) { long double f = M[i][k] / M[k][k]; for (int j = k; j < 5; j++) M[i][j] -= f * M[k][j]; }
    }
    for (int i = 3; i >= 0; i--) { long double s = M[i][4]; for (int j = i + 1; j < 4; j++) s -= M[i][j] * out[j]; out[i] = s / M[i][i]; }
}
void RProblem::solveCellS(int c, int a, double sigma, const double q4[4], const double in[4][3], double out[4]) const
{
    double V = m->volume(c), on[4], A[4]; long double rhs[4], x[4];
    for (int k = 0; k < 4; k++) { on[k] = flow(c, k, a); A[k] = m->area(c, k); }
    for (int i = 0; i < 4; i++) {
        long double r = 0; for (int j = 0; j < 4; j++) r += V / 20 * (i == j ? 2 : 1) * (long double)q4[j];
        for (int f = 0; f < 4; f++) if (on[f] < 0 && f != i) { int p = 0; for (int j = 0; j < 4; j++) if (j != f) { r -= (long double)on[f] * A[f] / 12 * (i == j ? 2 : 1) * in[f][p]; p++; } }
        rhs[i] = r;
    }
    cellMatrixSolve(V, A, on, sigma, rhs, x); for (int i = 0; i < 4; i++) out[i] = (double)x[i];
}
struct RProblem::Fact { double sT[3]; vector<vector<int>> ord; struct CA { long double inv[4][4]; double on[4]; }; vector<CA> ca; struct C { double V, A[4]; int n[4]; int nu[4][3]; }; vector<C> c; };
vector<double> RProblem::sweep(const vector<double> &source, const vector<int> *part, const vector<double> *old) const
{
    vector<double> psi(size()); int na = q.n, nc = m->nc();
    if (!fact || memcmp(fact->sT, sT, sizeof sT)) {
        fact = std::make_shared<Fact>(); Fact &F = *fact; memcpy(F.sT, sT, sizeof sT); F.ca.resize((size_t)nc * na); F.c.resize(nc);
        for (int a = 0; a < na; a++) { F.ord.push_back(order(a)); if (F.ord.back().empty()) { fprintf(stderr, "reference: cyclic mesh %s\n", m->name.c_str()); abort(); } }
        for (int c = 0; c < nc; c++) {
            Fact::C &g = F.c[c]; g.V = m->volume(c);
            for (int k = 0; k < 4; k++) { g.A[k] = m->area(c, k); int n = g.n[k] = m->nb(c, k), p = 0; for (int v = 0; v < 4; v++) if (v != k) { int x = 0; if (n >= 0) for (int u = 0; u < 4; u++) if (m->cell[n][u] == m->cell[c][v]) x = u; g.nu[k][p++] = x; } }
            // the inverse of the cell's matrix, column by column: the response to a source that gives right-hand side e_j
            for (int a = 0; a < na; a++) {
                Fact::CA &f = F.ca[(size_t)c * na + a]; for (int k = 0; k < 4; k++) f.on[k] = flow(c, k, a);
                for (int j = 0; j < 4; j++) { long double rhs[4] = {0, 0, 0, 0}; rhs[j] = 1; long double out[4]; cellMatrixSolve(g.V, g.A, f.on, sT[m->mat[c]], rhs, out); for (int i = 0; i < 4; i++) f.inv[i][j] = out[i]; }
            }
        }
    }
    const Fact &F = *fact;
    for (int a = 0; a < na; a++) for (int c : F.ord[a]) {
        const Fact::C &g = F.c[c]; const Fact::CA &f = F.ca[(size_t)c * na + a]; size_t b = ((size_t)c * na + a) * 4; long double r[4];
        for (int i = 0; i < 4; i++) { r[i] = 0; for (int j = 0; j < 4; j++) r[i] += g.V / 20 * (i == j ? 2 : 1) * (long double)source[b + j]; }
        for (int k = 0; k < 4; k++) if (f.on[k] < 0 && g.n[k] >= 0) {
            int n = g.n[k]; const double *from = ((part && (*part)[n] != (*part)[c]) ? old->data() : psi.data()) + ((size_t)n * na + a) * 4;
            for (int i = 0; i < 4; i++) if (i != k) { int p = 0; for (int j = 0; j < 4; j++) if (j != k) { r[i] -= (long double)f.on[k] * g.A[k] / 12 * (i == j ? 2 : 1) * from[g.nu[k][p]]; p++; } }
        }
        for (int i = 0; i < 4; i++) { long double x = 0; for (int j = 0; j < 4; j++) x += f.inv[i][j] * r[j]; psi[b + i] = (double)x; }
    }
    return psi;
}
vector<double> RProblem::phi(const vector<double> &psi) const
{
    vector<double> f((size_t)m->nc() * 4); for (int c = 0; c < m->nc(); c++) for (int a = 0; a < q.n; a++) for (int v = 0; v < 4; v++) f[c * 4 + v] += q.w[a] * psi[((size_t)c * q.n + a) * 4 + v]; return f;
}
vector<double> RProblem::total(const vector<double> &f) const
{
    vector<double> t(src); for (int c = 0; c < m->nc(); c++) for (int a = 0; a < q.n; a++) for (int v = 0; v < 4; v++) t[((size_t)c * q.n + a) * 4 + v] += sS[m->mat[c]] / (4 * M_PI) * f[c * 4 + v]; return t;
}
vector<double> RProblem::iterate(int n, vector<double> *errs) const
{
    vector<double> psi(size()), f((size_t)m->nc() * 4);
    for (int i = 0; i < n; i++) {
        psi = sweep(total(f)); vector<double> g = phi(psi); double e = 0, s = 0; for (size_t k = 0; k < g.size(); k++) { e += std::fabs(g[k] - f[k]); s += std::fabs(g[k]); }
        if (errs) errs->push_back(e / s);
        f = g;
    }
    return psi;
}
vector<double> RProblem::converged() const
{
    vector<double> f((size_t)m->nc() * 4), psi;
    for (int i = 0; i < 2000; i++) { psi = sweep(total(f)); vector<double> g = phi(psi); double e = 0, s = 0; for (size_t k = 0; k < g.size(); k++) { e += std::fabs(g[k] - f[k]); s += std::fabs(g[k]); } f = g; if (e <= 1e-15 * s) break; }
    return psi;
}
double RProblem::l2error(const vector<double> &psi) const
{
    double d = 0, n = 0;
    for (int c = 0; c < m->nc(); c++) {
        V3 x = {0, 0, 0}; for (int v = 0; v < 4; v++) for (int i = 0; i < 3; i++) x[i] += (m->node[m->cell[c][v]][i] - 50) / 4;
        double r = std::sqrt(dot(x, x)), ex = r <= 30 ? 1 - r / 30 : 0;
        for (int a = 0; a < q.n; a++) { double p = 0; for (int v = 0; v < 4; v++) p += psi[((size_t)c * q.n + a) * 4 + v] / 4; n += p * p; d += (p - ex) * (p - ex); }
    }
    return std::sqrt(d / n);
}
double maxRel(const vector<double> &a, const vector<double> &b, size_t *where)
{
    double s = 0, d = 0; for (double x : b) s = std::max(s, std::fabs(x)); if (s == 0) s = 1;
    if (a.size() != b.size()) return 1e300;
    for (size_t i = 0; i < a.size(); i++) { double e = std::fabs(a[i] - b[i]); if (!(e <= d)) { d = e; if (where) *where = i; if (!(e == e)) return 1e300; } }
    return d / s;
}
std::string deckText(const vector<std::pair<std::string, std::string>> &over)
{
    vector<std::pair<std::string, std::string>> d = {{"snOrder", "2"}, {"iterMax", "1"}, {"errMax", "0.0"}, {"maxCellsPerStep", "100"}, {"intraAngleP", "1"}, {"interAngleP", "1"}, {"nGroups", "1"},
        {"sigmaT1", "0.05"}, {"sigmaS1", "0.02"}, {"sigmaT2", "0.11"}, {"sigmaS2", "0.03"}, {"OutputFile", "true"}, {"OutputFilename", "out.psi"}, {"SourceIteration", "true"}, {"MPIType", "TychoTwoSided"},
        {"DD_IterMax", "100"}, {"DD_ErrMax", "1e-12"}, {"SweepType", "TraverseGraph"}, {"GaussElim", "NoPivot"}};
    for (auto &o : over) { bool f = false; for (auto &x : d) if (x.first == o.first) { x.second = o.second; f = true; } if (!f) d.push_back(o); }
    std::string s; for (auto &x : d) if (x.second != "-") s += x.first + " " + x.second + "\n"; return s;
}
void writeDisk(const std::string &n, const vector<char> &d) { FILE *f = fopen(n.c_str(), "wb"); if (!f) { perror(n.c_str()); exit(2); } if (!d.empty() && fwrite(d.data(), 1, d.size(), f) != d.size()) exit(2); fclose(f); }
void writeDisk(const std::string &n, const std::string &d) { writeDisk(n, vector<char>(d.begin(), d.end())); }
bool g_watchDisk = false; unsigned long long g_diskSeen = 14695981039346656037ull;
vector<char> readDisk(const std::string &n) { vector<char> d; FILE *f = fopen(n.c_str(), "rb"); if (!f) return d; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) d.insert(d.end(), b, b + k); fclose(f); if (g_watchDisk) for (unsigned char c : d) g_diskSeen = (g_diskSeen ^ c) * 1099511628211ull + 1; return d; }
