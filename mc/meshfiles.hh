// Independent readers of the documented mesh file formats, and what a partitioned mesh must say.
#pragma once
#include "comp.hh"
#include <cstring>
#include <set>
#include <map>
#include <unistd.h>
namespace meshfiles {
using namespace rt;
typedef std::vector<char> B;
const uint64_t NONE = ~0ull;
struct Rd { const B &b; size_t at; uint64_t u() { if (at + 8 > b.size()) fail(ST_WRONG, "the file written is shorter than its own counts say"); uint64_t v; memcpy(&v, &b[at], 8); at += 8; return v; } double d() { uint64_t v = u(); double x; memcpy(&x, &v, 8); return x; } };
inline void name(const B &b, const char *want) { char n[32]; memset(n, 0, 32); strcpy(n, want); if (b.size() < 32 || memcmp(n, b.data(), 32)) fail(ST_WRONG, "the file written does not begin with the name '%s'", want); }
// the documented formats
inline McSerial parseSerial(const B &b)
{
    name(b, "Tycho 2 Serial Mesh"); Rd r{b, 32}; McSerial m; m.version = r.u(); m.nc = r.u(); m.nf = r.u(); m.nn = r.u(); if (b.size() != 32 + 8 * (4 + m.nc * 9 + m.nf * 5 + m.nn * 3)) fail(ST_WRONG, "serial mesh file of %zu bytes for %lu cells, %lu faces, %lu nodes", b.size(), m.nc, m.nf, m.nn);
    for (uint64_t i = 0; i < m.nc * 9; i++) m.cells.push_back(r.u()); for (uint64_t i = 0; i < m.nf * 5; i++) m.faces.push_back(r.u()); for (uint64_t i = 0; i < m.nn * 3; i++) m.nodes.push_back(r.d()); return m;
}
inline McParallel parseParallel(const B &b)
{
    name(b, "Tycho 2 Parallel Mesh"); Rd r{b, 32}; McParallel m; m.version = r.u(); m.np = r.u(); if (m.np > 100000) fail(ST_WRONG, "%lu partitions in the file", m.np);
    for (uint64_t i = 0; i <= m.np; i++) m.offsets.push_back(r.u());
    for (uint64_t p = 0; p < m.np; p++) {
        if (r.at != m.offsets[p]) fail(ST_WRONG, "partition %lu begins at %zu, its recorded offset is %lu", p, r.at, m.offsets[p]);
        McPart x; x.nc = r.u(); x.nf = r.u(); x.nn = r.u(); if (x.nc + x.nf + x.nn > 1000000) fail(ST_WRONG, "absurd counts in partition %lu of the file", p);
        for (uint64_t i = 0; i < x.nc * 10; i++) x.cells.push_back(r.u()); for (uint64_t i = 0; i < x.nf * 9; i++) x.faces.push_back(r.u()); for (uint64_t i = 0; i < x.nn; i++) { for (int k = 0; k < 3; k++) x.nodes.push_back(r.d()); x.nodeIds.push_back(r.u()); }
        m.parts.push_back(x);
    }
    if (r.at != b.size() || m.offsets[m.np] != b.size()) fail(ST_WRONG, "the file has %zu bytes, its partitions end at %zu, the last offset is %lu", b.size(), r.at, m.offsets[m.np]);
    return m;
}
inline bool bits(const std::vector<double> &a, const std::vector<double> &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 8)); }
inline bool same(const McPart &a, const McPart &b) { return a.nc == b.nc && a.nf == b.nf && a.nn == b.nn && a.cells == b.cells && a.faces == b.faces && a.nodeIds == b.nodeIds && bits(a.nodes, b.nodes); }
inline bool same(const McSerial &a, const McSerial &b) { return a.nc == b.nc && a.nf == b.nf && a.nn == b.nn && a.cells == b.cells && a.faces == b.faces && bits(a.nodes, b.nodes); }
inline void same(const McParallel &a, const McParallel &b, const char *what)
{
    if (a.np != b.np || a.parts.size() != a.np || b.parts.size() != b.np || a.offsets != b.offsets) fail(ST_WRONG, "%s: number of partitions or offsets differ", what);
    for (uint64_t p = 0; p < a.np; p++) if (!same(a.parts[p], b.parts[p])) fail(ST_WRONG, "%s: partition %lu differs", what, p);
}
// what the partitioned mesh must say, from the serial mesh and the assignment alone
inline void judge(const McSerial &s, const std::vector<uint64_t> &pv, int np, const McParallel &m)
{
    if (m.np != (uint64_t)np || m.parts.size() != (size_t)np) fail(ST_WRONG, "%lu partitions made, %d asked for", m.np, np);
    std::vector<int> where(s.nc, -1); std::vector<std::map<uint64_t, uint64_t>> lc(np);
    for (int p = 0; p < np; p++) { const McPart &x = m.parts[p];
        if (x.cells.size() != x.nc * 10 || x.faces.size() != x.nf * 9 || x.nodeIds.size() != x.nn) fail(ST_WRONG, "partition %d: counts do not agree with the data", p);
        for (uint64_t c = 0; c < x.nc; c++) { uint64_t g = x.cells[c * 10 + 8]; if (g >= s.nc) fail(ST_WRONG, "partition %d: cell with global number %lu", p, g); if (where[g] >= 0) fail(ST_WRONG, "global cell %lu is in partitions %d and %d", g, where[g], p); if (pv[g] != (uint64_t)p) fail(ST_WRONG, "global cell %lu is in partition %d, it was assigned to %lu", g, p, pv[g]); where[g] = p; lc[p][g] = c; }
    }
    for (uint64_t c = 0; c < s.nc; c++) if (where[c] < 0) fail(ST_WRONG, "global cell %lu is in no partition", c);
    std::vector<uint64_t> num(s.nf, NONE); std::map<uint64_t, uint64_t> back;      // number given to a face of the serial mesh, and the reverse
    for (int p = 0; p < np; p++) { const McPart &x = m.parts[p];
        std::set<uint64_t> used, nodes; for (auto &q : lc[p]) for (int k = 0; k < 4; k++) { nodes.insert(s.cells[q.first * 9 + 4 + k]); used.insert(s.cells[q.first * 9 + k]); }
        // nodes
        std::set<uint64_t> have; std::vector<uint64_t> gn(x.nn);
        for (uint64_t n = 0; n < x.nn; n++) { uint64_t g = x.nodeIds[n]; gn[n] = g; if (!nodes.count(g)) fail(ST_WRONG, "partition %d has node %lu, which none of its cells uses", p, g); if (!have.insert(g).second) fail(ST_WRONG, "partition %d has node %lu twice", p, g); if (memcmp(&x.nodes[n * 3], &s.nodes[g * 3], 24)) fail(ST_WRONG, "partition %d: node %lu has other coordinates", p, g); }
        if (have.size() != nodes.size()) fail(ST_WRONG, "partition %d has %zu of the %zu nodes of its cells", p, have.size(), nodes.size());
        // faces: identified by their nodes
        std::map<std::set<uint64_t>, uint64_t> byNodes; for (uint64_t f : used) byNodes[{s.faces[f * 5 + 2], s.faces[f * 5 + 3], s.faces[f * 5 + 4]}] = f;
        std::vector<uint64_t> gf(x.nf); std::set<uint64_t> haveF;
        for (uint64_t f = 0; f < x.nf; f++) {
            const uint64_t *F = &x.faces[f * 9]; std::set<uint64_t> ns; for (int k = 0; k < 3; k++) { if (F[2 + k] >= x.nn) fail(ST_WRONG, "partition %d face %lu: node %lu of %lu", p, f, F[2 + k], x.nn); ns.insert(gn[F[2 + k]]); }
            auto it = byNodes.find(ns); if (it == byNodes.end()) fail(ST_WRONG, "partition %d face %lu is no face of its cells", p, f); uint64_t g = it->second; gf[f] = g;
            if (!haveF.insert(g).second) fail(ST_WRONG, "partition %d has face %lu twice", p, g);
            if (num[g] == NONE) { num[g] = F[5]; if (!back.insert({F[5], g}).second) fail(ST_WRONG, "faces %lu and %lu have the same global number %lu", back[F[5]], g, F[5]); }
            else if (num[g] != F[5]) fail(ST_WRONG, "face %lu has global number %lu in partition %d and %lu in another one", g, F[5], p, num[g]);
            uint64_t a = s.faces[g * 5], b = s.faces[g * 5 + 1];
            if (b == NONE) { if (F[8] != 0) fail(ST_WRONG, "partition %d: external face %lu has type %lu", p, g, F[8]); if (F[1] != NONE || F[7] != NONE) fail(ST_WRONG, "partition %d: external face %lu names a second cell or partition", p, g); if (F[0] != lc[p][a] || F[6] != (uint64_t)p) fail(ST_WRONG, "partition %d: external face %lu names cell %lu of partition %lu", p, g, F[0], F[6]); }
            else {
                uint64_t want = pv[a] == pv[b] ? 2 : 1; if (F[8] != want) fail(ST_WRONG, "partition %d: face %lu between partitions %lu and %lu has type %lu", p, g, pv[a], pv[b], F[8]);
                bool fwd = F[6] == pv[a] && F[0] == lc[pv[a]][a] && F[7] == pv[b] && F[1] == lc[pv[b]][b], rev = F[6] == pv[b] && F[0] == lc[pv[b]][b] && F[7] == pv[a] && F[1] == lc[pv[a]][a];
                if (!fwd && !rev) fail(ST_WRONG, "partition %d: face %lu names cell %lu of partition %lu and cell %lu of partition %lu", p, g, F[0], F[6], F[1], F[7]);
            }
        }
        if (haveF.size() != used.size()) fail(ST_WRONG, "partition %d has %zu of the %zu faces of its cells", p, haveF.size(), used.size());
        // cells
        for (uint64_t c = 0; c < x.nc; c++) {
            const uint64_t *C = &x.cells[c * 10]; uint64_t g = C[8]; if (C[9] != s.cells[g * 9 + 8]) fail(ST_WRONG, "cell %lu has material %lu, expected %lu", g, C[9], s.cells[g * 9 + 8]);
            std::set<uint64_t> a, b, u, w; for (int k = 0; k < 4; k++) { if (C[k] >= x.nf || C[4 + k] >= x.nn) fail(ST_WRONG, "cell %lu names face %lu of %lu or node %lu of %lu", g, C[k], x.nf, C[4 + k], x.nn); a.insert(gf[C[k]]); b.insert(s.cells[g * 9 + k]); u.insert(gn[C[4 + k]]); w.insert(s.cells[g * 9 + 4 + k]); }
            if (a != b) fail(ST_WRONG, "cell %lu of partition %d does not have its own faces", g, p); if (u != w) fail(ST_WRONG, "cell %lu of partition %d does not have its own nodes", g, p);
        }
    }
}
// the assignment a partitioned mesh makes
inline std::vector<uint64_t> assignment(const McSerial &s, const McParallel &m)
{
    std::vector<uint64_t> pv(s.nc, NONE); for (uint64_t p = 0; p < m.np && p < m.parts.size(); p++) for (uint64_t c = 0; c < m.parts[p].nc; c++) { uint64_t g = m.parts[p].cells[c * 10 + 8]; if (g < s.nc) pv[g] = p; }
    for (uint64_t c = 0; c < s.nc; c++) if (pv[c] == NONE) fail(ST_WRONG, "cell %lu is in no partition", c);
    return pv;
}
inline B serialBytes(const McSerial &s)
{
    B b(64); strcpy(b.data(), "Tycho 2 Serial Mesh"); uint64_t h[4] = {s.version, s.nc, s.nf, s.nn}; memcpy(b.data() + 32, h, 32);
    auto put = [&](const void *p, size_t n) { b.insert(b.end(), (const char *)p, (const char *)p + n); }; put(s.cells.data(), 8 * s.cells.size()); put(s.faces.data(), 8 * s.faces.size()); put(s.nodes.data(), 8 * s.nodes.size()); return b;
}
}
