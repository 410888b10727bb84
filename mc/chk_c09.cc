// C09: writing, reading and partitioning a mesh file loses, duplicates and misdirects nothing.
#include "meshfiles.hh"
#include <cstring>
#include <set>
#include <map>
#include <unistd.h>
using namespace rt;
namespace {
using namespace meshfiles;
std::string tmpName(const char *suffix) { return fmt("c09_%d%s", scratchPid(), suffix); }
struct Tmp { std::string n; Tmp(const char *s) : n(tmpName(s)) {} ~Tmp() { unlink(n.c_str()); } };
Scenario partition(const std::string &mesh, unsigned fo, int np)
{
    Scenario sc; sc.name = fmt("partition/%s/f%u/np%d", mesh.c_str(), fo, np); sc.cpuLimit = 300;
    sc.body = [=] {
        const RMesh &m = meshOf(mesh); McSerial s = toSerial(m, fo); for (uint64_t c = 0; c < s.nc; c++) s.cells[c * 9 + 8] = c * 37 + 5;      // distinguishable materials
        auto all = allPartitions(m.nc(), np, false); size_t limit = g_thorough ? 20000 : 1500; size_t stride = (all.size() + limit - 1) / limit;
        // (without MPI) creation and serial reading
        for (size_t i = 0; i < all.size(); i += stride) {
            std::vector<uint64_t> pv(all[i].begin(), all[i].end()); Tmp t(".pmesh"), t2(".pmesh2"); McParallel a, b;
            fn<void (*)(const McSerial &, const std::vector<uint64_t> &, int, McParallel &, const char *)>(0, "mcs_pmesh_create")(s, pv, np, a, i % 7 == 0 ? t.n.c_str() : nullptr);
            judge(s, pv, np, a); countCase();
            if (i % 7 == 0) {
                B file = readDisk(t.n); McParallel c = parseParallel(file); if (c.version != 2) fail(ST_WRONG, "version %lu written", c.version); same(a, c, "the file written");
                fn<void (*)(const char *, McParallel &)>(0, "mcs_pmesh_read")(t.n.c_str(), b); same(a, b, "the file read back");
                fn<void (*)(const char *, const char *)>(0, "mcs_pmesh_rewrite")(t.n.c_str(), t2.n.c_str()); if (readDisk(t2.n) != file) fail(ST_WRONG, "writing what was read gives another file");
            }
        }
    };
    return sc;
}
Scenario parallelRead(const std::string &mesh, const std::vector<int> &part, int np, unsigned fo)
{
    Scenario sc; sc.name = fmt("parallel-read/%s.%s/f%u", mesh.c_str(), partName(part).c_str(), fo); sc.maxDev = 1; sc.maxExec = 20;
    sc.body = [=] {
        McSerial s = toSerial(meshOf(mesh), fo); std::vector<uint64_t> pv(part.begin(), part.end()); Tmp t(".pmesh"); McParallel a;
        fn<void (*)(const McSerial &, const std::vector<uint64_t> &, int, McParallel &, const char *)>(0, "mcs_pmesh_create")(s, pv, np, a, t.n.c_str());
        files()["in.pmesh"] = readDisk(t.n); Config c; c.nRanks = np;
        rt::run(c, [&](int r) { mpiInit(); McPart p; fn<void (*)(const char *, McPart &)>(r, "mcs_pmesh_readpar")("in.pmesh", p); if (!same(p, a.parts[r])) fail(ST_WRONG, "rank %d reads another partition than was written for it", r); mpiFini(); });
        countCase();
    };
    return sc;
}
Scenario serial(const std::string &mesh, unsigned fo)
{
    Scenario sc; sc.name = fmt("serial/%s/f%u", mesh.c_str(), fo);
    sc.body = [=] {
        for (int variant = 0; variant < 3; variant++) {
            McSerial s = toSerial(meshOf(mesh), fo), b; for (uint64_t c = 0; c < s.nc; c++) s.cells[c * 9 + 8] = variant == 1 ? NONE - c : c * 1000003;
            if (variant == 2) { double odd[] = {-0.0, 5e-324, 1.7976931348623157e308, -1e-300, 0.1}; for (size_t i = 0; i < s.nodes.size(); i++) if (i % 3) s.nodes[i] = odd[i % 5]; }
            if (variant == 1) for (size_t i = 0; i < s.faces.size(); i++) if (i % 4 == 0) s.faces[i] += 0x100000000ull * (i % 3);           // indices beyond 32 bits
            Tmp t(".smesh"), t2(".smesh2"); fn<void (*)(const McSerial &, const char *)>(0, "mcs_smesh_write")(s, t.n.c_str());
            B file = readDisk(t.n); McSerial c = parseSerial(file); if (c.version != 2) fail(ST_WRONG, "version %lu written", c.version); if (!same(s, c)) fail(ST_WRONG, "the serial mesh file is not the mesh");
            fn<void (*)(const char *, McSerial &)>(0, "mcs_smesh_read")(t.n.c_str(), b); if (!same(s, b)) fail(ST_WRONG, "the serial mesh read back is another one");
            fn<void (*)(const char *, const char *)>(0, "mcs_smesh_rewrite")(t.n.c_str(), t2.n.c_str()); if (readDisk(t2.n) != file) fail(ST_WRONG, "writing what was read gives another file");
            countCase();
        }
    };
    return sc;
}
// larger meshes and more partitions: fixed assignments (blocks, round robin, mixed, one cell here and there, empty partitions between)
Scenario larger(const std::string &mesh, unsigned fo, int np)
{
    Scenario sc; sc.name = fmt("larger/%s/f%u/np%d", mesh.c_str(), fo, np); sc.cpuLimit = 300; sc.maxDev = 1; sc.maxExec = 20;
    sc.body = [=] {
        McSerial s = toSerial(meshOf(mesh), fo); uint64_t n = s.nc; for (uint64_t c = 0; c < n; c++) s.cells[c * 9 + 8] = c * 37 + 5;
        for (int w = n > 60000 ? 2 : 0; w < (n > 60000 ? 4 : 6); w++) {
            std::vector<uint64_t> pv(n); for (uint64_t c = 0; c < n; c++) pv[c] = w == 0 ? c * np / n : w == 1 ? c % np : w == 2 ? (c * 5 + c / 7) % np : w == 3 ? (c % 17 ? np - 1 : c / 17 % np) : w == 4 ? np - 1 - (c / 3 % ((np + 1) / 2)) * 2 % np : (c * c + 3 * c) % np;
            Tmp t(".pmesh"), t2(".pmesh2"); McParallel a, b; fn<void (*)(const McSerial &, const std::vector<uint64_t> &, int, McParallel &, const char *)>(0, "mcs_pmesh_create")(s, pv, np, a, t.n.c_str());
            judge(s, pv, np, a); B file = readDisk(t.n); McParallel c = parseParallel(file); if (c.version != 2) fail(ST_WRONG, "version %lu written", c.version); same(a, c, "the file written"); countCase();
            fn<void (*)(const char *, McParallel &)>(0, "mcs_pmesh_read")(t.n.c_str(), b); same(a, b, "the file read back");
            fn<void (*)(const char *, const char *)>(0, "mcs_pmesh_rewrite")(t.n.c_str(), t2.n.c_str()); if (readDisk(t2.n) != file) fail(ST_WRONG, "writing what was read gives another file");
            if (np > MAXR || w != np % 6) continue;
            files()["in.pmesh"] = file; Config k; k.nRanks = np;
            rt::run(k, [&](int r) { mpiInit(); McPart p; fn<void (*)(const char *, McPart &)>(r, "mcs_pmesh_readpar")("in.pmesh", p); if (!same(p, a.parts[r])) fail(ST_WRONG, "rank %d reads another partition than was written for it", r); mpiFini(); });
        }
    };
    return sc;
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough;
    std::vector<std::string> ms = {"tet1", "tet2", "tet3", "tet4", "tet5", "fan4", "cube5", "cube6", "reg5", "reg6", "box10", "shape2"}; if (T) { ms.push_back("box12"); ms.push_back("box20"); ms.push_back("box40"); }
    if (needSyms({"mcs_smesh_write", "mcs_smesh_read", "mcs_smesh_rewrite"}, "serial mesh files")) for (auto &m : ms) for (unsigned fo = 0; fo < 4; fo++) v.push_back(serial(m, fo));
    if (needSyms({"mcs_pmesh_create", "mcs_pmesh_read", "mcs_pmesh_rewrite"}, "partitioned mesh files"))
        for (auto &m : ms) { int nc = meshOf(m).nc(); for (int np = 1; np <= 4; np++) { if (nc > 12 && np > 1) break; for (unsigned fo = 0; fo < 4; fo++) v.push_back(partition(m, fo, np)); } }
    if (needSyms({"mcs_pmesh_create", "mcs_pmesh_readpar"}, "parallel reading"))
        for (auto &m : ms) { int nc = meshOf(m).nc(); if (nc > 6) continue; for (int np = 1; np <= 4; np++) for (auto &p : allPartitions(nc, np, T ? false : np < 3, !T && np > 2)) v.push_back(parallelRead(m, p, np, (nc + np) % 4)); }
    if (needSyms({"mcs_pmesh_create", "mcs_pmesh_read", "mcs_pmesh_rewrite", "mcs_pmesh_readpar"}, "larger partitioned meshes")) {
        std::vector<std::string> big = {"box20", "box40", "shape3", "grid4x3x3", "hexa4x2x2", "grid1x1x60", "hexa5x5x4"}; if (T) for (auto n : {"hexa8x8x8", "grid10x10x10", "shape0", "shape5", "hexa1x1x200", "even6x6x6"}) big.push_back(n);
        for (int np = 1; np <= 3; np++) v.push_back(larger("hexa22x22x23", np, np)); for (int np : {101, 256, 257, 600}) v.push_back(larger("hexa5x5x4", np % 4, np)); unsigned h = 0; for (auto &m : big) for (int np : {1, 2, 3, 5, 7, 8, 13, 31, 64, 100}) { v.push_back(larger(m, h++ % 4, np)); if (T) v.push_back(larger(m, h % 4, np)); }
    }
    return v;
}
}
static Check chk{"C09", "mesh partitioning and files",
    "serial mesh files written, parsed independently, read back and rewritten; every assignment of cells to 1-4 partitions (empty ones included) of small meshes under four face numberings, judged from the serial mesh alone; meshes of up to 600 cells (thorough 5000) into up to 100 partitions by six fixed assignments; partition files parsed independently, read back serially and by all ranks in parallel", "exploration", make, nullptr, {}, 200, 780};
static Reg reg(&chk);
