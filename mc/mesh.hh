// Small meshes, their files, and an independent sequential transport reference.
#pragma once
#include <array>
#include <memory>
#include <cstdint>
#include <string>
#include <vector>
#include "api.hh"
typedef std::array<double, 3> V3;
struct RFace { int n[3]; int c[2]; };                 // c[1] == -1: external
struct RMesh {
    std::string name;
    std::vector<V3> node; std::vector<std::array<int, 4>> cell; std::vector<int> mat;
    std::vector<RFace> face; std::vector<std::array<int, 4>> cf;     // cf[c][k]: face opposite to vertex k of cell c
    int nc() const { return cell.size(); }
    void faces();                                     // derive faces
    void faces(unsigned perm);                        // derive faces with a given numbering / vertex order (bounded family)
    double volume(int c) const; double area(int c, int k) const; V3 normal(int c, int k) const;
    int nb(int c, int k) const { const RFace &f = face[cf[c][k]]; return f.c[0] == c ? f.c[1] : f.c[0]; }
};
RMesh makeMesh(const std::string &name);
std::vector<std::string> meshNames(); const std::vector<V3> &hatPoints();
// files
McSerial toSerial(const RMesh &m, unsigned faceOrder = 0);
std::vector<char> smeshBytes(const RMesh &m, unsigned faceOrder = 0);
// order: bit 4 nodes of faces, bit 5 cells of faces listed in another order in odd partitions; bit 0 reverse cells, bit 1 reverse faces, bit 2 reverse nodes, of odd partitions (bit 3: of even partitions as well)
std::vector<char> pmeshBytes(const RMesh &m, const std::vector<int> &part, int np, unsigned order = 0);
struct PLocal { std::vector<std::vector<int>> cells; };   // local -> global cells for each partition as written by pmeshBytes
PLocal plocal(const RMesh &m, const std::vector<int> &part, int np, unsigned order = 0);
std::vector<std::vector<int>> allPartitions(int nc, int np, bool nonEmpty = true, bool upToRenaming = false);

struct RQuad { int n; std::vector<V3> om; std::vector<double> w; RQuad(int sn); };

// psi[((c * na + a) * 4 + v)]
struct RProblem {
    const RMesh *m; RQuad q; double sT[3], sS[3]; std::vector<double> src;     // src like psi
    RProblem(const RMesh &mm, int sn, double t1, double s1, double t2, double s2);
    int na() const { return q.n; }
    size_t size() const { return (size_t)m->nc() * q.n * 4; }
    double flow(int c, int k, int a) const; int parallelFaces() const;
    double minDot() const;                                            // smallest |omega.n|
    bool acyclic() const;
    std::vector<int> order(int a) const;                              // upwind order, empty if cyclic
    void hatSource();
    // one sweep of the whole mesh; part/bnd: with a partition vector, faces between parts take the neighbour's value from old
    std::vector<double> sweep(const std::vector<double> &source, const std::vector<int> *part = nullptr, const std::vector<double> *old = nullptr) const;
    std::vector<double> phi(const std::vector<double> &psi) const;
    std::vector<double> total(const std::vector<double> &phi) const;  // src + sS/(4 pi) phi
    std::vector<double> iterate(int n, std::vector<double> *errs = nullptr) const;      // n source iterations from zero
    std::vector<double> converged() const;
    double l2error(const std::vector<double> &psi) const;
    struct Fact; mutable std::shared_ptr<Fact> fact;                  // what does not change between sweeps
    void solveCell(int c, int a, const double q4[4], const double in[4][3], double out[4]) const;   // in[face][i]: value at i-th vertex (cell order) of inflow face
    void solveCellS(int c, int a, double sigma, const double q4[4], const double in[4][3], double out[4]) const;
};
double maxRel(const std::vector<double> &a, const std::vector<double> &b, size_t *where = nullptr);
std::string deckText(const std::vector<std::pair<std::string, std::string>> &over);
void writeDisk(const std::string &name, const std::vector<char> &d);
void writeDisk(const std::string &name, const std::string &d);
std::vector<char> readDisk(const std::string &name);
extern bool g_watchDisk; extern unsigned long long g_diskSeen;      // digest of everything readDisk returned, when watched
