#include "../api.hh"
#include "SerialMesh.hh"
#include "ParallelMesh.hh"
#include <cstring>
static void toSerial(const McSerial &in, SerialMesh &m)
{
    m.c_numCells = in.nc; m.c_numFaces = in.nf; m.c_numNodes = in.nn; m.c_version = SerialMesh::VERSION; memset(m.c_meshFormatName, 0, 32);
    m.c_cellData.resize(in.nc); m.c_faceData.resize(in.nf); m.c_nodeData.resize(in.nn);
    for (uint64_t i = 0; i < in.nc; i++) { for (int k = 0; k < 4; k++) { m.c_cellData[i].boundingFaces[k] = in.cells[i * 9 + k]; m.c_cellData[i].boundingNodes[k] = in.cells[i * 9 + 4 + k]; } m.c_cellData[i].materialIndex = in.cells[i * 9 + 8]; }
    for (uint64_t i = 0; i < in.nf; i++) { for (int k = 0; k < 2; k++) m.c_faceData[i].boundingCells[k] = in.faces[i * 5 + k]; for (int k = 0; k < 3; k++) m.c_faceData[i].boundingNodes[k] = in.faces[i * 5 + 2 + k]; }
    for (uint64_t i = 0; i < in.nn; i++) for (int k = 0; k < 3; k++) m.c_nodeData[i].coords[k] = in.nodes[i * 3 + k];
}
static void fromSerial(const SerialMesh &m, McSerial &o)
{
    o = McSerial(); o.nc = m.c_numCells; o.nf = m.c_numFaces; o.nn = m.c_numNodes; o.version = m.c_version;
    for (const auto &c : m.c_cellData) { for (int k = 0; k < 4; k++) o.cells.push_back(c.boundingFaces[k]); for (int k = 0; k < 4; k++) o.cells.push_back(c.boundingNodes[k]); o.cells.push_back(c.materialIndex); }
    for (const auto &f : m.c_faceData) { for (int k = 0; k < 2; k++) o.faces.push_back(f.boundingCells[k]); for (int k = 0; k < 3; k++) o.faces.push_back(f.boundingNodes[k]); }
    for (const auto &n : m.c_nodeData) for (int k = 0; k < 3; k++) o.nodes.push_back(n.coords[k]);
}
static void fromPart(const ParallelMesh::PartitionData &p, McPart &o)
{
    o = McPart(); o.nc = p.numCells; o.nf = p.numFaces; o.nn = p.numNodes;
    for (const auto &c : p.cellData) { for (int k = 0; k < 4; k++) o.cells.push_back(c.boundingFaces[k]); for (int k = 0; k < 4; k++) o.cells.push_back(c.boundingNodes[k]); o.cells.push_back(c.globalID); o.cells.push_back(c.materialIndex); }
    for (const auto &f : p.faceData) { for (int k = 0; k < 2; k++) o.faces.push_back(f.boundingCells[k]); for (int k = 0; k < 3; k++) o.faces.push_back(f.boundingNodes[k]); o.faces.push_back(f.globalID); for (int k = 0; k < 2; k++) o.faces.push_back(f.partition[k]);
        o.faces.push_back(f.boundaryType == ParallelMesh::MeshBoundary ? 0 : f.boundaryType == ParallelMesh::PartitionBoundary ? 1 : f.boundaryType == ParallelMesh::NotBoundary ? 2 : 99); }
    for (const auto &n : p.nodeData) { for (int k = 0; k < 3; k++) o.nodes.push_back(n.coords[k]); o.nodeIds.push_back(n.globalID); }
}
static void fromParallel(const ParallelMesh &m, McParallel &o)
{
    o = McParallel(); o.version = m.c_version; o.np = m.c_numPartitions; o.offsets = m.c_bytesOffset; o.parts.resize(m.c_partitionData.size());
    for (size_t i = 0; i < o.parts.size(); i++) fromPart(m.c_partitionData[i], o.parts[i]);
}
extern "C" void mcs_smesh_write(const McSerial &in, const char *f) { SerialMesh m; toSerial(in, m); m.write(f); }
extern "C" void mcs_smesh_read(const char *f, McSerial &o) { SerialMesh m; m.read(f); fromSerial(m, o); }
extern "C" void mcs_smesh_rewrite(const char *f, const char *g) { SerialMesh m; m.read(f); m.write(g); }
extern "C" void mcs_pmesh_create(const McSerial &in, const std::vector<uint64_t> &pv, int np, McParallel &o, const char *file)
{ SerialMesh m; toSerial(in, m); ParallelMesh p; p.createFromSerialMesh(m, pv, np); fromParallel(p, o); if (file) p.write(file); }
extern "C" void mcs_pmesh_read(const char *f, McParallel &o) { ParallelMesh p; p.read(f); fromParallel(p, o); }
extern "C" void mcs_pmesh_rewrite(const char *f, const char *g) { ParallelMesh p; p.read(f); p.write(g); }
#ifndef PARALLEL_MESH_READ_SERIAL_ONLY
extern "C" void mcs_pmesh_readpar(const char *f, McPart &o) { ParallelMesh::PartitionData p; ParallelMesh::readInParallel(f, p); fromPart(p, o); }
#endif
