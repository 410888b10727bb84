From dabff0fb1df4239d5a1f61cb48d4b57998d914a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 01/18] fix: ask MPI for the thread level that is used

OriginalTycho2 calls MPI from every OpenMP thread (one at a time), which
MPI_THREAD_SINGLE does not allow.
---
 src/Main.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Main.cc b/src/Main.cc
index 8e4b39b..380404d 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -194,7 +194,9 @@ int main(int argc, char *argv[])
     
     
     // Init MPI
-    int required = MPI_THREAD_SINGLE;
+    // SweepType OriginalTycho2 makes MPI calls from all OpenMP threads, but only
+    // from one thread at a time
+    int required = MPI_THREAD_SERIALIZED;
     int provided = MPI_THREAD_SINGLE;
     int mpiResult = MPI_Init_thread(&argc, &argv, required, &provided);
     Insist (mpiResult == MPI_SUCCESS, "MPI_Init failed.");
-- 
2.43.0


From fb9d87a802aa4ab3ceeb48a1f80eabe3c7761e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 02/18] fix: sweep schedule setup deadlocks when MPI does not
 buffer its sends

All ranks did blocking sends to their neighbors before the first receive.
---
 src/Comm.cc          | 40 +++++++++++++++++++++
 src/Comm.hh          |  4 +++
 src/SweepSchedule.cc | 85 +++++++++++++++++++++++++++++++++++---------
 3 files changed, 112 insertions(+), 17 deletions(-)

diff --git a/src/Comm.cc b/src/Comm.cc
index 549903b..79fe75d 100644
--- a/src/Comm.cc
+++ b/src/Comm.cc
@@ -198,6 +198,33 @@ void sendUIntVector(const std::vector<UINT> &buffer, int destination)
 }
 
 
+/*
+    iSendUInt
+
+    Asynchronous send of a single integer value.
+    i must not change until the send is complete.
+*/
+void iSendUInt(const UINT &i, int destination, MPI_Request &request)
+{
+    int result = MPI_Isend(const_cast<UINT*>(&i), 1, MPI_UINT64_T, destination, 
+                           INT_TAG, MPI_COMM_WORLD, &request);
+    Insist(result == MPI_SUCCESS, "Comm::iSendUInt MPI error.\n");
+}
+
+
+/*
+    iSendUIntVector
+    
+    Asynchronous send of a vector of integer values.
+    buffer must not change until the send is complete.
+*/
+void iSendUIntVector(const std::vector<UINT> &buffer, int destination, 
+                     MPI_Request &request)
+{
+    iSendUIntVector(buffer, destination, INT_TAG, request);
+}
+
+
 /*
     iSendUIntVector
     
@@ -280,6 +307,19 @@ void recvDoubleVector(std::vector<double> &buffer, int destination, int tag)
 }
 
 
+/*
+    waitall
+    
+    Waits for all requests to complete.
+*/
+void waitall(std::vector<MPI_Request> &requests)
+{
+    int result = MPI_Waitall(requests.size(), requests.data(), 
+                             MPI_STATUSES_IGNORE);
+    Insist(result == MPI_SUCCESS, "Comm::waitall MPI error.\n");
+}
+
+
 /*
     barrier
     
diff --git a/src/Comm.hh b/src/Comm.hh
index 3472dbe..4cc108b 100644
--- a/src/Comm.hh
+++ b/src/Comm.hh
@@ -60,6 +60,9 @@ void gmax(UINT &x);
 
 void sendUInt(UINT i, int destination);
 void sendUIntVector(const std::vector<UINT> &buffer, int destination);
+void iSendUInt(const UINT &i, int destination, MPI_Request &request);
+void iSendUIntVector(const std::vector<UINT> &buffer, int destination, 
+                     MPI_Request &request);
 void iSendUIntVector(const std::vector<UINT> &buffer, int destination, 
                      int tag, MPI_Request &request);
 void iSendDoubleVector(const std::vector<double> &buffer, int destination, 
@@ -70,6 +73,7 @@ void recvUIntVector(std::vector<UINT> &buffer, int destination);
 void recvUIntVector(std::vector<UINT> &buffer, int destination, int tag);
 void recvDoubleVector(std::vector<double> &buffer, int destination, int tag);
 
+void waitall(std::vector<MPI_Request> &requests);
 void barrier();
 
 void openFileForRead(const std::string &filename, MPI_File &file);
diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 864c789..f0cba25 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -260,17 +260,63 @@ void updateLevels(const vector<SweepSchedule::Work> &workDone,
 }
 
 
+/*
+    SendBuffers
+    
+    Data for nonblocking sends.  Must not be changed until the sends complete.
+    All processors send before they receive, so blocking sends would deadlock 
+    for messages that aren't buffered by MPI.
+*/
+struct SendBuffers
+{
+    vector<UINT> c_nSides;          // For each neighbor processor
+    vector<vector<UINT> > c_data;   // For each processor
+    vector<MPI_Request> c_requests;
+};
+
+
+/*
+    sendBufferData
+    
+    Starts sending the data in sendBuffers to all neighbor processors.
+    Size of the data is divided by dataPerSide to get number of sides.
+*/
+static
+void sendBufferData(SendBuffers &sendBuffers, const UINT dataPerSide, 
+                    const set<UINT> &neighborProcs)
+{
+    sendBuffers.c_nSides.reserve(neighborProcs.size());
+    for (UINT proc : neighborProcs) {
+        const vector<UINT> &data = sendBuffers.c_data[proc];
+        MPI_Request request;
+        
+        sendBuffers.c_nSides.push_back(data.size() / dataPerSide);
+        Comm::iSendUInt(sendBuffers.c_nSides.back(), proc, request);
+        sendBuffers.c_requests.push_back(request);
+        
+        if (data.size() > 0) {
+            Comm::iSendUIntVector(data, proc, request);
+            sendBuffers.c_requests.push_back(request);
+        }
+    }
+}
+
+
 /*
     sendLevels
+    
+    Sends are complete after waiting for the requests in sendBuffers.
 */
 static
 void sendLevels(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat2<UINT> &cellLevels,
                 const Mat3<bool> &hasParent,
-                const set<UINT> &neighborProcs)
+                const set<UINT> &neighborProcs,
+                SendBuffers &sendBuffers)
 {
-    vector<vector<UINT> > commSidesAnglesLevels(Comm::numRanks());
+    vector<vector<UINT> > &commSidesAnglesLevels = sendBuffers.c_data;
+    commSidesAnglesLevels.resize(Comm::numRanks());
     
     for (const SweepSchedule::Work &work : workDone) {
         UINT cell = work.getCell();
@@ -291,13 +337,7 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
         }
     }
     
-    for(UINT proc : neighborProcs) {
-        UINT nSides = commSidesAnglesLevels[proc].size()/3;
-        Comm::sendUInt(nSides, proc);
-        if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAnglesLevels[proc], proc);
-        }
-    }
+    sendBufferData(sendBuffers, 3, neighborProcs);
 }
 
 
@@ -340,15 +380,19 @@ void recvLevels(Mat2<UINT> &cellLevels, Mat2<UINT> &sideLevels,
 
 /*
     sendOrders
+    
+    Sends are complete after waiting for the requests in sendBuffers.
 */
 static
 void sendOrders(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat3<bool> &hasChild,
                 const set<UINT> &neighborProcs,
-                vector<vector<UINT> > &sendProcs)
+                vector<vector<UINT> > &sendProcs,
+                SendBuffers &sendBuffers)
 {
-    vector<vector<UINT> > commSidesAngles(Comm::numRanks());
+    vector<vector<UINT> > &commSidesAngles = sendBuffers.c_data;
+    commSidesAngles.resize(Comm::numRanks());
     
     for (const SweepSchedule::Work &work : workDone) {
         UINT cell = work.getCell();
@@ -369,14 +413,13 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
 
     vector<UINT> stepSendProcs;
     for (UINT proc : neighborProcs) {
-        UINT nSides = commSidesAngles[proc].size()/2;
-        Comm::sendUInt(nSides, proc);
-        if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAngles[proc], proc);
+        if (commSidesAngles[proc].size() > 0) {
             stepSendProcs.push_back(proc);
         }
     }
     sendProcs.push_back(stepSendProcs);
+    
+    sendBufferData(sendBuffers, 2, neighborProcs);
 }
 
 
@@ -446,9 +489,13 @@ void calcOrdering(const Mat3<bool> &hasChild,
         partialTopoSort(availableWork, nParentsNeeded, hasChild, priorities, 
                         maxCellsPerStep, angles, workDone);
         workOrders.push_back(workDone);
-        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs);
+        
+        SendBuffers sendBuffers;
+        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs, 
+                   sendBuffers);
         recvOrders(availableWork, priorities, nParentsNeeded, neighborProcs, 
                    recvProcs);
+        Comm::waitall(sendBuffers.c_requests);
 
         UINT stepSize = workDone.size();
         Comm::gmax(stepSize);
@@ -493,9 +540,13 @@ UINT calcLevels(Mat2<UINT> &cellLevels,
         partialTopoSort(availableWork, nChildrenNeeded, hasParent, priorities, 
                         maxCellsPerStep, angles, workDone);
         updateLevels(workDone, angles, cellLevels, hasParent);
-        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs);
+        
+        SendBuffers sendBuffers;
+        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs, 
+                   sendBuffers);
         recvLevels(cellLevels, sideLevels, availableWork, priorities,
                    nChildrenNeeded, neighborProcs);
+        Comm::waitall(sendBuffers.c_requests);
     }
     
     UINT nlevels = cellLevels[0];
-- 
2.43.0


From 59f7af587b3201fb8fd2ddb0cdb09f54d5f1c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 03/18] fix: CapsaicinTwoSided traversal deadlocks when MPI
 does not buffer its sends

Two ranks that send to each other waited for their sends before receiving.
---
 src/GraphTraverser.cc | 30 ++++++++++++++++++------------
 src/GraphTraverser.hh |  3 ++-
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index d5e9881..693f26b 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -180,11 +180,13 @@ UINT angleGroupIndex(UINT angle)
     sendData2Sided
 
     Implements two-sided MPI for sending data.
+    The sends are only started.  sendBuffers must not change until 
+    mpiSendRequests are complete.
 */
 void GraphTraverser::sendData2Sided(
-    const vector<vector<char>> &sendBuffers) const
+    const vector<vector<char>> &sendBuffers,
+    vector<MPI_Request> &mpiSendRequests) const
 {
-    vector<MPI_Request> mpiSendRequests;
     UINT numAdjRanks = c_adjRankIndexToRank.size();
     int mpiError;
 
@@ -206,14 +208,6 @@ void GraphTraverser::sendData2Sided(
             mpiSendRequests.push_back(request);
         }
     }
-    
-    
-    // Make sure all sends are done
-    if (mpiSendRequests.size() > 0) {
-        mpiError = MPI_Waitall(mpiSendRequests.size(), mpiSendRequests.data(), 
-                               MPI_STATUSES_IGNORE);
-        Insist(mpiError == MPI_SUCCESS, "");
-    }
 }
 
 
@@ -668,12 +662,24 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
                 sendAndRecvData(sendBuffers1, dataPackets, commDark, killComm);
             }
             else if (g_mpiType == MPIType_CapsaicinTwoSided) {
+                vector<MPI_Request> mpiSendRequests;
+                int sendsDone = 0;
+                
                 sendTimer.start();
-                sendData2Sided(sendBuffers1);
+                sendData2Sided(sendBuffers1, mpiSendRequests);
                 sendTimer.stop();
 
+                // Keep receiving until all sends are done.
+                // Only waiting on the sends deadlocks if two ranks send to 
+                // each other and MPI doesn't buffer the messages.
                 recvTimer.start();
-                recvData2Sided(dataPackets);
+                do {
+                    recvData2Sided(dataPackets);
+                    int mpiError = MPI_Testall(mpiSendRequests.size(), 
+                                               mpiSendRequests.data(), 
+                                               &sendsDone, MPI_STATUSES_IGNORE);
+                    Insist(mpiError == MPI_SUCCESS, "");
+                } while (!sendsDone);
                 recvTimer.stop();
             }
             else {
diff --git a/src/GraphTraverser.hh b/src/GraphTraverser.hh
index 0784ca0..bd0c835 100644
--- a/src/GraphTraverser.hh
+++ b/src/GraphTraverser.hh
@@ -105,7 +105,8 @@ public:
 
 private:
 
-    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers) const;
+    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers,
+                        std::vector<MPI_Request> &mpiSendRequests) const;
     void recvData2Sided(std::vector<char> &dataPackets) const;
     void sendAndRecvData(const std::vector<std::vector<char>> &sendBuffers,
                          std::vector<char> &dataPackets,
-- 
2.43.0


From c8096782048912c3a85358b52d3766711917ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 04/18] fix: buffers of pending sends in TychoMesh, match sides
 by global index

cellFace was on the stack and reused while its Isend was pending.  The
receiver assumed the sender's sides come in its own order.
---
 src/TychoMeshIO.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index 42b95a2..4e6cc77 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -296,7 +296,10 @@ void TychoMesh::readTychoMesh(const std::string &filename)
     
     
     // c_adjCellFromSide, c_adjFaceFromSide
+    // Send (global side, cell, face) for each side.  The sides of this rank 
+    // aren't necessarily in the same order as the sides of the adjacent rank.
     vector<MPI_Request> mpiRequests;
+    Mat2<UINT> sendData(3, c_nSides);
     for(UINT  cell = 0; cell < g_nCells; cell++) {
     for(UINT face = 0; face < g_nFacePerCell; face++) {
         UINT adjProc = c_adjProc(cell, face);
@@ -304,11 +307,12 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
             MPI_Request request;
-            UINT cellFace[2];
-            cellFace[0] = cell;
-            cellFace[1] = face;
-            MPI_Isend(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
-                      MPI_COMM_WORLD, &request);
+            UINT side = c_side(cell, face);
+            sendData(0, side) = c_lGSides(side);
+            sendData(1, side) = cell;
+            sendData(2, side) = face;
+            MPI_Isend(&sendData(0, side), 3 * sizeof(UINT), MPI_CHAR, adjProc, 
+                      0, MPI_COMM_WORLD, &request);
             mpiRequests.push_back(request);
         }
     }}
@@ -321,15 +325,16 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         UINT adjCell = c_adjCell(cell, face);
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
-            UINT cellFace[2];
-            MPI_Recv(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
+            UINT recvData[3];
+            MPI_Recv(recvData, 3 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
                      MPI_COMM_WORLD, MPI_STATUS_IGNORE);
-            c_adjCellFromSide(c_side(cell, face)) = cellFace[0];
-            c_adjFaceFromSide(c_side(cell, face)) = cellFace[1];
+            UINT side = c_gLSides.at(recvData[0]);
+            c_adjCellFromSide(side) = recvData[1];
+            c_adjFaceFromSide(side) = recvData[2];
         }
     }}
     
-    MPI_Waitall(mpiRequests.size(), &mpiRequests[0], MPI_STATUSES_IGNORE);
+    MPI_Waitall(mpiRequests.size(), mpiRequests.data(), MPI_STATUSES_IGNORE);
 }
 
 
-- 
2.43.0


From f9554b78280c60c577623252d49617418c5690cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 05/18] fix: TychoMesh::getAdjFace returned the adjacent cell

---
 src/TychoMesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 5aba20b..980bd85 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -78,7 +78,7 @@ public:
     UINT getAdjCell(UINT cell, UINT face) const
         { return c_adjCell(cell, face); }
     UINT getAdjFace(UINT cell, UINT face) const
-        { return c_adjCell(cell, face); }
+        { return c_adjFace(cell, face); }
     UINT getSideCell(UINT side) const
         { return c_sideCell(side); }
     UINT getSide(UINT cell, UINT face) const
-- 
2.43.0


From 8d482f69f3c067eafdc11a30d355e3765dce24b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 06/18] fix: faces parallel to an angle

Such a face was incoming for both of its cells when omega dot n is 0 (graph
traversal never ended, number of packets didn't match in CommSides), and
outgoing or incoming for both cells depending on rounding errors.
---
 src/CommSides.cc      | 2 +-
 src/GraphTraverser.cc | 3 ++-
 src/TychoMesh.hh      | 7 +++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/CommSides.cc b/src/CommSides.cc
index 80a1ab7..dc47dba 100644
--- a/src/CommSides.cc
+++ b/src/CommSides.cc
@@ -92,7 +92,7 @@ CommSides::CommSides()
                         
                         c_numSendPackets[rankIndex]++;
                     }
-                    else {
+                    else if (g_tychoMesh->isIncoming(angle, cell, face)) {
                         c_numRecvPackets[rankIndex]++;
                     }
                 }
diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index 693f26b..6e31663 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -591,7 +591,8 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
                             isOutgoingWrtDirection[face] = false;
                         }
                         else {
-                            isOutgoingWrtDirection[face] = true;
+                            isOutgoingWrtDirection[face] = 
+                                g_tychoMesh->isIncoming(angle, cell, face);
                         }
                     }
                 }
diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 980bd85..e210dad 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -104,10 +104,13 @@ public:
         { return c_faceArea(cell, face); }
     UINT getNeighborVrtx(const UINT cell, const UINT face, const UINT fvrtx) const
         { return c_neighborVrtx(cell, face, fvrtx); }
+    // A face parallel to the angle (up to rounding) is neither outgoing nor 
+    // incoming, so both cells of a face always agree.
+    // Same tolerance as SweepSchedule.
     bool isOutgoing(const UINT angle, const UINT cell, const UINT face) const
-        { return getOmegaDotN(angle, cell, face) > 0; }
+        { return getOmegaDotN(angle, cell, face) > 1e-10; }
     bool isIncoming(const UINT angle, const UINT cell, const UINT face) const
-        { return !isOutgoing(angle, cell, face); }
+        { return getOmegaDotN(angle, cell, face) < -1e-10; }
     UINT getAdjCellFromSide(const UINT side) const
         { return c_adjCellFromSide(side); }
     UINT getAdjFaceFromSide(const UINT side) const
-- 
2.43.0


From aabd10ead4fdc5b537f29e8d8749c12a557827e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 07/18] fix: negative priorities wrapped around to the largest
 priorities

With DFDS and DFHDS, cells whose descendants are all on the same processor got
the highest priority instead of the lowest.
---
 src/Priorities.cc    |  6 +++++-
 src/SweepSchedule.cc | 10 +++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Priorities.cc b/src/Priorities.cc
index 084fc97..a42c6d7 100644
--- a/src/Priorities.cc
+++ b/src/Priorities.cc
@@ -245,7 +245,11 @@ public:
             
             else if (bdryType[face] == BoundaryType_OutInt) {
                 UINT adjCell = adjCellsSides[face];
-                priority = c_priorities(adjCell, angle) + c_parentShift;
+                
+                // 0 means no descendants off processor.  It can't get smaller.
+                priority = c_priorities(adjCell, angle);
+                if (priority > 0)
+                    priority += c_parentShift;
             }
             
             c_priorities(cell, angle) = max(c_priorities(cell, angle), priority);
diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index f0cba25..8bb4f5d 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -595,7 +595,7 @@ void updatePriorities(Mat2<UINT> &priorities,
                       const vector<SweepSchedule::Work> &workDone,
                       const vector<UINT> &angles, 
                       const Mat3<bool> &hasParent,
-                      const UINT parentShift)
+                      const int parentShift)
 {
     for (const SweepSchedule::Work &work : workDone) {
         UINT cell = work.getCell();
@@ -605,9 +605,13 @@ void updatePriorities(Mat2<UINT> &priorities,
             if (hasParent(angle, cell, face) &&
                 adjCell != TychoMesh::BOUNDARY_FACE) // on processor
             {
+                // 0 means no descendants off processor.  It can't get smaller.
+                UINT priority = priorities(angle, cell);
+                if (priority > 0)
+                    priority += parentShift;
+                
                 priorities(angle, adjCell) =
-                    max(priorities(angle, adjCell),
-                        priorities(angle, cell) + parentShift);
+                    max(priorities(angle, adjCell), priority);
             }
         }
     }
-- 
2.43.0


From 9b06a1c92ecf54599824590ea076937c7438bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 08/18] fix: sweeper buffers of pending sends were freed or
 cleared

nSidesData was local to each send, and commSidesAngles and commPsi were cleared
right after starting the sends.
---
 src/Sweeper.cc | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/Sweeper.cc b/src/Sweeper.cc
index 00a5921..ed85e8c 100644
--- a/src/Sweeper.cc
+++ b/src/Sweeper.cc
@@ -109,10 +109,15 @@ void setBoundData(PsiBoundData &psiBound, const vector<UINT> &commSides,
     send
     
     Send side data.
+    The sent data is kept in commSidesAngles, commPsi, and nSidesData.
+    These must not be changed until mpiRequests are complete.  Afterwards call 
+    clearSentData.
 */
 static
 void send(const UINT step, const UINT angleGroup,
-          Mat2<vector<UINT>> &commSidesAngles, Mat2<vector<double>> &commPsi,
+          const Mat2<vector<UINT>> &commSidesAngles, 
+          const Mat2<vector<double>> &commPsi,
+          Mat2<vector<UINT>> &nSidesData,
           vector<MPI_Request> &mpiRequests)
 {
     if (step < g_sweepSchedule[angleGroup]->nSteps()) {
@@ -121,12 +126,13 @@ void send(const UINT step, const UINT angleGroup,
             MPI_Request mpiRequest;
             UINT nSides = commSidesAngles(angleGroup, proc).size() / 2;
             UINT nData = commPsi(angleGroup, proc).size();
-            vector<UINT> nSidesData = {nSides, nData};
+            nSidesData(angleGroup, proc) = {nSides, nData};
             int tag0 = angleGroup * 3 + 0;
             int tag1 = angleGroup * 3 + 1;
             int tag2 = angleGroup * 3 + 2;
     
-            Comm::iSendUIntVector(nSidesData, proc, tag0, mpiRequest);
+            Comm::iSendUIntVector(nSidesData(angleGroup, proc), proc, tag0, 
+                                  mpiRequest);
             mpiRequests.push_back(mpiRequest);
             if (nSides > 0) {
                 Comm::iSendUIntVector(commSidesAngles(angleGroup, proc), proc, 
@@ -136,7 +142,23 @@ void send(const UINT step, const UINT angleGroup,
                                         tag2, mpiRequest);
                 mpiRequests.push_back(mpiRequest);
             }
-            
+        }
+    }
+}
+
+
+/*
+    clearSentData
+    
+    Clear data sent by send.  Only call this when the sends are complete.
+*/
+static
+void clearSentData(const UINT step, const UINT angleGroup,
+                   Mat2<vector<UINT>> &commSidesAngles, 
+                   Mat2<vector<double>> &commPsi)
+{
+    if (step < g_sweepSchedule[angleGroup]->nSteps()) {
+        for (UINT proc : g_sweepSchedule[angleGroup]->getSendProcs(step)) {
             commSidesAngles(angleGroup, proc).clear();
             commPsi(angleGroup, proc).clear();
         }
@@ -390,6 +412,7 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
     // Communication variables
     Mat2<vector<UINT>> commSidesAngles(g_nAngleGroups, Comm::numRanks());
     Mat2<vector<double>> commPsi(g_nAngleGroups, Comm::numRanks());
+    Mat2<vector<UINT>> nSidesData(g_nAngleGroups, Comm::numRanks());
     PsiBoundData psiBound;
     
     
@@ -423,15 +446,20 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
             vector<MPI_Request> mpiRequests;
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {    
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                send(step, angleGroup, commSidesAngles, commPsi, nSidesData, 
+                     mpiRequests);
             }
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {
                 recv(step, angleGroup, psiBound);
             }
             
-            MPI_Waitall(mpiRequests.size(), &mpiRequests[0], MPI_STATUSES_IGNORE);
+            MPI_Waitall(mpiRequests.size(), mpiRequests.data(), MPI_STATUSES_IGNORE);
             //Comm::barrier();
+            
+            for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {
+                clearSentData(step, angleGroup, commSidesAngles, commPsi);
+            }
         }
     }
     
@@ -472,10 +500,12 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
                 
                 // Nonblocking send and blocking recv
                 vector<MPI_Request> mpiRequests;
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                send(step, angleGroup, commSidesAngles, commPsi, nSidesData, 
+                     mpiRequests);
                 recv(step, angleGroup, psiBound);
-                MPI_Waitall(mpiRequests.size(), &mpiRequests[0], 
+                MPI_Waitall(mpiRequests.size(), mpiRequests.data(), 
                             MPI_STATUSES_IGNORE);
+                clearSentData(step, angleGroup, commSidesAngles, commPsi);
                 
                 
                 // Barrier all MPI ranks for thread 'commNumber'
-- 
2.43.0


From 23b429f10af0b17c168f3e22c083c3c7e87d86e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 09/18] fix: source of the hat problem is NaN for a node at the
 center of the cube

---
 src/Problem.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Problem.cc b/src/Problem.cc
index 3e285b6..6abbcd5 100644
--- a/src/Problem.cc
+++ b/src/Problem.cc
@@ -69,7 +69,12 @@ void hatSource(PsiData &source)
         double c = sqrt(x*x + y*y + z*z);
         
         for(UINT group = 0; group < g_nGroups; group++) {
-            if(c <= 30.0) {
+            if(c == 0.0) {
+                // Top of the hat, where there is no gradient
+                source(group, vrtx, angle, cell) = 
+                    g_sigmaT[cell] - g_sigmaS[cell];
+            }
+            else if(c <= 30.0) {
                 source(group, vrtx, angle, cell) = 
                     - x / (30.0*c) * xi - y / (30.0*c) * eta - z / (30.0*c) * mu
                     + (g_sigmaT[cell] - g_sigmaS[cell]) * (1.0 - c / 30.0);
-- 
2.43.0


From 57c31b11e98083b8f9a17c56e6863a2109d97872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 10/18] fix: diffBetweenGroups is NaN if a rank's flux is zero

The difference was also relative to the largest flux of one rank only.
---
 src/Util.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Util.cc b/src/Util.cc
index 6fe1f20..f0d481d 100644
--- a/src/Util.cc
+++ b/src/Util.cc
@@ -73,9 +73,10 @@ double diffBetweenGroups(const PsiData &psi)
         }
     }}}
     
-    maxDiff = maxDiff / maxEntry;
+    // The largest entry of any rank, since psi can be zero on this rank
     Comm::gmax(maxDiff);
-    return maxDiff;
+    Comm::gmax(maxEntry);
+    return (maxEntry > 0.0) ? maxDiff / maxEntry : maxDiff;
 }
 
 
-- 
2.43.0


From c179e369d43824436848e62f189072813ef37ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 11/18] fix: line number in errors of KeyValueReader

The number was appended as a character.
---
 src/KeyValueReader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/KeyValueReader.cc b/src/KeyValueReader.cc
index 6be286f..a492f30 100644
--- a/src/KeyValueReader.cc
+++ b/src/KeyValueReader.cc
@@ -329,7 +329,7 @@ void KeyValueReader::readFile(const string &filename)
         if (!parseOk) {
             totalParseOk = false;
             string errorString = "Parse error on line ";
-            errorString += lineNum;
+            errorString += to_string(lineNum);
             c_data->printMessage(errorString);
         }
         
@@ -337,7 +337,7 @@ void KeyValueReader::readFile(const string &filename)
         else if (findKey(c_data->c_keyVector, key) != KEY_NOT_FOUND) {
             totalParseOk = false;
         	string errorString = "Duplicate key on line ";
-            errorString += lineNum;
+            errorString += to_string(lineNum);
             c_data->printMessage(errorString);
         }
         
-- 
2.43.0


From 3283ee09a1d17ab2c7f45e8d2e95ce107d7a98c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 12/18] fix: KeyValueReader took numbers followed by something
 else

For example 1e-6 read as int was 1 and 1.5x read as double was 1.5.
---
 src/KeyValueReader.cc | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/KeyValueReader.cc b/src/KeyValueReader.cc
index a492f30..54dcff6 100644
--- a/src/KeyValueReader.cc
+++ b/src/KeyValueReader.cc
@@ -401,6 +401,7 @@ void KeyValueReader::getString(const std::string &key, std::string &value) const
 void KeyValueReader::getInt(const std::string &key, int &value) const
 {
     string valueString;
+    bool conversionOk = false;
     
     // Default value
     value = 0;
@@ -410,9 +411,17 @@ void KeyValueReader::getInt(const std::string &key, int &value) const
     
     // Convert to int
     try {
-        value = stoi(valueString);
+        size_t numChars = 0;
+        value = stoi(valueString, &numChars);
+        conversionOk = (numChars == valueString.size());
     }
     catch (...) {
+        conversionOk = false;
+    }
+    
+    // The entire string must be the value
+    if (!conversionOk) {
+        value = 0;
         c_data->printMessage("Error converting value to int");
         throw ExceptionStringConversionError;
     }
@@ -429,6 +438,7 @@ void KeyValueReader::getInt(const std::string &key, int &value) const
 void KeyValueReader::getDouble(const std::string &key, double &value) const
 {
     string valueString;
+    bool conversionOk = false;
     
     // Default value
     value = 0.0;
@@ -438,9 +448,17 @@ void KeyValueReader::getDouble(const std::string &key, double &value) const
     
     // Convert to double
     try {
-        value = stod(valueString);
+        size_t numChars = 0;
+        value = stod(valueString, &numChars);
+        conversionOk = (numChars == valueString.size());
     }
     catch (...) {
+        conversionOk = false;
+    }
+    
+    // The entire string must be the value
+    if (!conversionOk) {
+        value = 0.0;
         c_data->printMessage("Error converting value to double");
         throw ExceptionStringConversionError;
     }
@@ -457,6 +475,7 @@ void KeyValueReader::getDouble(const std::string &key, double &value) const
 void KeyValueReader::getFloat(const std::string &key, float &value) const
 {
     string valueString;
+    bool conversionOk = false;
     
     // Default value
     value = 0.0f;
@@ -466,9 +485,17 @@ void KeyValueReader::getFloat(const std::string &key, float &value) const
     
     // Convert value to float
     try {
-        value = stof(valueString);
+        size_t numChars = 0;
+        value = stof(valueString, &numChars);
+        conversionOk = (numChars == valueString.size());
     }
     catch (...) {
+        conversionOk = false;
+    }
+    
+    // The entire string must be the value
+    if (!conversionOk) {
+        value = 0.0f;
         c_data->printMessage("Error converting value to float");
         throw ExceptionStringConversionError;
     }
-- 
2.43.0


From 44840167bac9f7cfe6c6dd2a0466c881385df603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 13/18] fix: refuse bad values in the input deck

An unknown GaussElim was ignored, maxCellsPerStep 0 never ended, negative
values were converted to large unsigned numbers, and priorities out of range
were ignored.
---
 src/Main.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Main.cc b/src/Main.cc
index 380404d..03edc61 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -121,6 +121,15 @@ void readInput(const string &inputFileName,
     kvr.getDouble("DD_ErrMax", g_ddErrMax);
     kvr.getBool("SourceIteration", g_useSourceIteration);
        
+    // Check values
+    Insist(snOrder > 0, "snOrder must be positive.");
+    Insist(iterMax >= 0, "iterMax can't be negative.");
+    Insist(maxCellsPerStep > 0, "maxCellsPerStep must be positive.");
+    Insist(intraAngleP >= 0 && intraAngleP <= 4, "intraAngleP must be 0 to 4.");
+    Insist(interAngleP >= 0 && interAngleP <= 2, "interAngleP must be 0 to 2.");
+    Insist(nGroups > 0, "nGroups must be positive.");
+    Insist(ddIterMax >= 0, "DD_IterMax can't be negative.");
+    
     g_snOrder = snOrder;
     g_iterMax = iterMax;
     g_maxCellsPerStep = maxCellsPerStep;
@@ -174,7 +183,8 @@ void readInput(const string &inputFileName,
         g_gaussElim = GaussElim_CramerGlu;
     else if (gaussElimMethod == "CramerIntel")
         g_gaussElim = GaussElim_CramerIntel;
-
+    else
+        Insist(false, "Gaussian elimination method not recognized.");
 }
 
 
-- 
2.43.0


From 8343d2fd54727151beb958c3ef603e0ecbbb1185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 14/18] fix: truncated parallel mesh files were used without an
 error

MPI_File_read succeeds at the end of the file, so the number of bytes that
were read has to be checked.
---
 src/Comm.cc | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/Comm.cc b/src/Comm.cc
index 79fe75d..884a20b 100644
--- a/src/Comm.cc
+++ b/src/Comm.cc
@@ -403,6 +403,25 @@ void seek(const MPI_File &file, uint64_t position)
 }
 
 
+/*
+    readBytes
+    
+    Read bytes from file.
+    It is an error if the file ends before all bytes are read.
+*/
+static
+void readBytes(const MPI_File &file, void *data, int numBytes)
+{
+    MPI_Status status;
+    int numRead = 0;
+    int result = MPI_File_read(file, data, numBytes, MPI_BYTE, &status);
+    Insist(result == MPI_SUCCESS, "Comm::readBytes MPI error.\n");
+    result = MPI_Get_count(&status, MPI_BYTE, &numRead);
+    Insist(result == MPI_SUCCESS, "Comm::readBytes MPI error (count).\n");
+    Insist(numRead == numBytes, "Comm::readBytes end of file.\n");
+}
+
+
 /*
     readUint64
     
@@ -410,9 +429,7 @@ void seek(const MPI_File &file, uint64_t position)
 */
 void readUint64(const MPI_File &file, uint64_t &data)
 {
-    int result = MPI_File_read(file, &data, sizeof(uint64_t), MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
-    Insist(result == MPI_SUCCESS, "Comm::readSizeT MPI error.\n");
+    readBytes(file, &data, sizeof(uint64_t));
 }
 
 
@@ -423,9 +440,7 @@ void readUint64(const MPI_File &file, uint64_t &data)
 */
 void readUint64(const MPI_File &file, uint64_t *data, int numData)
 {
-    int result = MPI_File_read(file, data, sizeof(uint64_t) * numData, MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
-    Insist(result == MPI_SUCCESS, "Comm::readSizeT[] MPI error.\n");
+    readBytes(file, data, sizeof(uint64_t) * numData);
 }
 
 
@@ -436,9 +451,7 @@ void readUint64(const MPI_File &file, uint64_t *data, int numData)
 */
 void readChars(const MPI_File &file, char *data, int numData)
 {
-    int result = MPI_File_read(file, data, sizeof(char) * numData, MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
-    Insist(result == MPI_SUCCESS, "Comm::readSizeT[] MPI error.\n");
+    readBytes(file, data, sizeof(char) * numData);
 }
 
 
-- 
2.43.0


From e87d278ef17514aa0e73ee4d4eab8a1596ed6fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 15/18] fix: RefineSerialMesh divided by zero for less than
 1000 cells

---
 util/RefineSerialMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/RefineSerialMesh.cc b/util/RefineSerialMesh.cc
index 8b93774..c0d650e 100644
--- a/util/RefineSerialMesh.cc
+++ b/util/RefineSerialMesh.cc
@@ -377,7 +377,7 @@ void refineMesh(const SerialMesh &coarseMesh, SerialMesh &refinedMesh)
     // Create the refined mesh.
     for (uint64_t coarseCell = 0; coarseCell < coarseMesh.c_numCells; coarseCell++) {
         
-        if (coarseCell % (coarseMesh.c_numCells / 1000) == 0)
+        if (coarseCell % (coarseMesh.c_numCells / 1000 + 1) == 0)
             printf("coarseCell: %" PRIu64 "\n", coarseCell);
         
         
-- 
2.43.0


From b5a70c0d7fe60dc8d298fc6fa34a0e50a149d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 16/18] fix: order the vertices of a face the same way in both
 of its cells

The ordering by coordinates was computed but not applied, so partitions
that list the nodes of a shared face in different orders exchanged
fluxes between different vertices.
---
 src/TychoMeshIO.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index 4e6cc77..75f8ac3 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -288,8 +288,8 @@ void TychoMesh::readTychoMesh(const std::string &filename)
             if(partData.faceData[face].boundingNodes[order[fvrtx]] == 
                partData.cellData[cell].boundingNodes[cvrtx])
             {
-                c_faceToCellVrtx(cell, lface, order[fvrtx]) = cvrtx;
-                c_cellToFaceVrtx(cell, lface, cvrtx) = order[fvrtx];
+                c_faceToCellVrtx(cell, lface, fvrtx) = cvrtx;
+                c_cellToFaceVrtx(cell, lface, cvrtx) = fvrtx;
             }
         }}
     }}
-- 
2.43.0


From 2e06ca8fc3377d00eb41159ce9722faa019cbba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 17/18] fix: priorities used the levels of the partition
 instead of the whole graph

The b-levels are documented to be those of the entire graph.  They were
calculated without communication, so levels at boundaries between partitions
were always zero, and BFDS priorities were always zero.
---
 src/Priorities.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Priorities.cc b/src/Priorities.cc
index a42c6d7..1b75ce6 100644
--- a/src/Priorities.cc
+++ b/src/Priorities.cc
@@ -399,15 +399,20 @@ namespace Priorities
 */
 void calcPriorities(Mat2<UINT> &priorities)
 {
-    const bool doComm = false;
-    GraphTraverser graphTraverser(Direction_Backward, doComm, sizeof(UINT));
+    // B-levels are for the entire graph, not just for this partition
+    const bool doCommGlobal = true;
+    const bool doCommLocal = false;
+    GraphTraverser graphTraverserGlobal(Direction_Backward, doCommGlobal, 
+                                        sizeof(UINT));
+    GraphTraverser graphTraverser(Direction_Backward, doCommLocal, 
+                                  sizeof(UINT));
     
     UINT numAngles = g_nAngles;
     Mat2<UINT> bLevels(g_nCells, numAngles);
     Mat2<UINT> sideBLevels(g_tychoMesh->getNSides(), numAngles);
     
     UINT maxBLevel = calcBLevels(bLevels, sideBLevels, 
-                                 &graphTraverser);
+                                 &graphTraverserGlobal);
     
     
     // Calculate intra-angle priorities
-- 
2.43.0


From 83bba20d0c8fb90e1da9e151ad6887377e8e9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:23 +0000
Subject: [PATCH 18/18] fix: ParallelMeshInfo finalizes MPI when its arguments
 are wrong

---
 util/ParallelMeshInfo.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/ParallelMeshInfo.cc b/util/ParallelMeshInfo.cc
index 9900659..a5a49d1 100644
--- a/util/ParallelMeshInfo.cc
+++ b/util/ParallelMeshInfo.cc
@@ -81,6 +81,7 @@ int main(int argc, char* argv[])
             printf("Usage: ./ParallelMeshInfo.x <inputFile> (verbose)\n");
             printf("\n\n\n");
         }
+        MPI_Finalize();
         return 0;
     }
     inputFile = argv[1];
-- 
2.43.0

