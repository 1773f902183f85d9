From 40359642e6edd9e296ae94a76e86f558de290076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:15 +0000
Subject: [PATCH 01/73] fix: moving a node onto its own position made its
 coordinates NaN

---
 libs/MeshKernel/src/Mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 9eb78f7..f7cad22 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -721,7 +721,8 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
     const auto dy = GetDy(nodeToMove, newPoint, m_projection);
 
     const double distanceNodeToMoveFromNewPointSquared = dx * dx + dy * dy;
-    const double distanceNodeToMoveFromNewPointSquaredInv = 1.0 / distanceNodeToMoveFromNewPointSquared;
+    // A zero displacement (the new point coincides with the node) must not lead to 0 * infinity
+    const double distanceNodeToMoveFromNewPointSquaredInv = distanceNodeToMoveFromNewPointSquared > 0.0 ? 1.0 / distanceNodeToMoveFromNewPointSquared : 0.0;
 
     std::vector<UInt> movedNodeIndex;
     std::vector<Vector> nodeDisplacement;
-- 
2.43.0


From f3d2f90545eaf96b33a8de551720869dfc09159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:58 +0000
Subject: [PATCH 02/73] fix: merging with a deleted node corrupted the mesh
 beyond undo

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 6435847..8baae5b 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2091,6 +2091,17 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
+            const auto& mesh2d = *meshKernelState[meshKernelId].m_mesh2d;
+
+            for (const int node : {firstNode, secondNode})
+            {
+                // Out of range indices are reported when merging
+                if (node >= 0 && static_cast<meshkernel::UInt>(node) < mesh2d.GetNumNodes() && !mesh2d.Node(node).IsValid())
+                {
+                    throw meshkernel::ConstraintError("The node {} has been deleted and cannot be merged.", node);
+                }
+            }
+
             meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->MergeTwoNodes(firstNode, secondNode), meshKernelId);
         }
         catch (...)
-- 
2.43.0


From 2a556458a7c9cbf27611aa01dfc6212c0d5b1bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:47 +0000
Subject: [PATCH 03/73] fix: nodes unconnected by an edit were dropped by the
 next query and not restored by undo

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 8baae5b..67fffa7 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -147,6 +147,21 @@ namespace meshkernelapi
         }
     }
 
+    /// @brief Update the administration after an edit, such that nodes and edges that became unconnected are invalidated
+    /// as part of the edit and will be restored by the undo. Otherwise the next query invalidates them, beyond the reach of the undo.
+    static std::unique_ptr<meshkernel::UndoAction> AdministrateWithUndo(meshkernel::Mesh2D& mesh, std::unique_ptr<meshkernel::UndoAction> editAction)
+    {
+        if (editAction == nullptr)
+        {
+            return editAction;
+        }
+
+        auto undoAction = meshkernel::CompoundUndoAction::Create();
+        undoAction->Add(std::move(editAction));
+        mesh.AdministrateNodesEdges(undoAction.get());
+        return undoAction;
+    }
+
     MKERNEL_API int mkernel_allocate_state(int projectionType, int& meshKernelId)
     {
         lastExitCode = meshkernel::ExitCode::Success;
@@ -2102,7 +2117,7 @@ namespace meshkernelapi
                 }
             }
 
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->MergeTwoNodes(firstNode, secondNode), meshKernelId);
+            meshKernelUndoStack.Add(AdministrateWithUndo(*meshKernelState[meshKernelId].m_mesh2d, meshKernelState[meshKernelId].m_mesh2d->MergeTwoNodes(firstNode, secondNode)), meshKernelId);
         }
         catch (...)
         {
@@ -2310,7 +2325,7 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->DeleteNode(nodeIndex), meshKernelId);
+            meshKernelUndoStack.Add(AdministrateWithUndo(*meshKernelState[meshKernelId].m_mesh2d, meshKernelState[meshKernelId].m_mesh2d->DeleteNode(nodeIndex)), meshKernelId);
         }
         catch (...)
         {
@@ -2361,7 +2376,7 @@ namespace meshkernelapi
             meshkernel::BoundingBox boundingBox{{xLowerLeftBoundingBox, yLowerLeftBoundingBox}, {xUpperRightBoundingBox, yUpperRightBoundingBox}};
 
             const auto edgeIndex = meshKernelState[meshKernelId].m_mesh2d->FindLocationIndex(point, meshkernel::Location::Edges, {}, boundingBox);
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->DeleteEdge(edgeIndex), meshKernelId);
+            meshKernelUndoStack.Add(AdministrateWithUndo(*meshKernelState[meshKernelId].m_mesh2d, meshKernelState[meshKernelId].m_mesh2d->DeleteEdge(edgeIndex)), meshKernelId);
         }
         catch (...)
         {
@@ -2380,7 +2395,7 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->DeleteEdge(edgeIndex), meshKernelId);
+            meshKernelUndoStack.Add(AdministrateWithUndo(*meshKernelState[meshKernelId].m_mesh2d, meshKernelState[meshKernelId].m_mesh2d->DeleteEdge(edgeIndex)), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From 346e290c8b5a648772b0e3bd7bbe62648b78e92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:38 +0000
Subject: [PATCH 04/73] fix: a polyline crossing an edge without faces made the
 intersection computation loop forever

---
 libs/MeshKernel/src/Mesh2DIntersections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2DIntersections.cpp b/libs/MeshKernel/src/Mesh2DIntersections.cpp
index 952acd3..1110da3 100644
--- a/libs/MeshKernel/src/Mesh2DIntersections.cpp
+++ b/libs/MeshKernel/src/Mesh2DIntersections.cpp
@@ -309,6 +309,9 @@ void Mesh2DIntersections::Compute(const std::vector<Point>& polyLine)
                                    crossingEdges);
             }
         }
+
+        // an edge without faces is not visited when intersecting the face edges, do not find it again as a seed
+        vistedEdges[crossedEdgeIndex] = true;
     }
 
     // Sort the edges for each face
-- 
2.43.0


From 8c8f0c0d802afed663121fa5a2eff8bbb89253f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:38 +0000
Subject: [PATCH 05/73] fix: the minimum edge length read nodes of deleted
 edges, crashing merge nodes

---
 libs/MeshKernel/src/Mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index f7cad22..0e83e8d 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -576,6 +576,10 @@ double Mesh::ComputeMinEdgeLength(const Polygons& polygon) const
     for (UInt e = 0; e < numEdges; e++)
     {
         const auto& [firstNode, secondNode] = m_edges[e];
+        if (firstNode == constants::missing::uintValue || secondNode == constants::missing::uintValue)
+        {
+            continue;
+        }
         if (isNodeInPolygon[firstNode] || isNodeInPolygon[secondNode])
         {
             result = std::min(result, m_edgeLengths[e]);
-- 
2.43.0


From 81452e85c820f5c97314cf6e616808b6a045dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:38 +0000
Subject: [PATCH 06/73] fix: nodes and edges invalidated while merging nodes
 were not restored by undo

---
 libs/MeshKernel/src/Mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 0e83e8d..f0836fb 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -434,7 +434,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
     std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
     filteredNodes.resize(filteredNodeCount);
 
-    AdministrateNodesEdges();
+    AdministrateNodesEdges(undoAction.get());
 
     // Update the R-Tree of the mesh nodes
     const auto nodesRtree = RTreeFactory::Create(m_projection);
@@ -461,7 +461,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
         }
     }
 
-    AdministrateNodesEdges();
+    AdministrateNodesEdges(undoAction.get());
     return undoAction;
 }
 
-- 
2.43.0


From 0eccb8b87cd66447ed7613f141d77ad2bca09f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:38 +0000
Subject: [PATCH 07/73] fix: merging two nodes overflowed a buffer when
 together they have many edges

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index f0836fb..8d02a99 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -353,7 +353,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
     }
 
     // add all valid edges starting at secondNode
-    std::vector<UInt> secondNodeEdges(m_maximumNumberOfEdgesPerNode, constants::missing::uintValue);
+    std::vector<UInt> secondNodeEdges(m_nodesNumEdges[firstNodeIndex] + m_nodesNumEdges[secondNodeIndex], constants::missing::uintValue);
     UInt numSecondNodeEdges = 0;
 
     for (UInt n = 0; n < m_nodesNumEdges[secondNodeIndex]; n++)
-- 
2.43.0


From 0023dfd8e36b8fa92cc60a6b21f999951be7d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:38 +0000
Subject: [PATCH 08/73] fix: undo of snapping a mesh to a land boundary was not
 associated with its state

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 67fffa7..a56ae97 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -515,7 +515,7 @@ namespace meshkernelapi
             landBoundary.FindNearestMeshBoundary(meshkernel::LandBoundaries::ProjectToLandBoundaryOption::InnerAndOuterMeshBoundaryToLandBoundary);
 
             // Execute algorithm
-            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries());
+            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries(), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From d9912a463f9b0c9e5e00c5085c6446e39f923daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:38 +0000
Subject: [PATCH 09/73] fix: nodes unconnected by deleting hanging edges were
 not restored by undo

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index a56ae97..fe64a83 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1208,7 +1208,7 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->DeleteHangingEdges(), meshKernelId);
+            meshKernelUndoStack.Add(AdministrateWithUndo(*meshKernelState[meshKernelId].m_mesh2d, meshKernelState[meshKernelId].m_mesh2d->DeleteHangingEdges()), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From 145a5735db954b501b186ea060a48ace74d3f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:25 +0000
Subject: [PATCH 10/73] fix: merging nodes in a mesh with deleted nodes removed
 the wrong nodes from the search tree or crashed

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 8d02a99..e9706a7 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -417,7 +417,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
     UInt filteredNodeCount = 0;
     for (UInt i = 0; i < numNodes; ++i)
     {
-        if (isNodeInPolygon[i])
+        if (isNodeInPolygon[i] && m_nodes[i].IsValid())
         {
             filteredNodes[filteredNodeCount] = m_nodes[i];
             originalNodeIndices[filteredNodeCount] = i;
-- 
2.43.0


From 76e5518f01649652ea64906b2fe16e83f3bd06af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:22 +0000
Subject: [PATCH 11/73] fix: Casulli de-refinement redirected the nodes of the
 deleted element instead of its neighbours

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index 83f8b65..7631793 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -736,7 +736,7 @@ void meshkernel::CasulliDeRefinement::RedirectNodesOfConnectedElements(Mesh2D& m
             {
                 if (faceNodeId == mesh.m_facesNodes[elementId][k])
                 {
-                    mesh.m_facesNodes[elementId][j] = nodeId;
+                    mesh.m_facesNodes[connectedElementId][j] = nodeId;
                 }
             }
         }
-- 
2.43.0


From f8bf8f66660a27a2f0c1ea2ba2bc391e52aa3714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:01 +0000
Subject: [PATCH 12/73] fix: asking the projection of an unknown state created
 that state

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index fe64a83..4330243 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -5330,7 +5330,19 @@ namespace meshkernelapi
     MKERNEL_API int mkernel_get_projection(int meshKernelId, int& projection)
     {
         lastExitCode = meshkernel::ExitCode::Success;
-        projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        try
+        {
+            if (!meshKernelState.contains(meshKernelId))
+            {
+                throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
+            }
+
+            projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        }
+        catch (...)
+        {
+            lastExitCode = HandleException();
+        }
         return lastExitCode;
     }
 
-- 
2.43.0


From 3aef04fa0443c52eacb3a14531cef60786fad64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:01 +0000
Subject: [PATCH 13/73] fix: deleting an edge with an index out of range read
 and wrote out of bounds

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index e9706a7..44f7d85 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -519,7 +519,7 @@ void Mesh::SetNode(const UInt nodeId, const Point& newValue)
 
 std::unique_ptr<meshkernel::DeleteEdgeAction> Mesh::DeleteEdge(UInt edge)
 {
-    if (edge == constants::missing::uintValue) [[unlikely]]
+    if (edge >= GetNumEdges()) [[unlikely]]
     {
         throw std::invalid_argument("Mesh::DeleteEdge: The index of the edge to be deleted does not exist.");
     }
-- 
2.43.0


From 87c0f32a4a621f9ed668758c137903f650ff03eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:01 +0000
Subject: [PATCH 14/73] fix: finding or inserting an edge between node indices
 out of range read out of bounds

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 44f7d85..d377d30 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -619,7 +619,7 @@ meshkernel::UInt Mesh::FindCommonNode(UInt firstEdgeIndex, UInt secondEdgeIndex)
 
 meshkernel::UInt Mesh::FindEdge(UInt firstNodeIndex, UInt secondNodeIndex) const
 {
-    if (firstNodeIndex == constants::missing::uintValue || secondNodeIndex == constants::missing::uintValue)
+    if (firstNodeIndex >= GetNumNodes() || secondNodeIndex >= GetNumNodes())
     {
         throw ConstraintError("Mesh::FindEdge: Invalid node index: first {}, second {}", firstNodeIndex, secondNodeIndex);
     }
-- 
2.43.0


From 31b85e54ed9a3237c045486c39ffeda6226373fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:01 +0000
Subject: [PATCH 15/73] fix: moving a node displaced deleted nodes, which made
 them valid again

---
 libs/MeshKernel/src/Mesh.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index d377d30..82b51d4 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -720,6 +720,11 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
         throw ConstraintError("Invalid node index: {}", nodeindex);
     }
 
+    if (!m_nodes[nodeindex].IsValid())
+    {
+        throw ConstraintError("The node {} has been deleted and cannot be moved.", nodeindex);
+    }
+
     const Point nodeToMove = m_nodes[nodeindex];
     const auto dx = GetDx(nodeToMove, newPoint, m_projection);
     const auto dy = GetDy(nodeToMove, newPoint, m_projection);
@@ -735,6 +740,12 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
 
     for (UInt n = 0; n < GetNumNodes(); ++n)
     {
+        // Deleted nodes stay where they are, otherwise they would become valid again
+        if (!m_nodes[n].IsValid())
+        {
+            continue;
+        }
+
         const auto nodeDx = GetDx(m_nodes[n], nodeToMove, m_projection);
         const auto nodeDy = GetDy(m_nodes[n], nodeToMove, m_projection);
         const double distanceCurrentNodeFromNewPointSquared = nodeDx * nodeDx + nodeDy * nodeDy;
-- 
2.43.0


From 67dcfda922be6c36b754f34ad7d35429673e30a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:45 +0000
Subject: [PATCH 16/73] fix: iterating a mesh orthogonalization that was not
 initialized crashed

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 4330243..a5e6c08 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1326,6 +1326,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The mesh orthogonalization has not been initialized.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->PrepareOuterIteration();
         }
         catch (...)
@@ -1350,6 +1355,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The mesh orthogonalization has not been initialized.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->Solve();
         }
         catch (...)
@@ -1408,6 +1418,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The mesh orthogonalization has not been initialized.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->FinalizeOuterIteration();
         }
         catch (...)
-- 
2.43.0


From 9db166ddf2e2719be56880d77faf2a3619dc8fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:45 +0000
Subject: [PATCH 17/73] fix: curvilinear line shift calls without
 initialization crashed

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index a5e6c08..eecac4d 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4617,6 +4617,11 @@ namespace meshkernelapi
             meshkernel::Point const firstNode{xFirstGridLineNode, yFirstGridLineNode};
             meshkernel::Point const secondNode{xSecondGridLineNode, ySecondGridLineNode};
 
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Curvilinear grid line shift algorithm instance is null.");
+            }
+
             meshKernelState[meshKernelId].m_curvilinearGridLineShift->SetLine(firstNode, secondNode);
         }
         catch (...)
@@ -4679,6 +4684,11 @@ namespace meshkernelapi
             meshkernel::Point const lowerLeftPoint{xLowerLeftCorner, yLowerLeftCorner};
             meshkernel::Point const upperRightPoint{xUpperRightCorner, yUpperRightCorner};
 
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Curvilinear grid line shift algorithm instance is null.");
+            }
+
             meshKernelState[meshKernelId].m_curvilinearGridLineShift->SetBlock(lowerLeftPoint, upperRightPoint);
         }
         catch (...)
@@ -4703,6 +4713,12 @@ namespace meshkernelapi
             }
             meshkernel::Point const fromPoint{xFromCoordinate, yFromCoordinate};
             meshkernel::Point const toPoint{xToCoordinate, yToCoordinate};
+
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Curvilinear grid line shift algorithm instance is null.");
+            }
+
             meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_curvilinearGridLineShift->MoveNode(fromPoint, toPoint), meshKernelId);
         }
         catch (...)
-- 
2.43.0


From ea6f80f92d300b6f027df2eb23e06140df9a0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:45 +0000
Subject: [PATCH 18/73] fix: asking the closest node of an unknown state
 created that state and crashed

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index eecac4d..6145135 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2897,6 +2897,11 @@ namespace meshkernelapi
                                                                                            yUpperRightBoundingBox,
                                                                                            nodeIndex));
 
+            if (lastExitCode != meshkernel::ExitCode::Success)
+            {
+                return lastExitCode;
+            }
+
             // Set the node coordinate
             const auto foundNode = meshKernelState[meshKernelId].m_mesh2d->Node(nodeIndex);
             xCoordinateOut = foundNode.x;
-- 
2.43.0


From eb090cd254446e073b351d6ef609e4b9af88e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:29 +0000
Subject: [PATCH 19/73] fix: snapping to a land boundary read out of bounds
 when a node has no nearest segment

---
 libs/MeshKernel/src/LandBoundaries.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/LandBoundaries.cpp b/libs/MeshKernel/src/LandBoundaries.cpp
index 6ced51f..1f0670f 100644
--- a/libs/MeshKernel/src/LandBoundaries.cpp
+++ b/libs/MeshKernel/src/LandBoundaries.cpp
@@ -873,6 +873,11 @@ std::vector<meshkernel::UInt> LandBoundaries::ShortestPath(UInt landBoundaryInde
                         neighboringNodeLandBoundaryNodeIndex,
                         neighboringNodeEdgeRatio] = NearestLandBoundarySegment(landBoundaryIndex, neighboringNode);
 
+            if (neighboringNodeLandBoundaryNodeIndex == constants::missing::uintValue)
+            {
+                throw AlgorithmError("ShortestPath: Cannot compute the nearest node on the land boundary.");
+            }
+
             double maximumDistance = std::max(currentNodeDistance, neighboringNodeDistance);
 
             if (currentNodeLandBoundaryNodeIndex < neighboringNodeLandBoundaryNodeIndex)
-- 
2.43.0


From 6c721c1ee5e75d6c1b685717749aa216b1b352f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:46 +0000
Subject: [PATCH 20/73] fix: contacts were lost when computing new ones failed

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 6145135..f778e97 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3590,8 +3590,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3621,8 +3622,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeMultipleContacts(meshKernel1DNodeMask);
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeMultipleContacts(meshKernel1DNodeMask);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3658,9 +3660,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeContactsWithPolygons(meshKernel1DNodeMask,
-                                                                                  meshKernelPolygons);
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeContactsWithPolygons(meshKernel1DNodeMask, meshKernelPolygons);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3693,8 +3695,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3792,8 +3795,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From c34b0382506ce2f7337f39311cd317923a3d3436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:46 +0000
Subject: [PATCH 21/73] fix: a curvilinear grid from a polygon accepted corner
 indices outside the polygon and read out of bounds

---
 .../CurvilinearGrid/CurvilinearGridFromPolygon.cpp   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
index 4262773..5d95e68 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
@@ -55,6 +55,12 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
                               firstNode, secondNode, thirdNode);
     }
 
+    if (firstNode >= m_polygon.Size() || secondNode >= m_polygon.Size() || thirdNode >= m_polygon.Size())
+    {
+        throw ConstraintError("Node selection is not in the polygon: first = {}, second = {}, third = {}, polygon size = {}",
+                              firstNode, secondNode, thirdNode, m_polygon.Size());
+    }
+
     // for the current polygon find the number of nodes
     UInt start = 0;
     UInt end = m_polygon.Size() - 1;
@@ -239,6 +245,12 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
         throw std::invalid_argument("CurvilinearGridFromPolygon::Compute: Invalid nodes.");
     }
 
+    if (firstNode >= m_polygon.Size() || secondNode >= m_polygon.Size() || thirdNode >= m_polygon.Size())
+    {
+        throw ConstraintError("Node selection is not in the polygon: first = {}, second = {}, third = {}, polygon size = {}",
+                              firstNode, secondNode, thirdNode, m_polygon.Size());
+    }
+
     // for the current polygon find the number of nodes
     UInt start = 0;
     UInt end = m_polygon.Size() - 1;
-- 
2.43.0


From a23222f1297cad9ee5f37a5e10a5630f602ca2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:46 +0000
Subject: [PATCH 22/73] fix: snapping part of a spline returned shifted points
 and read out of bounds

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index f778e97..630a4f4 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3239,7 +3239,7 @@ namespace meshkernelapi
             // Now copy back to spline (geometry-list)
             for (int i = startSplineIndex; i <= endSplineIndex; ++i)
             {
-                const meshkernel::Point& splinePoint = splineValues.m_splineNodes[0][i];
+                const meshkernel::Point& splinePoint = splineValues.m_splineNodes[0][i - startSplineIndex];
                 splines.coordinates_x[splinePointIndex] = splinePoint.x;
                 splines.coordinates_y[splinePointIndex] = splinePoint.y;
                 ++splinePointIndex;
-- 
2.43.0


From 2fecd484cd16a05a12bb2fc7837169544b73a6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:46 +0000
Subject: [PATCH 23/73] fix: linear refinement from the last to the first node
 of a polygon read out of bounds

---
 libs/MeshKernel/src/Polygon.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/Polygon.cpp b/libs/MeshKernel/src/Polygon.cpp
index a8814be..1221611 100644
--- a/libs/MeshKernel/src/Polygon.cpp
+++ b/libs/MeshKernel/src/Polygon.cpp
@@ -481,6 +481,12 @@ std::vector<meshkernel::Point> meshkernel::Polygon::LinearRefine(const UInt star
         numPolygonNodes = static_cast<UInt>(m_nodes.size()) - static_cast<UInt>(startIndex) + static_cast<UInt>(endIndex);
     }
 
+    if (numPolygonNodes < 2)
+    {
+        // The start and the end are the first and the last node of the closed polygon, there is nothing to refine
+        return m_nodes;
+    }
+
     std::vector<Point> polygonNodes(numPolygonNodes);
     std::vector<double> averageLengths(numPolygonNodes, 0.0);
     std::vector<double> actualAverageLengths(numPolygonNodes, 0.0);
-- 
2.43.0


From be5a45a62ab899ba1f68c07b5b74f997a3090a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:36 +0000
Subject: [PATCH 24/73] fix: snapping part of a spline read points beyond the
 end of the spline

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 630a4f4..c33ab06 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3225,7 +3225,7 @@ namespace meshkernelapi
             meshkernel::LandBoundary landBoundary(landBoundaryPoints);
             meshkernel::Splines splineValues(meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
-            splineValues.AddSpline(splinePoints, startSplineIndex, static_cast<meshkernel::UInt>(splinePoints.size()));
+            splineValues.AddSpline(splinePoints, startSplineIndex, static_cast<meshkernel::UInt>(splinePoints.size()) - startSplineIndex);
 
             //--------------------------------
             // Snap specified splines to the land boundary
-- 
2.43.0


From 49f8014fd4ca1b81c363c526971fdeed97d7371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:48 +0000
Subject: [PATCH 25/73] fix: undo and redo of deleting curvilinear grid nodes
 did not restore the nodes removed along with them

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp           |  7 +++----
 .../CurvilinearGrid/CurvilinearGridDeleteExterior.cpp | 11 ++++-------
 .../CurvilinearGrid/CurvilinearGridDeleteInterior.cpp |  2 +-
 libs/MeshKernelApi/src/MeshKernel.cpp                 |  3 +++
 4 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 5ed31d5..35a33d0 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -1045,13 +1045,12 @@ meshkernel::UndoActionPtr CurvilinearGrid::DeleteNode(Point const& point)
     auto const nodeToDeleteIndex = FindLocationIndex(point, Location::Nodes);
     const auto nodeToDelete = m_gridIndices[nodeToDeleteIndex];
 
-    std::unique_ptr<ResetCurvilinearNodeAction> undoAction;
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction;
 
     if (nodeToDelete.IsValid())
     {
-        undoAction = ResetCurvilinearNodeAction::Create(*this, nodeToDelete, GetNode(nodeToDelete),
-                                                        {constants::missing::doubleValue, constants::missing::doubleValue},
-                                                        true /* recomputeNodeTypes */);
+        // Deleting the node can remove other nodes too, those which are no longer part of any face
+        undoAction = CurvilinearGridBlockUndoAction::Create(*this, {0, 0}, {NumN(), NumM()});
 
         // Invalidate gridnodes
         GetNode(nodeToDelete.m_n, nodeToDelete.m_m) = {constants::missing::doubleValue, constants::missing::doubleValue};
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
index 9577589..b3c8f1d 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
@@ -29,7 +29,6 @@
 #include "MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp"
 #include "MeshKernel/CurvilinearGrid/CurvilinearGridLine.hpp"
 #include "MeshKernel/CurvilinearGrid/UndoActions/CurvilinearGridBlockUndoAction.hpp"
-#include "MeshKernel/UndoActions/CompoundUndoAction.hpp"
 
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridLine;
@@ -48,12 +47,8 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteExterior::Compute()
     const UInt lowerLimitJ = m_lowerLeft.m_m;
     const UInt upperLimitJ = m_upperRight.m_m;
 
-    std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
-
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), lowerLimitJ}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, lowerLimitJ}, {lowerLimitI, upperLimitJ + 1}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {upperLimitI, lowerLimitJ}, {m_grid.NumN(), upperLimitJ + 1}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, upperLimitJ + 1}, {m_grid.NumN(), m_grid.NumM()}));
+    // The whole grid has to be restored at once, because nodes which are no longer part of any face are removed too
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()});
 
     // Split into 4 regions, setting the nodes in each region to invalid
     //
@@ -93,5 +88,7 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteExterior::Compute()
         }
     }
 
+    m_grid.ComputeGridNodeTypes();
+
     return undoAction;
 }
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
index e02cd67..69f54a4 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
@@ -47,7 +47,7 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteInterior::Compute()
     const UInt lowerLimitJ = m_lowerLeft.m_m;
     const UInt upperLimitJ = m_upperRight.m_m;
 
-    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, m_lowerLeft, m_upperRight);
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()});
 
     for (UInt n = lowerLimitI + 1; n < upperLimitI; ++n)
     {
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index c33ab06..4b17ae1 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4921,6 +4921,9 @@ namespace meshkernelapi
                                                {xSecondPointCoordinate, ySecondPointCoordinate});
 
             meshKernelUndoStack.Add(curvilinearDeleteInterior.Compute(), meshKernelId);
+
+            // Remove the nodes which are no longer part of any face, as is done when the deletion is redone
+            meshKernelState[meshKernelId].m_curvilinearGrid->ComputeGridNodeTypes();
         }
         catch (...)
         {
-- 
2.43.0


From d5b109afd30634a2ce65f48422ac36a150c996b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:52 +0000
Subject: [PATCH 26/73] fix: a curvilinear grid from a polygon with corners in
 decreasing order across its start read out of bounds

---
 .../src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp    | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
index 5d95e68..13d1890 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
@@ -133,13 +133,7 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
     }
 
     // get the fourth node
-    auto fourthNode = thirdNode + direction * (numMNodes - 1);
-
-    // This can never be true now
-    if (fourthNode < start)
-    {
-        fourthNode += numPolygonNodes;
-    }
+    auto fourthNode = direction == 1 ? thirdNode + (numMNodes - 1) : thirdNode + numPolygonNodes - (numMNodes - 1);
 
     if (fourthNode >= numPolygonNodes)
     {
-- 
2.43.0


From cee100c07291ce6c3d12e5bb63b2ca011f9d001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:52 +0000
Subject: [PATCH 27/73] fix: asking the boundary of a curvilinear grid with
 negative indices iterated over the whole integer range

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 35a33d0..21c922d 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -1338,7 +1338,12 @@ std::vector<CurvilinearGrid::CurvilinearEdgeNodeIndices> CurvilinearGrid::Comput
 
 std::set<CurvilinearGrid::CurvilinearEdge> CurvilinearGrid::ComputeBoundaryEdges(const CurvilinearGridNodeIndices& lowerLeft, const CurvilinearGridNodeIndices& upperRight) const
 {
-    std::vector<Point> result;
+    if (upperRight.m_n >= NumN() || upperRight.m_m >= NumM())
+    {
+        throw ConstraintError("Invalid upper right index ({}, {}): the grid has {} by {} nodes",
+                              upperRight.m_n, upperRight.m_m, NumN(), NumM());
+    }
+
     std::set<CurvilinearEdge> boundaryEdges;
     for (UInt n = lowerLeft.m_n; n < upperRight.m_n; n++)
     {
-- 
2.43.0


From 91fc095855086fb5d7b3e0dd2d90c3cbab4dc417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:56 +0000
Subject: [PATCH 28/73] fix: deleted nodes were selected as lying outside a
 polygon, or inside an empty one

---
 libs/MeshKernel/src/Mesh2D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index da66358..6ce5dd5 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -2083,7 +2083,8 @@ std::vector<int> Mesh2D::NodeMaskFromPolygon(const Polygons& polygon, bool insid
             isInPolygon = !isInPolygon;
         }
         nodeMask[i] = 0;
-        if (isInPolygon)
+        // Deleted nodes are neither inside nor outside
+        if (isInPolygon && m_nodes[i].IsValid())
         {
             nodeMask[i] = 1;
         }
-- 
2.43.0


From 6ca7212762dd820261717d055ff10b13a0dfab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:56 +0000
Subject: [PATCH 29/73] fix: curvilinear refinement with factor zero filled the
 grid with not-a-number coordinates

---
 .../src/CurvilinearGrid/CurvilinearGridRefinement.cpp        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRefinement.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRefinement.cpp
index 49f8a64..4c25a54 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRefinement.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRefinement.cpp
@@ -50,6 +50,11 @@ meshkernel::UndoActionPtr CurvilinearGridRefinement::Compute()
         throw std::invalid_argument("CurvilinearGridRefinement::Compute: lower left and upper right corners defining the curvilinear grid block are not set");
     }
 
+    if (m_refinement == 0)
+    {
+        throw std::invalid_argument("CurvilinearGridRefinement::Compute: the refinement factor must be at least one");
+    }
+
     // The points must lie on the same grid line
     if (m_lowerLeft.m_m != m_upperRight.m_m && m_lowerLeft.m_n != m_upperRight.m_n)
     {
-- 
2.43.0


From 9cc0a2bdde28c2c7fcba6eb90e5c47144d8ce477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:09 +0000
Subject: [PATCH 30/73] fix: setting a mesh whose edges refer to nodes that do
 not exist crashed

---
 libs/MeshKernel/src/Mesh.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 82b51d4..680147f 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -62,6 +62,16 @@ Mesh::Mesh(const std::vector<Edge>& edges,
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
+
+    for (const auto& [firstNode, secondNode] : m_edges)
+    {
+        if ((firstNode != constants::missing::uintValue && firstNode >= m_nodes.size()) ||
+            (secondNode != constants::missing::uintValue && secondNode >= m_nodes.size()))
+        {
+            throw ConstraintError("An edge refers to a node that does not exist: ({}, {}), number of nodes = {}.", firstNode, secondNode, m_nodes.size());
+        }
+    }
+
     DeleteInvalidNodesAndEdges();
 }
 
-- 
2.43.0


From 33dbea8e7116abfcd73b79c75787c84eafdc9a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:38 +0000
Subject: [PATCH 31/73] fix: nearest-location queries used stale trees after
 edits and undo

---
 libs/MeshKernel/include/MeshKernel/Mesh.hpp | 10 +++++
 libs/MeshKernel/src/Mesh.cpp                | 44 +++++++++++----------
 libs/MeshKernel/src/Mesh2D.cpp              |  8 ++--
 3 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Mesh.hpp b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
index bfb1da2..fb59fa1 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
@@ -451,6 +451,9 @@ namespace meshkernel
         /// @brief Get a reference to the RTree for a specific location
         RTreeBase& GetRTree(Location location) const { return *m_RTrees.at(location); }
 
+        /// @brief Indicate that all the RTrees require an update, since nodes or edges have changed
+        void SetRTreesRequireUpdate();
+
         /// @brief Set the m_nodesRTreeRequiresUpdate flag
         /// @param[in] value The value of the flag
         void SetNodesRTreeRequiresUpdate(bool value) { m_nodesRTreeRequiresUpdate = value; }
@@ -578,3 +581,10 @@ inline void meshkernel::Mesh::SetEdges(const std::vector<Edge>& newValues)
     m_edgesRTreeRequiresUpdate = true;
     m_facesRTreeRequiresUpdate = true;
 }
+
+inline void meshkernel::Mesh::SetRTreesRequireUpdate()
+{
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
+}
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 680147f..b32c339 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -245,6 +245,8 @@ void Mesh::DeleteInvalidNodesAndEdges()
         secondNode = constants::missing::uintValue;
     }
 
+    SetRTreesRequireUpdate();
+
     // Remove invalid nodes, without reducing capacity
     const auto endNodeVector = std::remove_if(m_nodes.begin(), m_nodes.end(), [](const Point& n)
                                               { return !n.IsValid(); });
@@ -410,8 +412,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
     // Set the node to be invalid
     undoAction->Add(ResetNode(firstNodeIndex, {constants::missing::doubleValue, constants::missing::doubleValue}));
 
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
     return undoAction;
 }
 
@@ -525,6 +526,7 @@ void Mesh::SetNode(const UInt nodeId, const Point& newValue)
     }
 
     m_nodes[nodeId] = newValue;
+    SetRTreesRequireUpdate();
 }
 
 std::unique_ptr<meshkernel::DeleteEdgeAction> Mesh::DeleteEdge(UInt edge)
@@ -776,8 +778,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
         m_nodes[movedNodeIndex[i]] += nodeDisplacement[i];
     }
 
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
     return undoAction;
 }
 
@@ -1029,8 +1030,7 @@ Mesh& Mesh::operator+=(Mesh const& rhs)
         m_edges[e].second = rhs.m_edges[index].second + numNodes;
     }
 
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
 
     Administrate();
 
@@ -1217,106 +1217,110 @@ void Mesh::CommitAction(const AddNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.Node();
     m_nodesNumEdges[undoAction.NodeId()] = 0;
-    m_nodesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const AddEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const ResetNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.UpdatedNode();
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const ResetEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.UpdatedEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const DeleteEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = {constants::missing::uintValue, constants::missing::uintValue};
-    m_edgesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const DeleteNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = {constants::missing::doubleValue, constants::missing::doubleValue};
-    m_nodesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(NodeTranslationAction& undoAction)
 {
     undoAction.Swap(m_nodes);
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(FullUnstructuredGridUndo& undoAction)
 {
     undoAction.Swap(m_nodes, m_edges);
     Administrate();
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const AddNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = Point(constants::missing::doubleValue, constants::missing::doubleValue);
     m_nodesNumEdges[undoAction.NodeId()] = 0;
-    m_nodesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const AddEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = {constants::missing::uintValue, constants::missing::uintValue};
-    m_edgesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const ResetNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.InitialNode();
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const ResetEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.InitialEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const DeleteEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const DeleteNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.Node();
-    m_nodesRTreeRequiresUpdate = true;
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(NodeTranslationAction& undoAction)
 {
     undoAction.Swap(m_nodes);
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
+    SetRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(FullUnstructuredGridUndo& undoAction)
 {
     undoAction.Swap(m_nodes, m_edges);
     Administrate();
+    SetRTreesRequireUpdate();
 }
diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 6ce5dd5..e397131 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -139,8 +139,7 @@ Mesh2D::Mesh2D(const std::vector<Point>& inputNodes, const Polygons& polygons, P
         validEdgesCount++;
     }
 
-    SetNodesRTreeRequiresUpdate(true);
-    SetEdgesRTreeRequiresUpdate(true);
+    SetRTreesRequireUpdate();
 
     m_edges = edges;
     m_nodes = inputNodes;
@@ -1383,7 +1382,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh2D::TriangulateFaces()
         }
     }
 
-    SetEdgesRTreeRequiresUpdate(true);
+    SetRTreesRequireUpdate();
 
     return triangulationAction;
 }
@@ -1796,8 +1795,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh2D::DeleteMesh(const Polygons& polyg
         }
     }
 
-    SetNodesRTreeRequiresUpdate(true);
-    SetEdgesRTreeRequiresUpdate(true);
+    SetRTreesRequireUpdate();
 
     Administrate(deleteMeshAction.get());
     return deleteMeshAction;
-- 
2.43.0


From d0cdbbee8f282c195638f87bc80ba3195ff90918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:42 +0000
Subject: [PATCH 32/73] fix: a tree built with one bounding box was reused with
 another one after a query for other locations

---
 .../MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp |  2 +-
 libs/MeshKernel/include/MeshKernel/Mesh.hpp        |  2 +-
 .../src/CurvilinearGrid/CurvilinearGrid.cpp        | 14 +++++++-------
 libs/MeshKernel/src/Mesh.cpp                       | 12 ++++++------
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
index 94e9f69..1679d22 100644
--- a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
@@ -510,7 +510,7 @@ namespace meshkernel
         bool m_edgesRTreeRequiresUpdate = true;                            ///< m_edgesRTree requires an update
         bool m_facesRTreeRequiresUpdate = true;                            ///< m_facesRTree requires an update
         std::unordered_map<Location, std::unique_ptr<RTreeBase>> m_RTrees; ///< The RTrees to use
-        BoundingBox m_boundingBoxCache;                                    ///< Caches the last bounding box used for selecting the locations
+        std::unordered_map<Location, BoundingBox> m_boundingBoxCache;      ///< Caches the last bounding box used for building the tree of each location
 
         std::vector<Edge> m_edges; ///< Member variable storing the edges
 
diff --git a/libs/MeshKernel/include/MeshKernel/Mesh.hpp b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
index fb59fa1..8dab67c 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
@@ -507,7 +507,7 @@ namespace meshkernel
         bool m_edgesRTreeRequiresUpdate = true;                            ///< m_edgesRTree requires an update
         bool m_facesRTreeRequiresUpdate = true;                            ///< m_facesRTree requires an update
         std::unordered_map<Location, std::unique_ptr<RTreeBase>> m_RTrees; ///< The RTrees to use
-        BoundingBox m_boundingBoxCache;                                    ///< Caches the last bounding box used for selecting the locations
+        std::unordered_map<Location, BoundingBox> m_boundingBoxCache;      ///< Caches the last bounding box used for building the tree of each location
 
         /// @brief Set nodes and edges that are not connected to be invalid.
         void SetUnConnectedNodesAndEdgesToInvalid(CompoundUndoAction* undoAction);
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 21c922d..83e5260 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -95,7 +95,7 @@ CurvilinearGrid& CurvilinearGrid::operator=(CurvilinearGrid&& copy) noexcept
         m_nodesRTreeRequiresUpdate = std::exchange(copy.m_nodesRTreeRequiresUpdate, false);
         m_edgesRTreeRequiresUpdate = std::exchange(copy.m_edgesRTreeRequiresUpdate, false);
         m_facesRTreeRequiresUpdate = std::exchange(copy.m_facesRTreeRequiresUpdate, false);
-        m_boundingBoxCache = std::exchange(copy.m_boundingBoxCache, BoundingBox());
+        m_boundingBoxCache = std::move(copy.m_boundingBoxCache);
         m_startOffset = std::exchange(copy.m_startOffset, CurvilinearGridNodeIndices(0, 0));
         m_endOffset = std::exchange(copy.m_endOffset, CurvilinearGridNodeIndices(0, 0));
     }
@@ -253,31 +253,31 @@ void CurvilinearGrid::BuildTree(Location location, const BoundingBox& boundingBo
     switch (location)
     {
     case Location::Faces:
-        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache[Location::Faces] != boundingBox)
         {
             const auto faceCenters = ComputeFaceCenters();
             m_RTrees.at(Location::Faces)->BuildTree(faceCenters, boundingBox);
             m_facesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
+            m_boundingBoxCache[Location::Faces] = boundingBox;
         }
         break;
     case Location::Nodes:
-        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache[Location::Nodes] != boundingBox)
         {
             const auto nodes = ComputeNodes();
             m_RTrees.at(Location::Nodes)->BuildTree(nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
+            m_boundingBoxCache[Location::Nodes] = boundingBox;
         }
         break;
     case Location::Edges:
-        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache[Location::Edges] != boundingBox)
         {
             m_edges = ComputeEdges();
             const auto edgeCenters = ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(edgeCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
+            m_boundingBoxCache[Location::Edges] = boundingBox;
         }
         break;
     case Location::Unknown:
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index b32c339..d14af41 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1180,29 +1180,29 @@ void Mesh::BuildTree(Location location, const BoundingBox& boundingBox)
     switch (location)
     {
     case Location::Faces:
-        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache[Location::Faces] != boundingBox)
         {
             Administrate();
             m_RTrees.at(Location::Faces)->BuildTree(m_facesCircumcenters, boundingBox);
             m_facesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
+            m_boundingBoxCache[Location::Faces] = boundingBox;
         }
         break;
     case Location::Nodes:
-        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache[Location::Nodes] != boundingBox)
         {
             m_RTrees.at(Location::Nodes)->BuildTree(m_nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
+            m_boundingBoxCache[Location::Nodes] = boundingBox;
         }
         break;
     case Location::Edges:
-        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache[Location::Edges] != boundingBox)
         {
             ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(m_edgesCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
+            m_boundingBoxCache[Location::Edges] = boundingBox;
         }
         break;
     case Location::Unknown:
-- 
2.43.0


From d2d2462bf44b697b084ac5d2b6e3de5532b50324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:05 +0000
Subject: [PATCH 33/73] fix: a cell that meets one neighbour along two sides
 was missing from the faces

---
 libs/MeshKernel/include/MeshKernel/Mesh2D.hpp |  6 +--
 libs/MeshKernel/src/Mesh2D.cpp                | 50 +++----------------
 2 files changed, 10 insertions(+), 46 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Mesh2D.hpp b/libs/MeshKernel/include/MeshKernel/Mesh2D.hpp
index ce89c01..56ac123 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh2D.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh2D.hpp
@@ -443,10 +443,8 @@ namespace meshkernel
         /// The parameter sortedNodes, is a temporary array, that reduces the need to re-allocate any memory locally to this function
         bool HasDuplicateNodes(const UInt numClosingEdges, const std::vector<UInt>& node, std::vector<UInt>& sortedNodes) const;
 
-        /// @brief Determine if there are duplicate edge-facw id's on the edges array
-        ///
-        /// The parameter sortedEdgesFaces, is a temporary array, that reduces the need to re-allocate any memory locally to this function
-        bool HasDuplicateEdgeFaces(const UInt numClosingEdges, const std::vector<UInt>& edges, std::vector<UInt>& sortedEdgesFaces) const;
+        /// @brief Determine if the face with these edges has already been found, that is if all the edges share a face
+        bool HasDuplicateEdgeFaces(const std::vector<UInt>& edges) const;
 
         /// @brief Resizes and initializes face vectors
         void ResizeAndInitializeFaceVectors();
diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index e397131..3bff7a4 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -321,53 +321,19 @@ bool Mesh2D::HasDuplicateNodes(const UInt numClosingEdges, const std::vector<UIn
     return false;
 }
 
-bool Mesh2D::HasDuplicateEdgeFaces(const UInt numClosingEdges, const std::vector<UInt>& edges, std::vector<UInt>& sortedEdgesFaces) const
+bool Mesh2D::HasDuplicateEdgeFaces(const std::vector<UInt>& edges) const
 {
-
-    // The number of edges is the same as the number of nodes for both triangles and quadrilateral
-    if (numClosingEdges == constants::geometric::numNodesInTriangle)
+    // The face has been found before only if all its edges share a face,
+    // different edges can have the same face on their other side
+    for (const auto face : m_edgesFaces[edges[0]])
     {
-        if (m_edgesFaces[edges[0]][0] == m_edgesFaces[edges[1]][0] ||
-            m_edgesFaces[edges[0]][0] == m_edgesFaces[edges[2]][0] ||
-            m_edgesFaces[edges[1]][0] == m_edgesFaces[edges[2]][0])
+        if (face != constants::missing::uintValue &&
+            std::ranges::all_of(edges, [&](const UInt edge)
+                                { return m_edgesFaces[edge][0] == face || m_edgesFaces[edge][1] == face; }))
         {
             return true;
         }
     }
-    else if (numClosingEdges == constants::geometric::numNodesInQuadrilateral)
-    {
-        if (m_edgesFaces[edges[0]][0] == m_edgesFaces[edges[1]][0] ||
-            m_edgesFaces[edges[0]][0] == m_edgesFaces[edges[2]][0] ||
-            m_edgesFaces[edges[0]][0] == m_edgesFaces[edges[3]][0] ||
-
-            m_edgesFaces[edges[1]][0] == m_edgesFaces[edges[2]][0] ||
-            m_edgesFaces[edges[1]][0] == m_edgesFaces[edges[3]][0] ||
-
-            m_edgesFaces[edges[2]][0] == m_edgesFaces[edges[3]][0])
-        {
-            return true;
-        }
-    }
-    else
-    {
-        sortedEdgesFaces.clear();
-        sortedEdgesFaces.reserve(edges.size());
-        // is an internal face only if all edges have a different face
-        for (UInt ee = 0; ee < edges.size(); ee++)
-        {
-            sortedEdgesFaces.push_back(m_edgesFaces[edges[ee]][0]);
-        }
-
-        std::sort(sortedEdgesFaces.begin(), sortedEdgesFaces.end());
-
-        for (UInt n = 0; n < sortedEdgesFaces.size() - 1; n++)
-        {
-            if (sortedEdgesFaces[n + 1] == sortedEdgesFaces[n])
-            {
-                return true;
-            }
-        }
-    }
 
     return false;
 }
@@ -451,7 +417,7 @@ void Mesh2D::FindFacesRecursive(UInt startNode,
         }
 
         // check if least one edge has no face and there are no duplicate edge-faces.
-        if (!oneEdgeHasNoFace && HasDuplicateEdgeFaces(numClosingEdges, edges, sortedEdgesFaces))
+        if (!oneEdgeHasNoFace && HasDuplicateEdgeFaces(edges))
         {
             return;
         }
-- 
2.43.0


From f7393b2cdfca6f9a71fafd05c2f964edc97bab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:27 +0000
Subject: [PATCH 34/73] fix: setting a mesh with a face list that does not fit
 its nodes and edges read and wrote out of bounds

---
 libs/MeshKernel/src/Mesh2D.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 3bff7a4..0c03a4c 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -509,6 +509,15 @@ void Mesh2D::FindFaces()
 void Mesh2D::FindFacesGivenFaceNodesMapping(const std::vector<std::vector<UInt>>& faceNodes,
                                             const std::vector<UInt>& numFaceNodes)
 {
+    for (const auto& nodes : faceNodes)
+    {
+        if (nodes.empty() || std::ranges::any_of(nodes, [this](const UInt node)
+                                                 { return node >= GetNumNodes(); }))
+        {
+            throw ConstraintError("A face refers to nodes that do not exist.");
+        }
+    }
+
     m_facesNodes = faceNodes;
     m_numFacesNodes = numFaceNodes;
 
@@ -553,10 +562,15 @@ void Mesh2D::FindFacesGivenFaceNodesMapping(const std::vector<std::vector<UInt>>
             index++;
         }
 
+        if (local_edges.size() != m_facesNodes[f].size())
+        {
+            throw ConstraintError("The edges between the nodes of face {} do not form a closed loop.", f);
+        }
+
         m_facesEdges.emplace_back(local_edges);
         for (const auto& e : local_edges)
         {
-            if (m_edgesNumFaces[e] > 2)
+            if (m_edgesNumFaces[e] >= 2)
             {
                 throw AlgorithmError("FindFacesGivenMappings: m_edgesNumFaces > 2.");
             }
-- 
2.43.0


From 7f98eadb81afa530979d2d46ad8bda50b6348c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:13 +0000
Subject: [PATCH 35/73] fix: averaging interpolation compares the number of
 samples, not the sum of their weights, with the required number

---
 .../AveragingStrategies/InverseWeightedAveragingStrategy.cpp    | 2 +-
 .../src/AveragingStrategies/SimpleAveragingStrategy.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp b/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
index 6582106..4890b93 100644
--- a/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
+++ b/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
@@ -47,7 +47,7 @@ namespace meshkernel::averaging
             result += weight * samples[i].value;
         }
 
-        return wall >= static_cast<double>(m_minNumSamples) ? result / wall : constants::missing::doubleValue;
+        return !samples.empty() && samples.size() >= m_minNumSamples ? result / wall : constants::missing::doubleValue;
     }
 
 } // namespace meshkernel::averaging
diff --git a/libs/MeshKernel/src/AveragingStrategies/SimpleAveragingStrategy.cpp b/libs/MeshKernel/src/AveragingStrategies/SimpleAveragingStrategy.cpp
index bfe8051..c93916c 100644
--- a/libs/MeshKernel/src/AveragingStrategies/SimpleAveragingStrategy.cpp
+++ b/libs/MeshKernel/src/AveragingStrategies/SimpleAveragingStrategy.cpp
@@ -40,7 +40,7 @@ namespace meshkernel::averaging
         auto sumSampleValue = [](double value, const Sample& sample)
         { return value + sample.value; };
         double result = std::accumulate(samples.begin(), samples.end(), 0.0, sumSampleValue);
-        return samples.size() >= m_minNumPoints ? result / static_cast<double>(samples.size()) : constants::missing::doubleValue;
+        return !samples.empty() && samples.size() >= m_minNumPoints ? result / static_cast<double>(samples.size()) : constants::missing::doubleValue;
     }
 
 } // namespace meshkernel::averaging
-- 
2.43.0


From 36bf750db998ad75199644ee03825fe94ef2f731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:48 +0000
Subject: [PATCH 36/73] fix: a point on the line through a polygon edge but
 outside the edge is not inside the polygon

---
 libs/MeshKernel/src/Operations.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index df7ddba..f907872 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -226,9 +226,11 @@ namespace meshkernel
 
                 const auto crossProductValue = crossProduct(polygonNodes[n], polygonNodes[n + 1], polygonNodes[n], point, Projection::cartesian);
 
-                if (IsEqual(crossProductValue, 0.0))
+                if (IsEqual(crossProductValue, 0.0) &&
+                    point.x >= std::min(polygonNodes[n].x, polygonNodes[n + 1].x) && point.x <= std::max(polygonNodes[n].x, polygonNodes[n + 1].x) &&
+                    point.y >= std::min(polygonNodes[n].y, polygonNodes[n + 1].y) && point.y <= std::max(polygonNodes[n].y, polygonNodes[n + 1].y))
                 {
-                    // point on the line
+                    // point on the edge, not just on the line through it
                     return true;
                 }
 
-- 
2.43.0


From 2b9c9c5814eff106c62c121c827385cec5afbe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:10 +0000
Subject: [PATCH 37/73] fix: gridded samples give no value just outside the
 grid nor on edges with a node outside it

---
 .../BilinearInterpolationOnGriddedSamples.hpp    | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
index 73480e9..fe94476 100644
--- a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
+++ b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
@@ -161,7 +161,11 @@ namespace meshkernel
         for (UInt e = 0; e < numEdges; ++e)
         {
             const auto& [first, second] = m_mesh.GetEdge(e);
-            m_edgeResults[e] = 0.5 * (m_nodeResults[first] + m_nodeResults[second]);
+
+            if (m_nodeResults[first] != constants::missing::doubleValue && m_nodeResults[second] != constants::missing::doubleValue)
+            {
+                m_edgeResults[e] = 0.5 * (m_nodeResults[first] + m_nodeResults[second]);
+            }
         }
 
         m_faceResults.resize(numFaces, constants::missing::doubleValue);
@@ -179,17 +183,17 @@ namespace meshkernel
         double fractionalColumnIndex = GetFractionalNumberOfColumns(point);
         double fractionalRowIndex = GetFractionalNumberOfRows(point);
 
+        if (fractionalColumnIndex < 0.0 || fractionalRowIndex < 0.0)
+        {
+            return constants::missing::doubleValue;
+        }
+
         double columnIndexTmp;
         fractionalColumnIndex = std::modf(fractionalColumnIndex, &columnIndexTmp);
 
         double rowIndexTmp;
         fractionalRowIndex = std::modf(fractionalRowIndex, &rowIndexTmp);
 
-        if (columnIndexTmp < 0 || rowIndexTmp < 0)
-        {
-            return constants::missing::doubleValue;
-        }
-
         UInt const columnIndex = static_cast<UInt>(columnIndexTmp);
         UInt const rowIndex = static_cast<UInt>(rowIndexTmp);
 
-- 
2.43.0


From 8c2b2e3416a9fe2681d617b4939adee010505be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:24 +0000
Subject: [PATCH 38/73] fix: interpolation on a mesh with deleted nodes or
 edges

---
 .../BilinearInterpolationOnGriddedSamples.hpp         |  5 +++++
 libs/MeshKernel/src/AveragingInterpolation.cpp        | 11 +++++++++++
 libs/MeshKernel/src/Mesh2D.cpp                        |  1 +
 3 files changed, 17 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
index fe94476..aa4494e 100644
--- a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
+++ b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
@@ -162,6 +162,11 @@ namespace meshkernel
         {
             const auto& [first, second] = m_mesh.GetEdge(e);
 
+            if (first == constants::missing::uintValue || second == constants::missing::uintValue)
+            {
+                continue;
+            }
+
             if (m_nodeResults[first] != constants::missing::doubleValue && m_nodeResults[second] != constants::missing::doubleValue)
             {
                 m_edgeResults[e] = 0.5 * (m_nodeResults[first] + m_nodeResults[second]);
diff --git a/libs/MeshKernel/src/AveragingInterpolation.cpp b/libs/MeshKernel/src/AveragingInterpolation.cpp
index 570ed54..64df42e 100644
--- a/libs/MeshKernel/src/AveragingInterpolation.cpp
+++ b/libs/MeshKernel/src/AveragingInterpolation.cpp
@@ -77,6 +77,12 @@ void AveragingInterpolation::Compute()
         std::vector<Point> dualFacePolygon;
         for (UInt n = 0; n < m_mesh.GetNumNodes(); ++n)
         {
+            // deleted and unconnected nodes get no value
+            if (!m_mesh.Node(n).IsValid() || m_mesh.m_nodesNumEdges[n] == 0)
+            {
+                continue;
+            }
+
             m_mesh.MakeDualFace(n, m_relativeSearchRadius, dualFacePolygon);
             const auto result = ComputeOnPolygon(dualFacePolygon, m_mesh.Node(n));
             m_nodeResults[n] = result;
@@ -93,6 +99,11 @@ void AveragingInterpolation::Compute()
         {
             const auto& [first, second] = m_mesh.GetEdge(e);
 
+            if (first == constants::missing::uintValue || second == constants::missing::uintValue)
+            {
+                continue;
+            }
+
             const auto& firstValue = m_nodeResults[first];
             const auto& secondValue = m_nodeResults[second];
 
diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 0c03a4c..9d8abc5 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -1444,6 +1444,7 @@ std::vector<meshkernel::UInt> Mesh2D::SortedFacesAroundNode(UInt node) const
         // no faces for this edge
         if (m_edgesNumFaces[firstEdge] == 0)
         {
+            result.emplace_back(constants::missing::uintValue);
             continue;
         }
 
-- 
2.43.0


From 70776f436e52c30feb6b839e69688b3e9de958f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:11 +0000
Subject: [PATCH 39/73] fix: contacts with points and polygons respect the node
 mask, polygons without cells make no contact

---
 libs/MeshKernel/src/Contacts.cpp | 37 ++++++++++++++++++++------------
 libs/MeshKernel/src/Mesh.cpp     | 23 ++++++++++++++++++++
 2 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index 52a0f47..4f4c81b 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -265,6 +265,14 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
     m_mesh1d.AdministrateNodesEdges();
     Validate();
 
+    // no 1d node can be connected
+    if (std::ranges::none_of(oneDNodeMask, [](bool value)
+                             { return value; }))
+    {
+        m_areComputed = true;
+        return;
+    }
+
     // for each mesh2d face, store polygon index
     std::vector<UInt> facePolygonIndex(m_mesh2d.GetNumFaces(), constants::missing::uintValue);
     std::vector<bool> faceInPolygon(m_mesh2d.GetNumFaces(), false);
@@ -279,7 +287,6 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
     std::vector<double> minimalDistance(polygons.GetNumPolygons(), constants::missing::doubleValue);
     std::vector<UInt> closest1dNodeIndices(polygons.GetNumPolygons(), constants::missing::uintValue);
     std::vector<UInt> closest2dNodeIndices(polygons.GetNumPolygons(), constants::missing::uintValue);
-    m_mesh1d.BuildTree(Location::Nodes);
 
     for (UInt faceIndex = 0; faceIndex < m_mesh2d.GetNumFaces(); ++faceIndex)
     {
@@ -308,6 +315,12 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
     // connect 1D nodes to closest 2d node in a polygon
     for (UInt polygonIndex = 0; polygonIndex < polygons.GetNumPolygons(); ++polygonIndex)
     {
+        // no face in the polygon
+        if (closest1dNodeIndices[polygonIndex] == constants::missing::uintValue)
+        {
+            continue;
+        }
+
         m_mesh1dIndices.emplace_back(closest1dNodeIndices[polygonIndex]);
         m_mesh2dIndices.emplace_back(closest2dNodeIndices[polygonIndex]);
     }
@@ -331,8 +344,13 @@ void Contacts::ComputeContactsWithPoints(const std::vector<bool>& oneDNodeMask,
 
     Validate();
 
-    m_mesh1d.BuildTree(Location::Nodes);
-    auto& rtree = m_mesh1d.GetRTree(Location::Nodes);
+    // no 1d node can be connected
+    if (std::ranges::none_of(oneDNodeMask, [](bool value)
+                             { return value; }))
+    {
+        m_areComputed = true;
+        return;
+    }
 
     // find the face indices containing the 1d points
     const auto pointsFaceIndices = m_mesh2d.PointFaceIndices(points);
@@ -346,17 +364,8 @@ void Contacts::ComputeContactsWithPoints(const std::vector<bool>& oneDNodeMask,
             continue;
         }
 
-        // get the closest 1d node
-        rtree.SearchNearestPoint(points[i]);
-
-        // if nothing found continue
-        if (rtree.GetQueryResultSize() == 0)
-        {
-            continue;
-        }
-
-        // form the 1d-2d contact
-        m_mesh1dIndices.emplace_back(rtree.GetQueryResult(0));
+        // form the 1d-2d contact with the closest 1d node that can be connected
+        m_mesh1dIndices.emplace_back(m_mesh1d.FindLocationIndex(points[i], Location::Nodes, oneDNodeMask));
         m_mesh2dIndices.emplace_back(pointsFaceIndices[i]);
     }
 
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index d14af41..4ce8c77 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -722,6 +722,29 @@ meshkernel::UInt Mesh::FindLocationIndex(Point point,
         }
     }
 
+    // the nearest location is masked, find the nearest one which is not
+    const auto locations = ComputeLocations(location);
+    UInt nearestIndex = constants::missing::uintValue;
+    double nearestSquaredDistance = std::numeric_limits<double>::max();
+    for (UInt index = 0; index < locations.size() && index < locationMask.size(); ++index)
+    {
+        if (!locationMask[index] || !locations[index].IsValid() || !boundingBox.Contains(locations[index]))
+        {
+            continue;
+        }
+
+        if (const auto squaredDistance = ComputeSquaredDistance(point, locations[index], m_projection); squaredDistance < nearestSquaredDistance)
+        {
+            nearestIndex = index;
+            nearestSquaredDistance = squaredDistance;
+        }
+    }
+
+    if (nearestIndex != constants::missing::uintValue)
+    {
+        return nearestIndex;
+    }
+
     throw AlgorithmError("Could not find a valid location close to a point.");
 }
 
-- 
2.43.0


From 28c6ec0bee71da027fbc1f3b7bf4cb11265e1378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:41 +0000
Subject: [PATCH 40/73] fix: refuse a rectangular grid on an extension whose
 upper right corner is not above its origin

---
 .../src/CurvilinearGrid/CurvilinearGridRectangular.cpp        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRectangular.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRectangular.cpp
index 72e92f7..deedbd3 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRectangular.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRectangular.cpp
@@ -309,6 +309,10 @@ namespace meshkernel
         {
             throw AlgorithmError("Number of columns cannot be <= 0");
         }
+        if (upperRightY <= originY)
+        {
+            throw AlgorithmError("Number of rows cannot be <= 0");
+        }
 
         const int numRows = ComputeNumRows(originY, upperRightY, blockSizeY, m_projection);
 
-- 
2.43.0


From 1e4e4a284a46ac957c1a4c92ac2abd57a3c0943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:41 +0000
Subject: [PATCH 41/73] fix: compute the centre of a triangular grid from the
 right fractions of its sides

---
 .../src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
index 13d1890..200c971 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
@@ -315,8 +315,8 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
 
     // compute triangle middle point
     const auto xia = static_cast<double>(n1) / static_cast<double>(numPointsFirstSide);
-    const auto xib = static_cast<double>(n2) / static_cast<double>(numPointsSecondSide);
-    const auto xic = static_cast<double>(n3) / static_cast<double>(numPointsThirdSide);
+    const auto xib = static_cast<double>(n3) / static_cast<double>(numPointsSecondSide);
+    const auto xic = static_cast<double>(n2) / static_cast<double>(numPointsThirdSide);
 
     auto const& polygonNodes = m_polygon.Nodes();
 
-- 
2.43.0


From 0791549f1aae8dc7703dc0cab9553236cd779ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:04 +0000
Subject: [PATCH 42/73] fix: refuse to connect meshes with more irregular
 elements along an edge than are supported

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index 0ff2797..c379acb 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -149,6 +149,11 @@ void meshkernel::ConnectMeshes::GatherHangingNodeIds(const Mesh2D& mesh,
                 continue;
             }
 
+            if (edgeInfo.edgeCount == m_maximumNumberOfIrregularElementsAlongEdge)
+            {
+                throw NotImplementedError("More than {} irregular elements along an edge are not supported", m_maximumNumberOfIrregularElementsAlongEdge);
+            }
+
             edgeInfo.hangingNodes[edgeInfo.edgeCount] = j;
             ++edgeInfo.edgeCount;
 
-- 
2.43.0


From 8bb1d4f4e182e036c915af27a69d8ee181f0c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:04 +0000
Subject: [PATCH 43/73] fix: tell that there are no face polygons when no face
 matches

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 4b17ae1..43f9f36 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2500,6 +2500,7 @@ namespace meshkernelapi
                 }
                 numMatchingFaces += 1;
             }
+            geometryListDimension = 0;
             if (numMatchingFaces > 0)
             {
                 geometryListDimension = (numEdges + 2) * (numMatchingFaces - 1) + numEdges + 1;
-- 
2.43.0


From f8741d659c036054ee02af9c52c5b214b446e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:55 +0000
Subject: [PATCH 44/73] fix: refuse to mirror a curvilinear grid line that is
 not a boundary of the grid

---
 .../CurvilinearGridLineMirror.cpp             | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
index b7d8ce8..5635de5 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
@@ -65,8 +65,33 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
     auto const gridLineType = m_grid.GetBoundaryGridLineType(startNode, endNode);
 
     auto [addedLine, addGridLineAction] = m_grid.AddGridLineAtBoundary(startNode, endNode);
-    m_grid.ComputeGridNodeTypes();
-    undoAction->Add(std::move(addGridLineAction));
+
+    if (addedLine)
+    {
+        m_grid.ComputeGridNodeTypes();
+        undoAction->Add(std::move(addGridLineAction));
+    }
+    else
+    {
+        // No line has been added: the line to mirror must be next to the first or last line of the grid and the nodes to set must be missing
+        const auto atBottomOrTop = gridLineType == CurvilinearGrid::BoundaryGridLineType::Bottom || gridLineType == CurvilinearGrid::BoundaryGridLineType::Top;
+        const auto atStart = gridLineType == CurvilinearGrid::BoundaryGridLineType::Bottom || gridLineType == CurvilinearGrid::BoundaryGridLineType::Left;
+        const auto line = atBottomOrTop ? startNode.m_n : startNode.m_m;
+        const auto lastLine = (atBottomOrTop ? m_grid.NumN() : m_grid.NumM()) - 1;
+        const auto newLine = atStart ? 0 : lastLine;
+
+        bool canMirror = atStart ? line == 1 : line + 1 == lastLine;
+
+        for (auto i = m_lines[0].m_startCoordinate; canMirror && i <= m_lines[0].m_endCoordinate; ++i)
+        {
+            canMirror = atBottomOrTop ? !m_grid.GetNode(newLine, i).IsValid() : !m_grid.GetNode(i, newLine).IsValid();
+        }
+
+        if (!canMirror)
+        {
+            throw std::invalid_argument("CurvilinearGridLineMirror:: The line to mirror is not a boundary of the grid");
+        }
+    }
 
     double const a = 1.0 + m_mirroringFactor;
     double const b = -m_mirroringFactor;
@@ -91,8 +116,8 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
         upperRight = {m_lines[0].m_endCoordinate + 1, m_grid.NumM() - 0};
         break;
     case Left:
-        lowerLeft = {0, m_lines[0].m_startCoordinate};
-        upperRight = {m_lines[0].m_endCoordinate + 1, m_lines[0].m_startCoordinate + 1};
+        lowerLeft = {m_lines[0].m_startCoordinate, 0};
+        upperRight = {m_lines[0].m_endCoordinate + 1, 1};
         break;
     default:
         throw std::invalid_argument("CurvilinearGridLineMirror:: Invalid grid line type");
-- 
2.43.0


From 0d09eb276d158962db4cbc9c8bc905afddec4194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:55 +0000
Subject: [PATCH 45/73] fix: offset of polygons with holes or of several
 polygons wrote out of bounds and lost the separators

---
 libs/MeshKernel/src/Polygons.cpp | 47 +++++++++++++++++---------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/libs/MeshKernel/src/Polygons.cpp b/libs/MeshKernel/src/Polygons.cpp
index 2d3aa21..5b18bc8 100644
--- a/libs/MeshKernel/src/Polygons.cpp
+++ b/libs/MeshKernel/src/Polygons.cpp
@@ -190,37 +190,40 @@ std::vector<meshkernel::Point> Polygons::LinearRefinePolygon(UInt polygonIndex,
 
 meshkernel::Polygons Polygons::OffsetCopy(double distance, bool innerAndOuter) const
 {
-    UInt totalNumberOfPoints = GetNumNodes();
-    // TODO Should the invalid points between enclosures be added too.
-    // TODO use the correct separators between enclosures and inner polygons.
-    std::vector<Point> newPolygonPoints(totalNumberOfPoints + (innerAndOuter ? totalNumberOfPoints + 1 : 0), Point());
+    const Point outerSeparator{constants::missing::doubleValue, constants::missing::doubleValue};
+    const Point innerSeparator{constants::missing::innerOuterSeparator, constants::missing::innerOuterSeparator};
 
-    UInt innerCount = 0;
-    UInt outerCount = totalNumberOfPoints;
+    std::vector<Point> newPolygonPoints;
+    newPolygonPoints.reserve(GetNumNodes() + (innerAndOuter ? GetNumNodes() + 1 : 0));
 
-    for (const PolygonalEnclosure& enclosure : m_enclosures)
+    auto appendEnclosure = [&](const PolygonalEnclosure& enclosure)
     {
-        std::vector<Point> outerOffsetPoints(enclosure.Outer().ComputeOffset(distance, innerAndOuter));
-
-        for (size_t i = 0; i < outerOffsetPoints.size(); ++i)
+        if (!newPolygonPoints.empty())
         {
-            newPolygonPoints[innerCount] = outerOffsetPoints[i];
-            ++innerCount;
+            newPolygonPoints.push_back(outerSeparator);
         }
 
-        for (size_t i = 0; i < enclosure.NumberOfInner(); ++i)
+        const auto& outerNodes = enclosure.Outer().Nodes();
+        newPolygonPoints.insert(newPolygonPoints.end(), outerNodes.begin(), outerNodes.end());
+
+        for (UInt i = 0; i < enclosure.NumberOfInner(); ++i)
         {
-            std::vector<Point> innerOffsetPoints(enclosure.Inner(i).ComputeOffset(distance, innerAndOuter));
-            // Probably add inner separator here (if not the last)
-
-            for (size_t j = 0; j < outerOffsetPoints.size(); ++j)
-            {
-                newPolygonPoints[outerCount] = outerOffsetPoints[j];
-                ++outerCount;
-            }
+            newPolygonPoints.push_back(innerSeparator);
+            const auto& innerNodes = enclosure.Inner(i).Nodes();
+            newPolygonPoints.insert(newPolygonPoints.end(), innerNodes.begin(), innerNodes.end());
         }
+    };
 
-        // Probably add outer separator here (if not the last)
+    for (const PolygonalEnclosure& enclosure : m_enclosures)
+    {
+        const auto [outwardOffset, inwardOffset] = enclosure.OffsetCopy(distance, innerAndOuter);
+
+        appendEnclosure(*outwardOffset);
+
+        if (innerAndOuter)
+        {
+            appendEnclosure(*inwardOffset);
+        }
     }
 
     // set the new polygon
-- 
2.43.0


From a42aed11ff843bdd35bbbed8a335bcfad49aea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:55 +0000
Subject: [PATCH 46/73] fix: linear polygon refinement returned an unset point
 when it stopped after changing the number of points

---
 libs/MeshKernel/src/Polygon.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/MeshKernel/src/Polygon.cpp b/libs/MeshKernel/src/Polygon.cpp
index 1221611..6a86981 100644
--- a/libs/MeshKernel/src/Polygon.cpp
+++ b/libs/MeshKernel/src/Polygon.cpp
@@ -616,6 +616,15 @@ std::vector<meshkernel::Point> meshkernel::Polygon::LinearRefine(const UInt star
         outerIter++;
     }
 
+    if (outerIter == maxOuterIter)
+    {
+        // The number of points was changed in the last iteration
+        for (UInt i = 0; i < cumulativeDistances.size(); ++i)
+        {
+            result[i] = interpolatePointOnPolyline(polygonNodes, initialCumulativeDistances, cumulativeDistances[i]);
+        }
+    }
+
     if (endIndex > startIndex)
     {
         result.insert(result.begin(), m_nodes.begin(), m_nodes.begin() + startIndex);
-- 
2.43.0


From a07f1f08aaf48964ecb46376710eedf9ee4458ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:55 +0000
Subject: [PATCH 47/73] fix: selection of included points was shifted by
 coinciding consecutive points

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 43f9f36..345690f 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2926,13 +2926,12 @@ namespace meshkernelapi
             }
             auto const polygonVector = ConvertGeometryListToPointVector(selectingPolygon);
 
-            auto const points = ConvertGeometryListToPointVector(polygonToSelect);
-
             const meshkernel::Polygons localPolygon(polygonVector, meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
-            for (size_t i = 0; i < points.size(); ++i)
+            for (int i = 0; i < polygonToSelect.num_coordinates; ++i)
             {
-                selectionResults.values[i] = localPolygon.IsPointInPolygon(points[i], 0) ? 1.0 : 0.0;
+                const meshkernel::Point point(polygonToSelect.coordinates_x[i], polygonToSelect.coordinates_y[i]);
+                selectionResults.values[i] = localPolygon.IsPointInPolygon(point, 0) ? 1.0 : 0.0;
             }
         }
         catch (...)
-- 
2.43.0


From 042aeb3be3489d22857e0d90089309fdc43a7ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:29 +0000
Subject: [PATCH 48/73] fix: a 1d network polyline with fewer than two points
 is refused instead of reading past its end

---
 libs/MeshKernel/src/Network1D.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/MeshKernel/src/Network1D.cpp b/libs/MeshKernel/src/Network1D.cpp
index d700494..8e95923 100644
--- a/libs/MeshKernel/src/Network1D.cpp
+++ b/libs/MeshKernel/src/Network1D.cpp
@@ -42,6 +42,10 @@ Network1D::Network1D(std::vector<std::vector<Point>> const& polyLines,
     for (UInt i = 0; i < m_polyLines.size(); ++i)
     {
         auto const nodalChainages = ComputePolyLineNodalChainages(m_polyLines[i], projection);
+        if (nodalChainages.empty())
+        {
+            throw ConstraintError("Network1D::Network1D: polyline {} has less than 2 points", i);
+        }
         m_chainages[i].push_back(nodalChainages.front());
         m_chainages[i].push_back(nodalChainages.back());
     }
-- 
2.43.0


From 26329b7e9d2811fe5d57792eb9c0c6788f78a882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:29 +0000
Subject: [PATCH 49/73] fix: fixed chainages on a 1d network stay within the
 polyline and never move its ends

---
 libs/MeshKernel/src/Network1D.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/Network1D.cpp b/libs/MeshKernel/src/Network1D.cpp
index 8e95923..8fa7474 100644
--- a/libs/MeshKernel/src/Network1D.cpp
+++ b/libs/MeshKernel/src/Network1D.cpp
@@ -73,14 +73,17 @@ void Network1D::ComputeFixedChainages(std::vector<std::vector<double>> const& fi
             continue;
         }
 
-        double const startChainage = m_chainages[p][0];
-        double const endChainage = m_chainages[p][1];
+        // The chainages that are already present need not be in order
+        const auto [startIter, endIter] = std::ranges::minmax_element(m_chainages[p]);
+        double const startChainage = *startIter;
+        double const endChainage = *endIter;
 
         double previousChainage = startChainage;
-        bool previousChainageIsAFixedPoint = IsEqual(previousChainage, fixedChainagesByPolyline[p].front()) ? true : false;
+        // The start and the end of the polyline are never moved
+        bool previousChainageIsAFixedPoint = false;
         for (auto const& fixedChainage : fixedChainagesByPolyline[p])
         {
-            if (const auto chainageBeforeFixedPoint = fixedChainage - fixedChainagesOffset; chainageBeforeFixedPoint - previousChainage >= minFaceSize && chainageBeforeFixedPoint > startChainage)
+            if (const auto chainageBeforeFixedPoint = fixedChainage - fixedChainagesOffset; chainageBeforeFixedPoint - previousChainage >= minFaceSize && chainageBeforeFixedPoint > startChainage && chainageBeforeFixedPoint < endChainage)
             {
                 m_chainages[p].emplace_back(chainageBeforeFixedPoint);
                 previousChainage = chainageBeforeFixedPoint;
@@ -105,6 +108,10 @@ void Network1D::ComputeFixedChainages(std::vector<std::vector<double>> const& fi
 
 void Network1D::ComputeOffsettedChainages(double offset)
 {
+    if (!(offset > 0.0))
+    {
+        throw ConstraintError("Network1D::ComputeOffsettedChainages: the offset must be positive, but is {}", offset);
+    }
 
     for (UInt p = 0; p < m_polyLines.size(); ++p)
     {
-- 
2.43.0


From b0fe0dad79cd651240857598b02f162fb86eefe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:29 +0000
Subject: [PATCH 50/73] fix: a 1d mesh made from a network has the edges of
 every polyline, not only of the first two

---
 libs/MeshKernel/src/Mesh1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh1D.cpp b/libs/MeshKernel/src/Mesh1D.cpp
index 4630073..3b658a6 100644
--- a/libs/MeshKernel/src/Mesh1D.cpp
+++ b/libs/MeshKernel/src/Mesh1D.cpp
@@ -62,7 +62,7 @@ Mesh1D::Mesh1D(Network1D& network1d, double minFaceSize)
             edges.emplace_back(i, i + 1);
         }
         // Poly lines are separated. If the end of one polyline coincides with the start of another, the two nodes will be merged later on.
-        numNodes = numNodes + static_cast<UInt>(nodes.size());
+        numNodes = static_cast<UInt>(nodes.size());
     }
 
     // Sets the edges, nodes and projections
-- 
2.43.0


From b25c543d19a3374901bbe04544f11a2700211de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:29 +0000
Subject: [PATCH 51/73] fix: nodes on a polyline are placed right when several
 of its points lie between them

---
 libs/MeshKernel/src/Operations.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index f907872..0526490 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -1627,7 +1627,8 @@ namespace meshkernel
         std::sort(chainages.begin(), chainages.end());
         for (auto const& chainage : chainages)
         {
-            if (chainage > polylineNodalCoordinate[curentNodalIndex + 1])
+            // several polyline nodes can lie between two chainages
+            while (curentNodalIndex + 2 < polyline.size() && chainage > polylineNodalCoordinate[curentNodalIndex + 1])
             {
                 curentNodalIndex++;
             }
-- 
2.43.0


From a2c40e48701e29874fb93384d43f35ac83fb92e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:42 +0000
Subject: [PATCH 52/73] fix: converting a mesh to a curvilinear grid finds the
 face the starting point is in, also when another centre is nearer

---
 libs/MeshKernel/src/Mesh2DToCurvilinear.cpp | 39 ++++++++++++---------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp b/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
index 9eea743..1f0ad66 100644
--- a/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
+++ b/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
@@ -49,28 +49,35 @@ Mesh2DToCurvilinear::Mesh2DToCurvilinear(Mesh2D& mesh) : m_mesh(mesh)
 
 std::unique_ptr<CurvilinearGrid> Mesh2DToCurvilinear::Compute(const Point& point)
 {
-    // 1. Find the face index
-    m_mesh.BuildTree(Location::Faces);
-    const auto initialFaceIndex = m_mesh.FindLocationIndex(point, Location::Faces);
-    if (m_mesh.GetNumFaceEdges(initialFaceIndex) != geometric::numNodesInQuadrilateral)
+    // 1. Find the quadrilateral containing the point. The one with the closest centre is tried first, but does not need to contain the point
+    const auto isPointInQuadrilateral = [this, &point](UInt face)
     {
-        throw AlgorithmError("The initial face is not a quadrilateral");
-    }
+        if (m_mesh.GetNumFaceEdges(face) != geometric::numNodesInQuadrilateral)
+        {
+            return false;
+        }
 
-    // 2. Check if the point is inside the face
-    std::vector<Point> polygonPoints;
-    for (UInt n = 0; n < geometric::numNodesInQuadrilateral; ++n)
+        std::vector<Point> polygonPoints;
+        for (UInt n = 0; n < geometric::numNodesInQuadrilateral; ++n)
+        {
+            polygonPoints.emplace_back(m_mesh.Node(m_mesh.m_facesNodes[face][n]));
+        }
+        polygonPoints.emplace_back(polygonPoints.front());
+
+        return Polygon(polygonPoints, m_mesh.m_projection).Contains(point);
+    };
+
+    m_mesh.BuildTree(Location::Faces);
+    auto initialFaceIndex = m_mesh.FindLocationIndex(point, Location::Faces);
+    for (UInt face = 0; face < m_mesh.GetNumFaces() && !isPointInQuadrilateral(initialFaceIndex); ++face)
     {
-        const auto node = m_mesh.m_facesNodes[initialFaceIndex][n];
-        polygonPoints.emplace_back(m_mesh.Node(node));
+        initialFaceIndex = face;
     }
-    const auto node = m_mesh.m_facesNodes[initialFaceIndex][0];
-    polygonPoints.emplace_back(m_mesh.Node(node));
 
-    Polygon polygon(polygonPoints, m_mesh.m_projection);
-    if (!polygon.Contains(point))
+    // 2. Check if the point is inside the face
+    if (!isPointInQuadrilateral(initialFaceIndex))
     {
-        throw AlgorithmError("The initial face does not contain the starting point");
+        throw AlgorithmError("The starting point is not contained in a quadrilateral face");
     }
 
     // 3. Build the local coordinate system
-- 
2.43.0


From 83254cccca0cb8977341267dad99869b9da764c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:42 +0000
Subject: [PATCH 53/73] fix: converting a mesh to a curvilinear grid no longer
 reads the faces of edges without faces

---
 libs/MeshKernel/src/Mesh2DToCurvilinear.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp b/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
index 1f0ad66..ed865ac 100644
--- a/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
+++ b/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
@@ -312,6 +312,12 @@ bool Mesh2DToCurvilinear::CheckGridLine(const UInt validNode, const UInt candida
         const auto edgeIndex = m_mesh.m_nodesEdges[candidateNode][e];
         const auto otherNode = OtherNodeOfEdge(m_mesh.GetEdge(edgeIndex), candidateNode);
 
+        // the edge is not part of a face
+        if (m_mesh.m_edgesNumFaces[edgeIndex] == 0)
+        {
+            continue;
+        }
+
         bool doCheck = m_mesh.GetNumFaceEdges(m_mesh.m_edgesFaces[edgeIndex][0]) == geometric::numNodesInQuadrilateral;
 
         if (m_mesh.m_edgesNumFaces[edgeIndex] == 2)
-- 
2.43.0


From 9cc4035425c5a8f65bbd43b7e707d73529114dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:42 +0000
Subject: [PATCH 54/73] fix: orthogonalizing a block of a curvilinear grid
 moves only the nodes within the block

---
 .../CurvilinearGrid/CurvilinearGridOrthogonalization.cpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
index 0bd5669..90b9117 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
@@ -132,7 +132,7 @@ void CurvilinearGridOrthogonalization::ProjectHorizontalBoundaryGridNodes()
                 for (auto nn = startN + 1; nn < n; ++nn)
                 {
 
-                    if (m < m_lowerLeft.m_m || m > m_upperRight.m_m || nn < m_lowerLeft.m_n || nn > m_upperRight.m_n)
+                    if (m < m_lowerLeft.m_m || m > m_upperRight.m_m || nn <= m_lowerLeft.m_n || nn >= m_upperRight.m_n)
                     {
                         continue;
                     }
@@ -213,7 +213,7 @@ void CurvilinearGridOrthogonalization::ProjectVerticalBoundariesGridNodes()
                 for (auto mm = startM + 1; mm < m; ++mm)
                 {
 
-                    if (mm < m_lowerLeft.m_m || mm > m_upperRight.m_m || n < m_lowerLeft.m_n || n > m_upperRight.m_n)
+                    if (mm <= m_lowerLeft.m_m || mm >= m_upperRight.m_m || n < m_lowerLeft.m_n || n > m_upperRight.m_n)
                     {
                         continue;
                     }
@@ -268,8 +268,8 @@ void CurvilinearGridOrthogonalization::Solve()
     const double factor = 0.9 * 0.9;
 
     // Only the internal nodes of the orthogonalization box
-    const auto minMInternal = std::max(static_cast<UInt>(1), m_lowerLeft.m_m);
-    const auto minNInternal = std::max(static_cast<UInt>(1), m_lowerLeft.m_n);
+    const auto minMInternal = m_lowerLeft.m_m + 1;
+    const auto minNInternal = m_lowerLeft.m_n + 1;
 
     const auto maxMInternal = std::min(m_upperRight.m_m, m_grid.NumM() - 1);
     const auto maxNInternal = std::min(m_upperRight.m_n, m_grid.NumN() - 1);
-- 
2.43.0


From 06c5084d4ec4847785bae6811b41eb3ac557c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:43 +0000
Subject: [PATCH 55/73] fix: copies of a curvilinear grid keep its projection

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 83e5260..45024d9 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -39,7 +39,7 @@
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridNodeIndices;
 
-CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(grid.m_projection),
                                                                 m_gridNodes(grid.m_gridNodes),
                                                                 m_gridFacesMask(grid.m_gridFacesMask),
                                                                 m_gridNodesTypes(grid.m_gridNodesTypes),
@@ -50,7 +50,7 @@ CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(Pro
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
 }
 
-CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(grid.m_projection),
                                                                     m_gridNodes(std::move(grid.m_gridNodes)),
                                                                     m_gridFacesMask(std::move(grid.m_gridFacesMask)),
                                                                     m_gridNodesTypes(std::move(grid.m_gridNodesTypes)),
-- 
2.43.0


From 9a10ad9763aaf969964a3a6bec3ef614dfae3b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:43 +0000
Subject: [PATCH 56/73] fix: triangulating fewer than three points is refused
 instead of ending the process

---
 libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
index 16a7809..018b4fa 100644
--- a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
+++ b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
@@ -88,6 +88,10 @@ namespace meshkernel
             {
                 throw ConstraintError("The sample is empty.");
             }
+            if (inputNodes.size() < constants::geometric::numNodesInTriangle)
+            {
+                throw ConstraintError("A triangulation requires at least three points, the number of points is {}.", inputNodes.size());
+            }
             std::vector<double> xLocalPolygon(inputNodes.size());
             std::vector<double> yLocalPolygon(inputNodes.size());
             for (UInt i = 0; i < inputNodes.size(); ++i)
-- 
2.43.0


From e410b82a07fb72f1a78b809c8851ffb38d42075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:43 +0000
Subject: [PATCH 57/73] fix: snapping several polygons to the land boundary
 writes each at its own place

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 345690f..9c09c69 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3315,10 +3315,13 @@ namespace meshkernelapi
 
             const std::vector<meshkernel::Point>& snappedPolygonPoints = polygons.Enclosure(enclosureIndex).Outer().Nodes();
 
-            for (int i = 0; i < polygon.num_coordinates; ++i)
+            // The points of the snapped polygon start at this position in the list of coordinates
+            const size_t offset = static_cast<size_t>(startIndex) - polygonStartNode;
+
+            for (size_t i = 0; i < snappedPolygonPoints.size(); ++i)
             {
-                polygon.coordinates_x[i] = snappedPolygonPoints[i].x;
-                polygon.coordinates_y[i] = snappedPolygonPoints[i].y;
+                polygon.coordinates_x[offset + i] = snappedPolygonPoints[i].x;
+                polygon.coordinates_y[offset + i] = snappedPolygonPoints[i].y;
             }
         }
         catch (...)
-- 
2.43.0


From 247a63d6c90508d67f21358221f28c5cc38f961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:14 +0000
Subject: [PATCH 58/73] fix: centring a node between fixed chainages of a 1d
 network does not use a position beyond the polyline

---
 libs/MeshKernel/src/Network1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Network1D.cpp b/libs/MeshKernel/src/Network1D.cpp
index 8fa7474..77386c3 100644
--- a/libs/MeshKernel/src/Network1D.cpp
+++ b/libs/MeshKernel/src/Network1D.cpp
@@ -89,7 +89,7 @@ void Network1D::ComputeFixedChainages(std::vector<std::vector<double>> const& fi
                 previousChainage = chainageBeforeFixedPoint;
                 previousChainageIsAFixedPoint = true;
             }
-            else if (previousChainageIsAFixedPoint)
+            else if (previousChainageIsAFixedPoint && chainageBeforeFixedPoint > startChainage && chainageBeforeFixedPoint < endChainage)
             {
                 // center the gridpoint between two fixed points
                 m_chainages[p].back() = (chainageBeforeFixedPoint + previousChainage) * 0.5;
-- 
2.43.0


From 99f75f668041ca1467338372459c7ffcdfa80366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:14 +0000
Subject: [PATCH 59/73] fix: coinciding points no longer shift which polygon
 points are snapped to the land boundary

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 9c09c69..99c71c3 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3302,7 +3302,14 @@ namespace meshkernelapi
             }
 
             std::vector<meshkernel::Point> landBoundaryPoints(ConvertGeometryListToPointVector(land));
-            std::vector<meshkernel::Point> polygonPoints(ConvertGeometryListToPointVector(polygon));
+
+            // Every point is kept, also those that coincide, because the start and end index refer to the points of the list
+            std::vector<meshkernel::Point> polygonPoints;
+            polygonPoints.reserve(polygon.num_coordinates);
+            for (int i = 0; i < polygon.num_coordinates; ++i)
+            {
+                polygonPoints.emplace_back(polygon.coordinates_x[i], polygon.coordinates_y[i]);
+            }
 
             meshkernel::LandBoundary landBoundary(landBoundaryPoints);
             meshkernel::Polygons polygons(polygonPoints, meshKernelState[meshKernelId].m_mesh2d->m_projection);
-- 
2.43.0


From 0a1cde28aa8b8c1bfc3130643b3ba084f0c58611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:52 +0000
Subject: [PATCH 60/73] fix: mesh quality numbers and filtered faces are told
 for the mesh as it is, not as it was at the last administration

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 99c71c3..061428f 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1471,6 +1471,7 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto result = meshKernelState[meshKernelId].m_mesh2d->GetOrthogonality();
 
             if (static_cast<size_t>(geometryList.num_coordinates) != result.size())
@@ -1507,6 +1508,7 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            mesh2d->Administrate();
             const auto propertyValueEnum = static_cast<meshkernel::Mesh2D::Property>(propertyValue);
             switch (propertyValueEnum)
             {
@@ -1559,6 +1561,7 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            mesh2d->Administrate();
             const auto propertyValueEnum = static_cast<meshkernel::Mesh2D::Property>(propertyValue);
             dimension = -1;
             switch (propertyValueEnum)
@@ -1597,8 +1600,14 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto result = meshKernelState[meshKernelId].m_mesh2d->GetSmoothness();
 
+            if (static_cast<size_t>(geometryList.num_coordinates) != result.size())
+            {
+                throw meshkernel::MeshKernelError("The value array has not the same size of the result array storing the smoothness values at the edges");
+            }
+
             for (auto i = 0; i < geometryList.num_coordinates; ++i)
             {
                 geometryList.values[i] = result[i];
@@ -2530,6 +2539,7 @@ namespace meshkernelapi
             {
                 throw meshkernel::ConstraintError("The 2d mesh contains no nodes.");
             }
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto filterEnum = static_cast<meshkernel::Mesh2D::Property>(propertyValue);
             const auto filterMask = meshKernelState[meshKernelId].m_mesh2d->FilterBasedOnMetric(meshkernel::Location::Faces,
                                                                                                 filterEnum,
@@ -2575,6 +2585,7 @@ namespace meshkernelapi
                 throw meshkernel::ConstraintError("The 2d mesh contains no nodes.");
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto filterEnum = static_cast<meshkernel::Mesh2D::Property>(propertyValue);
             const auto filterMask = meshKernelState[meshKernelId].m_mesh2d->FilterBasedOnMetric(meshkernel::Location::Faces,
                                                                                                 filterEnum,
-- 
2.43.0


From b07a9d91f6d2e058b872ced68466ecff47f2f31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:52 +0000
Subject: [PATCH 61/73] fix: the length of a deleted edge is told as missing

---
 libs/MeshKernel/src/Mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 4ce8c77..b97e985 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -576,6 +576,10 @@ void Mesh::ComputeEdgesLengths()
         {
             m_edgeLengths[e] = ComputeDistance(m_nodes[first], m_nodes[second], m_projection);
         }
+        else
+        {
+            m_edgeLengths[e] = constants::missing::doubleValue;
+        }
     }
 }
 
-- 
2.43.0


From bb54c832f149161ffca0be0e0c3484d1fd864c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:52 +0000
Subject: [PATCH 62/73] fix: coarsening a mesh without faces no longer reads
 beyond its faces

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index 7631793..56dd55c 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -289,6 +289,11 @@ void meshkernel::CasulliDeRefinement::AddElementToList(const Mesh& mesh, const s
 std::vector<meshkernel::CasulliDeRefinement::ElementType> meshkernel::CasulliDeRefinement::InitialiseElementType(const Mesh2D& mesh,
                                                                                                                  const std::vector<int>& nodeTypes)
 {
+    if (mesh.GetNumFaces() == 0)
+    {
+        return {};
+    }
+
     UInt seedElement = FindElementSeedIndex(mesh, nodeTypes);
     UInt iterationCount = 0;
 
-- 
2.43.0


From b7446e5445cbb3238c4727b86c11e1f1c4864685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:52 +0000
Subject: [PATCH 63/73] fix: coarsening and telling the cells it takes away use
 the mesh as it is after edits

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 2 ++
 libs/MeshKernelApi/src/MeshKernel.cpp       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index 56dd55c..e9b5c59 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -42,6 +42,8 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliDeRefinement::Compute
 
 std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliDeRefinement::Compute(Mesh2D& mesh, const Polygons& polygon)
 {
+    mesh.Administrate();
+
     std::unique_ptr<FullUnstructuredGridUndo> refinementAction = FullUnstructuredGridUndo::Create(mesh);
     const std::vector<Point> meshNodes(mesh.Nodes());
     const std::vector<Edge> meshEdges(mesh.Edges());
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 061428f..ff6a03e 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3068,6 +3068,7 @@ namespace meshkernelapi
 
             meshkernel::Polygons polygons; // empty polygonal region, i.e. the entire mesh
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             std::vector<meshkernel::Point> elementCentres(meshkernel::CasulliDeRefinement::ElementsToDelete(*meshKernelState[meshKernelId].m_mesh2d, polygons));
 
             elements.num_coordinates = static_cast<int>(elementCentres.size());
@@ -3106,6 +3107,7 @@ namespace meshkernelapi
             const meshkernel::Polygons polygons(polygonPoints,
                                                 meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             std::vector<meshkernel::Point> elementCentres(meshkernel::CasulliDeRefinement::ElementsToDelete(*meshKernelState[meshKernelId].m_mesh2d, polygons));
 
             elements.num_coordinates = static_cast<int>(elementCentres.size());
-- 
2.43.0


From dc4fafb2e2fda9387fb22b776dc36695ab991692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:52 +0000
Subject: [PATCH 64/73] fix: a coarsening that fails leaves the mesh as it was

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index e9b5c59..5060d70 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -48,7 +48,20 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliDeRefinement::Compute
     const std::vector<Point> meshNodes(mesh.Nodes());
     const std::vector<Edge> meshEdges(mesh.Edges());
 
-    if (DoDeRefinement(mesh, polygon))
+    bool deRefined = false;
+
+    try
+    {
+        deRefined = DoDeRefinement(mesh, polygon);
+    }
+    catch (...)
+    {
+        // The de-refinement failed, restore the original mesh
+        refinementAction->Restore();
+        throw;
+    }
+
+    if (deRefined)
     {
         mesh.DeleteInvalidNodesAndEdges();
         mesh.Administrate();
-- 
2.43.0


From 2a3a7118226247db88ceea9e074d74e9ce9f27b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:04 +0000
Subject: [PATCH 65/73] fix: refining an edited mesh by splitting its nodes
 uses the mesh as it is

---
 libs/MeshKernel/src/CasulliRefinement.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index ccace28..cca8137 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -40,9 +40,11 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(M
 
 std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(Mesh2D& mesh, const Polygons& polygon)
 {
+    std::unique_ptr<CompoundUndoAction> refinementAction = CompoundUndoAction::Create();
+    mesh.Administrate(refinementAction.get());
+
     std::vector<EdgeNodes> newNodes(mesh.GetNumEdges(), {constants::missing::uintValue, constants::missing::uintValue, constants::missing::uintValue, constants::missing::uintValue});
     std::vector<NodeMask> nodeMask(InitialiseNodeMask(mesh, polygon));
-    std::unique_ptr<CompoundUndoAction> refinementAction = CompoundUndoAction::Create();
 
     const UInt numNodes = mesh.GetNumNodes();
     const UInt numEdges = mesh.GetNumEdges();
-- 
2.43.0


From 2eccd968e3f2897e8a93ae957a23047e11bc8ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:04 +0000
Subject: [PATCH 66/73] fix: operations on a mesh that was edited since its
 last administration use the mesh as it is

---
 libs/MeshKernel/src/Contacts.cpp                  | 5 +++++
 libs/MeshKernel/src/RemoveDisconnectedRegions.cpp | 2 ++
 libs/MeshKernelApi/src/MeshKernel.cpp             | 9 +++++++++
 3 files changed, 16 insertions(+)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index 4f4c81b..236d99d 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -34,6 +34,7 @@ void Contacts::ComputeSingleContacts(const std::vector<bool>& oneDNodeMask,
     }
 
     m_mesh1d.AdministrateNodesEdges();
+    m_mesh2d.Administrate();
 
     Validate();
 
@@ -155,6 +156,7 @@ void Contacts::ComputeMultipleContacts(const std::vector<bool>& oneDNodeMask)
 
     // perform mesh1d administration
     m_mesh1d.AdministrateNodesEdges();
+    m_mesh2d.Administrate();
 
     Validate();
 
@@ -263,6 +265,7 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
 
     // perform mesh1d administration
     m_mesh1d.AdministrateNodesEdges();
+    m_mesh2d.Administrate();
     Validate();
 
     // no 1d node can be connected
@@ -341,6 +344,7 @@ void Contacts::ComputeContactsWithPoints(const std::vector<bool>& oneDNodeMask,
 
     // perform mesh1d administration (m_nodesRTree will also be build if necessary)
     m_mesh1d.AdministrateNodesEdges();
+    m_mesh2d.Administrate();
 
     Validate();
 
@@ -386,6 +390,7 @@ void Contacts::ComputeBoundaryContacts(const std::vector<bool>& oneDNodeMask,
 
     // perform mesh1d administration
     m_mesh1d.AdministrateNodesEdges();
+    m_mesh2d.Administrate();
 
     Validate();
 
diff --git a/libs/MeshKernel/src/RemoveDisconnectedRegions.cpp b/libs/MeshKernel/src/RemoveDisconnectedRegions.cpp
index bce50a1..e703ffd 100644
--- a/libs/MeshKernel/src/RemoveDisconnectedRegions.cpp
+++ b/libs/MeshKernel/src/RemoveDisconnectedRegions.cpp
@@ -148,6 +148,8 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::RemoveDisconnectedRegions::C
 
     std::unique_ptr<meshkernel::CompoundUndoAction> removalAction = CompoundUndoAction::Create();
 
+    mesh.Administrate(removalAction.get());
+
     // Generate region identifier for all elements in the mesh and a mapping between the region id the the number of elements.
     LabelAllDomainRegions(mesh, elementRegionId, regionCount);
 
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index ff6a03e..dfaac61 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -506,6 +506,8 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh not exist.");
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             auto const landBoundariesPoints = ConvertGeometryListToPointVector(landBoundaries);
             auto const polygonNodes = ConvertGeometryListToPointVector(selectingPolygon);
 
@@ -541,6 +543,8 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh not exist.");
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             meshkernel::UInt edgeId = meshKernelState[meshKernelId].m_mesh2d->FindEdge(static_cast<meshkernel::UInt>(firstNode),
                                                                                        static_cast<meshkernel::UInt>(secondNode));
 
@@ -1208,6 +1212,7 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             meshKernelUndoStack.Add(AdministrateWithUndo(*meshKernelState[meshKernelId].m_mesh2d, meshKernelState[meshKernelId].m_mesh2d->DeleteHangingEdges()), meshKernelId);
         }
         catch (...)
@@ -1235,6 +1240,8 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The 2d mesh contains no nodes.");
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             // build the selecting polygon
             auto const polygonNodes = ConvertGeometryListToPointVector(selectingPolygon);
 
@@ -1283,6 +1290,8 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             // build the selecting polygon
             auto const polygonNodesVector = ConvertGeometryListToPointVector(selectingPolygon);
 
-- 
2.43.0


From c5de2812c14ba7b919a0b14afa0e26330eb193f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:04 +0000
Subject: [PATCH 67/73] fix: adding a grid line updates the node indices of the
 grid

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 45024d9..57dd1e5 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -790,6 +790,13 @@ std::tuple<bool, meshkernel::UndoActionPtr> CurvilinearGrid::AddGridLineAtBounda
         }
     }
 
+    if (gridSizeChanged)
+    {
+        m_gridIndices = ComputeNodeIndices();
+        m_nodesRTreeRequiresUpdate = true;
+        m_edgesRTreeRequiresUpdate = true;
+    }
+
     return {gridSizeChanged, std::move(undoAction)};
 }
 
-- 
2.43.0


From 68d3a33734154808f35bd5f675bb4d45705c3c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:30 +0000
Subject: [PATCH 68/73] fix: operations after undoing an added grid line no
 longer use its hidden nodes

---
 .../CurvilinearGrid/CurvilinearGrid.hpp       |  3 ++
 .../src/CurvilinearGrid/CurvilinearGrid.cpp   | 36 +++++++++++++++++++
 libs/MeshKernelApi/src/MeshKernel.cpp         |  5 +++
 3 files changed, 44 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
index 1679d22..3b967b9 100644
--- a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
@@ -430,6 +430,9 @@ namespace meshkernel
         /// @brief Restore grid to state after grid line was added
         void CommitAction(const AddGridLineUndoAction& undoAction);
 
+        /// @brief Delete the grid lines that are hidden since their addition has been undone
+        void DeleteHiddenGridLines();
+
         /// @brief Restore grid to state before grid block was modified
         ///
         /// The modification could be from e.g. orthogonalisation, delete interior, ...
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 57dd1e5..fbff397 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -1160,6 +1160,25 @@ void CurvilinearGrid::RestoreAction(const AddGridLineUndoAction& undoAction)
 
 void CurvilinearGrid::CommitAction(const AddGridLineUndoAction& undoAction)
 {
+    // The hidden grid lines may have been deleted, they are then added again.
+    // The nodes of these grid lines are set by the actions following this one
+    for (UInt i = m_startOffset.m_n; i < undoAction.StartOffset().m_n; ++i, ++m_startOffset.m_n)
+    {
+        lin_alg::InsertRow(m_gridNodes, lin_alg::RowVector<Point>(FullNumM()), 0);
+    }
+    for (UInt i = m_endOffset.m_n; i < undoAction.EndOffset().m_n; ++i, ++m_endOffset.m_n)
+    {
+        lin_alg::InsertRow(m_gridNodes, lin_alg::RowVector<Point>(FullNumM()), FullNumN());
+    }
+    for (UInt i = m_startOffset.m_m; i < undoAction.StartOffset().m_m; ++i, ++m_startOffset.m_m)
+    {
+        lin_alg::InsertCol(m_gridNodes, lin_alg::ColVector<Point>(FullNumN()), 0);
+    }
+    for (UInt i = m_endOffset.m_m; i < undoAction.EndOffset().m_m; ++i, ++m_endOffset.m_m)
+    {
+        lin_alg::InsertCol(m_gridNodes, lin_alg::ColVector<Point>(FullNumN()), FullNumM());
+    }
+
     m_startOffset -= undoAction.StartOffset();
     m_endOffset -= undoAction.EndOffset();
     m_nodesRTreeRequiresUpdate = true;
@@ -1168,6 +1187,23 @@ void CurvilinearGrid::CommitAction(const AddGridLineUndoAction& undoAction)
     ComputeGridNodeTypes();
 }
 
+void CurvilinearGrid::DeleteHiddenGridLines()
+{
+    if (m_startOffset.m_n + m_startOffset.m_m + m_endOffset.m_n + m_endOffset.m_m == 0)
+    {
+        return;
+    }
+
+    const lin_alg::Matrix<Point> visibleNodes = m_gridNodes.block(m_startOffset.m_n, m_startOffset.m_m, NumN(), NumM());
+    m_gridNodes = visibleNodes;
+    m_startOffset = {0, 0};
+    m_endOffset = {0, 0};
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_gridIndices = ComputeNodeIndices();
+    ComputeGridNodeTypes();
+}
+
 void CurvilinearGrid::RestoreAction(CurvilinearGridBlockUndoAction& undoAction)
 {
     undoAction.Swap(*this);
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index dfaac61..17838f1 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -281,6 +281,11 @@ namespace meshkernelapi
             {
                 undone = true;
                 meshKernelId = *undoOption;
+
+                if (auto state = meshKernelState.find(meshKernelId); state != meshKernelState.end() && state->second.m_curvilinearGrid)
+                {
+                    state->second.m_curvilinearGrid->DeleteHiddenGridLines();
+                }
             }
         }
         catch (...)
-- 
2.43.0


From bf4c101163183c817ff5876f8948b2ec97579cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 69/73] fix: deleting in a polygon keeps edges without faces
 that are not selected

---
 libs/MeshKernel/src/Mesh2D.cpp | 41 ++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 9d8abc5..6db2334 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -1737,11 +1737,52 @@ std::unique_ptr<meshkernel::UndoAction> Mesh2D::DeleteMesh(const Polygons& polyg
         { return isFaceCompletlyIncludedInPolygon[f] || faceIntersections[f].faceIndex != constants::missing::uintValue; };
     }
 
+    // An edge without faces is selected by the same rule as a face
+    const auto isCrossedBy = [this](const Edge& edge, const Polygon& ring)
+    {
+        for (UInt n = 1; n < ring.Size(); ++n)
+        {
+            if (std::get<0>(AreSegmentsCrossing(m_nodes[edge.first], m_nodes[edge.second], ring.Node(n - 1), ring.Node(n), false, m_projection)))
+            {
+                return true;
+            }
+        }
+        return false;
+    };
+
+    const auto excludedEdge = [this, &polygon, &isNodeInsidePolygon, &isCrossedBy, deletionOption, invertDeletion](const Edge& edge)
+    {
+        bool isSelected = isNodeInsidePolygon[edge.first] && isNodeInsidePolygon[edge.second];
+
+        if (polygon.GetNumPolygons() > 0 && isSelected == (deletionOption == InsideNotIntersected))
+        {
+            bool isCrossed = false;
+            for (UInt p = 0; p < polygon.GetNumPolygons() && !isCrossed; ++p)
+            {
+                const auto& enclosure = polygon.Enclosure(p);
+                isCrossed = isCrossedBy(edge, enclosure.Outer());
+                for (UInt i = 0; i < enclosure.NumberOfInner() && !isCrossed; ++i)
+                {
+                    isCrossed = isCrossedBy(edge, enclosure.Inner(i));
+                }
+            }
+            isSelected = deletionOption == InsideNotIntersected ? !isCrossed : isCrossed;
+        }
+
+        return isSelected == invertDeletion;
+    };
+
     // Mark edges for deletion
     for (UInt e = 0; e < GetNumEdges(); ++e)
     {
         const auto numEdgeFaces = GetNumEdgesFaces(e);
 
+        if (numEdgeFaces == 0 && m_edges[e].first != constants::missing::uintValue && m_edges[e].second != constants::missing::uintValue && excludedEdge(m_edges[e]))
+        {
+            deleteNode[m_edges[e].first] = false;
+            deleteNode[m_edges[e].second] = false;
+            continue;
+        }
         if (numEdgeFaces == 1 && excludedFace(m_edgesFaces[e][0]))
         {
             deleteNode[m_edges[e].first] = false;
-- 
2.43.0


From 27265bcb0c9b2bf4f98be405680065fc8829c0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:31 +0000
Subject: [PATCH 70/73] fix: steps of an orthogonalization keep nodes outside
 the polygon in place and refuse a changed mesh

---
 .../OrthogonalizationAndSmoothing.hpp         |  9 ++++
 .../src/OrthogonalizationAndSmoothing.cpp     | 41 +++++++++++++++----
 libs/MeshKernelApi/src/MeshKernel.cpp         | 15 +++++++
 3 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp b/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp
index f6deee4..abfa852 100644
--- a/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp
+++ b/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp
@@ -113,7 +113,13 @@ namespace meshkernel
         /// @brief Finalize the outer iteration, computes new mu and face areas, masscenters, circumcenters
         void FinalizeOuterIteration();
 
+        /// @brief Determine if the mesh has been changed by something else since the last step
+        [[nodiscard]] bool IsMeshChanged() const;
+
     private:
+        /// @brief Flag the nodes outside the polygon as corner points, administrating the mesh resets the node types
+        void FlagNodesOutsidePolygon();
+
         /// @brief Project mesh nodes back to the original mesh boundary (orthonet_project_on_boundary)
         void SnapMeshToOriginalMeshBoundary();
 
@@ -151,6 +157,9 @@ namespace meshkernel
         std::vector<UInt> m_localCoordinatesIndices; ///< Used in sphericalAccurate projection (iloc)
         std::vector<Point> m_localCoordinates;       ///< Used in sphericalAccurate projection (xloc,yloc)
         std::vector<Point> m_orthogonalCoordinates;  ///< A copy of the mesh node, orthogonalized
+        std::vector<Point> m_currentNodes;           ///< The nodes of the mesh after the last step
+        std::vector<Edge> m_currentEdges;            ///< The edges of the mesh after the last step
+        std::vector<int> m_nodeMask;                 ///< The nodes inside the polygon
         std::vector<Point> m_originalNodes;          ///< The original mesh
 
         // Linear system terms
diff --git a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
index 0067c38..2dbf38e 100644
--- a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
+++ b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
@@ -61,19 +61,15 @@ std::unique_ptr<meshkernel::UndoAction> OrthogonalizationAndSmoothing::Initializ
 {
     // Sets the node mask
     m_mesh.Administrate();
-    const auto nodeMask = m_mesh.NodeMaskFromPolygon(*m_polygons, true);
+    m_nodeMask = m_mesh.NodeMaskFromPolygon(*m_polygons, true);
+    FlagNodesOutsidePolygon();
 
     std::vector<UInt> nodeIndices(m_mesh.GetNumNodes(), constants::missing::uintValue);
     UInt nodesMovedCount = 0;
 
-    // Flag nodes outside the polygon as corner points
-    for (UInt n = 0; n < nodeMask.size(); n++)
+    for (UInt n = 0; n < m_nodeMask.size(); n++)
     {
-        if (nodeMask[n] == 0)
-        {
-            m_mesh.m_nodesTypes[n] = 3;
-        }
-        else
+        if (m_nodeMask[n] != 0)
         {
             nodeIndices[nodesMovedCount] = n;
             ++nodesMovedCount;
@@ -90,6 +86,8 @@ std::unique_ptr<meshkernel::UndoAction> OrthogonalizationAndSmoothing::Initializ
     // back-up original nodes, for projection on original mesh boundary
     m_originalNodes = m_mesh.Nodes();
     m_orthogonalCoordinates = m_mesh.Nodes();
+    m_currentNodes = m_mesh.Nodes();
+    m_currentEdges = m_mesh.Edges();
 
     // account for enclosing polygon
     m_landBoundaries->FindNearestMeshBoundary(m_projectToLandBoundaryOption);
@@ -134,8 +132,26 @@ void OrthogonalizationAndSmoothing::Compute()
     } // outer iter
 }
 
+void OrthogonalizationAndSmoothing::FlagNodesOutsidePolygon()
+{
+    for (UInt n = 0; n < m_nodeMask.size(); n++)
+    {
+        if (m_nodeMask[n] == 0)
+        {
+            m_mesh.m_nodesTypes[n] = 3;
+        }
+    }
+}
+
+bool OrthogonalizationAndSmoothing::IsMeshChanged() const
+{
+    return m_mesh.Nodes() != m_currentNodes || m_mesh.Edges() != m_currentEdges;
+}
+
 void OrthogonalizationAndSmoothing::PrepareOuterIteration()
 {
+    FlagNodesOutsidePolygon();
+
     // compute weights and rhs of orthogonalizer
     m_orthogonalizer->Compute();
 
@@ -238,6 +254,12 @@ void OrthogonalizationAndSmoothing::ComputeLinearSystemTerms()
 
 void OrthogonalizationAndSmoothing::Solve()
 {
+    if (m_compressedStartNodeIndex.size() != m_mesh.GetNumNodes())
+    {
+        throw MeshKernelError("The outer iteration of the orthogonalization has not been prepared.");
+    }
+
+    FlagNodesOutsidePolygon();
 
 #pragma omp parallel for
     for (int n = 0; n < static_cast<int>(m_mesh.GetNumNodes()); n++)
@@ -256,6 +278,9 @@ void OrthogonalizationAndSmoothing::Solve()
 
     // project on land boundary
     [[maybe_unused]] auto action = m_landBoundaries->SnapMeshToLandBoundaries();
+
+    m_currentNodes = m_mesh.Nodes();
+    m_currentEdges = m_mesh.Edges();
 }
 
 void OrthogonalizationAndSmoothing::SnapMeshToOriginalMeshBoundary()
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 17838f1..c5b3ed8 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1345,6 +1345,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The mesh orthogonalization has not been initialized.");
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization->IsMeshChanged())
+            {
+                throw meshkernel::MeshKernelError("The mesh has been changed since the last step of the orthogonalization.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->PrepareOuterIteration();
         }
         catch (...)
@@ -1374,6 +1379,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The mesh orthogonalization has not been initialized.");
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization->IsMeshChanged())
+            {
+                throw meshkernel::MeshKernelError("The mesh has been changed since the last step of the orthogonalization.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->Solve();
         }
         catch (...)
@@ -1437,6 +1447,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The mesh orthogonalization has not been initialized.");
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization->IsMeshChanged())
+            {
+                throw meshkernel::MeshKernelError("The mesh has been changed since the last step of the orthogonalization.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->FinalizeOuterIteration();
         }
         catch (...)
-- 
2.43.0


From 402ea5611917adc2b5d7163f68587f957519d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:31 +0000
Subject: [PATCH 71/73] fix: replacing the mesh ends an orthogonalization in
 progress

---
 libs/MeshKernelApi/src/MKStateUndoAction.cpp | 6 ++++++
 libs/MeshKernelApi/src/MeshKernel.cpp        | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/libs/MeshKernelApi/src/MKStateUndoAction.cpp b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
index c0ce513..dc0b4a8 100644
--- a/libs/MeshKernelApi/src/MKStateUndoAction.cpp
+++ b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
@@ -54,6 +54,12 @@ void meshkernelapi::MKStateUndoAction::SwapContents()
     std::swap(m_mkState.m_network1d, m_mkStateReference.m_network1d);
     std::swap(m_mkState.m_contacts, m_mkStateReference.m_contacts);
     std::swap(m_mkState.m_curvilinearGrid, m_mkStateReference.m_curvilinearGrid);
+
+    // An orthogonalization in progress works on the mesh that has been replaced
+    if (m_mkState.m_mesh2d != m_mkStateReference.m_mesh2d)
+    {
+        m_mkStateReference.m_meshOrthogonalization.reset();
+    }
 }
 
 void meshkernelapi::MKStateUndoAction::DoCommit()
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index c5b3ed8..c4f3ee9 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -487,6 +487,9 @@ namespace meshkernelapi
                                                                                               meshKernelState[meshKernelId].m_projection);
             }
 
+            // An orthogonalization in progress works on the mesh that has been replaced
+            meshKernelState[meshKernelId].m_meshOrthogonalization.reset();
+
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
@@ -1156,6 +1159,7 @@ namespace meshkernelapi
 
             meshKernelState[meshKernelId].m_curvilinearGrid = mesh2DToCurvilinear.Compute({xPointCoordinate, yPointCoordinate});
             meshKernelState[meshKernelId].m_mesh2d = std::make_unique<meshkernel::Mesh2D>(meshKernelState[meshKernelId].m_projection);
+            meshKernelState[meshKernelId].m_meshOrthogonalization.reset();
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
-- 
2.43.0


From 0f5027af287dc6b7b57ad064cafa558269108c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:31 +0000
Subject: [PATCH 72/73] fix: growing a layer that does not exist, or from
 splines that gave no grid, is refused

---
 .../src/CurvilinearGrid/CurvilinearGridFromSplines.cpp      | 6 ++++++
 libs/MeshKernelApi/src/MeshKernel.cpp                       | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
index 96b1228..13323df 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
@@ -396,6 +396,12 @@ namespace meshkernel
 
     void CurvilinearGridFromSplines::Iterate(UInt layer)
     {
+        // The last row of the grid points is never grown, there are no grid points before the initialization
+        if (m_gridPoints.rows() == 0 || layer < 1 || layer >= static_cast<UInt>(m_gridPoints.rows()) - 1)
+        {
+            throw ConstraintError("The layer to grow is not in the range from 1 to the number of layers: {}.", layer);
+        }
+
         GrowLayer(layer);
 
         for (UInt j = 0; j < m_subLayerGridPoints.size(); ++j)
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index c4f3ee9..209a049 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4213,9 +4213,11 @@ namespace meshkernelapi
             auto spline = std::make_shared<meshkernel::Splines>(meshKernelState[meshKernelId].m_projection);
             SetSplines(geometryList, *spline);
 
-            meshKernelState[meshKernelId].m_curvilinearGridFromSplines = std::make_unique<meshkernel::CurvilinearGridFromSplines>(spline, curvilinearParameters, splinesToCurvilinearParameters);
+            auto curvilinearGridFromSplines = std::make_unique<meshkernel::CurvilinearGridFromSplines>(spline, curvilinearParameters, splinesToCurvilinearParameters);
 
-            meshKernelState[meshKernelId].m_curvilinearGridFromSplines->Initialize();
+            curvilinearGridFromSplines->Initialize();
+
+            meshKernelState[meshKernelId].m_curvilinearGridFromSplines = std::move(curvilinearGridFromSplines);
         }
         catch (...)
         {
-- 
2.43.0


From f40254a9c3952cb6c5c54cf8cc61a4b53a8e2be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:31 +0000
Subject: [PATCH 73/73] fix: undoing a circular grid takes the grid away

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 209a049..e3851ed 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4394,8 +4394,8 @@ namespace meshkernelapi
             }
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
-            *meshKernelState[meshKernelId].m_curvilinearGrid = meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters,
-                                                                                                                        meshKernelState[meshKernelId].m_projection);
+            meshKernelState[meshKernelId].m_curvilinearGrid = std::make_unique<meshkernel::CurvilinearGrid>(meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters,
+                                                                                                                                                                       meshKernelState[meshKernelId].m_projection));
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0

