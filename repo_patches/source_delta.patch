From be83f2265033cee8f5404313eb83b079eb8d80d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:16 +0000
Subject: [PATCH 01/23] fix: mkernel_get_projection rejects an unknown mesh
 kernel id

The state map was subscripted without checking that the id exists, which
silently created a state for the unknown id and reported success, and could
let an exception leave the C API.
---
 libs/MeshKernelApi/src/MeshKernel.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 6435847..8570485 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -5304,7 +5304,19 @@ namespace meshkernelapi
     MKERNEL_API int mkernel_get_projection(int meshKernelId, int& projection)
     {
         lastExitCode = meshkernel::ExitCode::Success;
-        projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        try
+        {
+            if (!meshKernelState.contains(meshKernelId))
+            {
+                throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
+            }
+
+            projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        }
+        catch (...)
+        {
+            lastExitCode = HandleException();
+        }
         return lastExitCode;
     }
 
-- 
2.43.0


From 6b27316a289ebc2f94e1872bc71f4b6759507c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:16 +0000
Subject: [PATCH 02/23] fix: mkernel_mesh2d_get_closest_node stops when the
 node lookup fails

When mkernel_mesh2d_get_node_index failed, the function continued with an
uninitialised node index and subscripted the state map with an id that may
not exist, creating a state for it.
---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 8570485..49ef38b 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2856,6 +2856,11 @@ namespace meshkernelapi
                                                                                            yUpperRightBoundingBox,
                                                                                            nodeIndex));
 
+            if (lastExitCode != meshkernel::ExitCode::Success)
+            {
+                return lastExitCode;
+            }
+
             // Set the node coordinate
             const auto foundNode = meshKernelState[meshKernelId].m_mesh2d->Node(nodeIndex);
             xCoordinateOut = foundNode.x;
-- 
2.43.0


From 1f0c6a63c0a40f7cc814b04122b69c61a8db79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:42 +0000
Subject: [PATCH 03/23] fix: interactive steps fail cleanly when their session
 was not initialized

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 49ef38b..2ca8c3a 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1311,6 +1311,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The mesh orthogonalization has not been initialized.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->PrepareOuterIteration();
         }
         catch (...)
@@ -1335,6 +1340,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The mesh orthogonalization has not been initialized.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->Solve();
         }
         catch (...)
@@ -1393,6 +1403,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The mesh orthogonalization has not been initialized.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->FinalizeOuterIteration();
         }
         catch (...)
@@ -4578,6 +4593,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel state does not exist.");
             }
 
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The curvilinear grid line shift has not been initialized.");
+            }
+
             meshkernel::Point const firstNode{xFirstGridLineNode, yFirstGridLineNode};
             meshkernel::Point const secondNode{xSecondGridLineNode, ySecondGridLineNode};
 
@@ -4640,6 +4660,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel state does not exist.");
             }
 
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The curvilinear grid line shift has not been initialized.");
+            }
+
             meshkernel::Point const lowerLeftPoint{xLowerLeftCorner, yLowerLeftCorner};
             meshkernel::Point const upperRightPoint{xUpperRightCorner, yUpperRightCorner};
 
@@ -4665,6 +4690,11 @@ namespace meshkernelapi
             {
                 throw meshkernel::MeshKernelError("The selected mesh kernel state does not exist.");
             }
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The curvilinear grid line shift has not been initialized.");
+            }
+
             meshkernel::Point const fromPoint{xFromCoordinate, yFromCoordinate};
             meshkernel::Point const toPoint{xToCoordinate, yToCoordinate};
             meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_curvilinearGridLineShift->MoveNode(fromPoint, toPoint), meshKernelId);
-- 
2.43.0


From c0022e6fb598eb61e89b1029950cd935447de023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:03 +0000
Subject: [PATCH 04/23] fix: undoing mkernel_network1d_set restores the
 previous network

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 2ca8c3a..7ecbb16 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -661,8 +661,8 @@ namespace meshkernelapi
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
-            // Do not change the pointer, just the object it is pointing to
-            *meshKernelState[meshKernelId].m_network1d = meshkernel::Network1D(localPolylines, meshKernelState[meshKernelId].m_projection);
+            // Replace the pointer, the undo action keeps the previous network
+            meshKernelState[meshKernelId].m_network1d = std::make_shared<meshkernel::Network1D>(localPolylines, meshKernelState[meshKernelId].m_projection);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From 8bff09094be017cd42b1ecc2c93685e46fff19d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:45 +0000
Subject: [PATCH 05/23] fix: undoing mkernel_curvilinear_compute_circular_grid
 restores the previous grid

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 7ecbb16..3f9cc2f 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4306,8 +4306,10 @@ namespace meshkernelapi
             }
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
-            *meshKernelState[meshKernelId].m_curvilinearGrid = meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters,
-                                                                                                                        meshKernelState[meshKernelId].m_projection);
+            const auto curvilinearGrid = std::make_shared<meshkernel::CurvilinearGrid>(meshKernelState[meshKernelId].m_projection);
+            *curvilinearGrid = meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters,
+                                                                                        meshKernelState[meshKernelId].m_projection);
+            meshKernelState[meshKernelId].m_curvilinearGrid = curvilinearGrid;
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From c30efe7b2d7ae8d3bd73218587bb0859e2acd625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:45 +0000
Subject: [PATCH 06/23] fix: mkernel_mesh2d_snap_to_landboundary records its
 undo action under the mesh kernel id

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 3f9cc2f..31c6aae 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -500,7 +500,7 @@ namespace meshkernelapi
             landBoundary.FindNearestMeshBoundary(meshkernel::LandBoundaries::ProjectToLandBoundaryOption::InnerAndOuterMeshBoundaryToLandBoundary);
 
             // Execute algorithm
-            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries());
+            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries(), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From c8601ce3d31939765db6f5fb7d6009942f916b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:42 +0000
Subject: [PATCH 07/23] fix: copying or moving a curvilinear grid keeps its
 projection, edges and offsets

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp        | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 5ed31d5..6adc096 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -39,23 +39,29 @@
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridNodeIndices;
 
-CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(grid.m_projection),
                                                                 m_gridNodes(grid.m_gridNodes),
                                                                 m_gridFacesMask(grid.m_gridFacesMask),
                                                                 m_gridNodesTypes(grid.m_gridNodesTypes),
-                                                                m_gridIndices(grid.m_gridIndices)
+                                                                m_gridIndices(grid.m_gridIndices),
+                                                                m_edges(grid.m_edges),
+                                                                m_startOffset(grid.m_startOffset),
+                                                                m_endOffset(grid.m_endOffset)
 {
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
 }
 
-CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(grid.m_projection),
                                                                     m_gridNodes(std::move(grid.m_gridNodes)),
                                                                     m_gridFacesMask(std::move(grid.m_gridFacesMask)),
                                                                     m_gridNodesTypes(std::move(grid.m_gridNodesTypes)),
                                                                     m_gridIndices(std::move(grid.m_gridIndices)),
-                                                                    m_RTrees(std::move(grid.m_RTrees)) {}
+                                                                    m_RTrees(std::move(grid.m_RTrees)),
+                                                                    m_edges(std::move(grid.m_edges)),
+                                                                    m_startOffset(grid.m_startOffset),
+                                                                    m_endOffset(grid.m_endOffset) {}
 
 CurvilinearGrid::CurvilinearGrid(Projection projection) : m_projection(projection)
 {
-- 
2.43.0


From d3e19ae269757e479ec3799284cee18828226f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:54 +0000
Subject: [PATCH 08/23] fix: undoing mkernel_mesh2d_convert_projection restores
 the projection of the state

---
 libs/MeshKernelApi/src/MKStateUndoAction.cpp |  1 +
 libs/MeshKernelApi/src/MeshKernel.cpp        | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MKStateUndoAction.cpp b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
index c0ce513..3732a1e 100644
--- a/libs/MeshKernelApi/src/MKStateUndoAction.cpp
+++ b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
@@ -54,6 +54,7 @@ void meshkernelapi::MKStateUndoAction::SwapContents()
     std::swap(m_mkState.m_network1d, m_mkStateReference.m_network1d);
     std::swap(m_mkState.m_contacts, m_mkStateReference.m_contacts);
     std::swap(m_mkState.m_curvilinearGrid, m_mkStateReference.m_curvilinearGrid);
+    std::swap(m_mkState.m_projection, m_mkStateReference.m_projection);
 }
 
 void meshkernelapi::MKStateUndoAction::DoCommit()
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 31c6aae..5755c0f 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1090,16 +1090,20 @@ namespace meshkernelapi
 
             if (sourceProjection != targetProjection)
             {
+                // The state keeps the projection too, so it has to be restored together with the mesh
+                std::unique_ptr<meshkernel::CompoundUndoAction> undoAction = meshkernel::CompoundUndoAction::Create();
+                undoAction->Add(MKStateUndoAction::Create(meshKernelState[meshKernelId]));
+
                 if (sourceProjection == meshkernel::Projection::cartesian)
                 {
                     meshkernel::ConvertCartesianToSpherical conversion(zoneString);
-                    meshKernelUndoStack.Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion), meshKernelId);
+                    undoAction->Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion));
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
                 }
                 else if (sourceProjection == meshkernel::Projection::spherical)
                 {
                     meshkernel::ConvertSphericalToCartesian conversion(zoneString);
-                    meshKernelUndoStack.Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion), meshKernelId);
+                    undoAction->Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion));
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
                 }
                 else
@@ -1108,6 +1112,8 @@ namespace meshkernelapi
                                                       meshkernel::ProjectionToString(sourceProjection),
                                                       meshkernel::ProjectionToString(targetProjection));
                 }
+
+                meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
             }
         }
         catch (...)
-- 
2.43.0


From e2bfa59e0d8b3f331bde12c12f185fd19d6a8ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:30 +0000
Subject: [PATCH 09/23] fix: undoing mkernel_curvilinear_smoothing_directional
 restores the unsmoothed grid

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 5755c0f..c7c4b04 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4538,8 +4538,9 @@ namespace meshkernelapi
             meshkernel::Point const lowerLeft{xLowerLeftCornerSmoothingArea, yLowerLeftCornerSmoothingArea};
             meshkernel::Point const upperRight{xUpperRightCornerSmootingArea, yUpperRightCornerSmootingArea};
 
-            // Execute
-            meshkernel::CurvilinearGridSmoothing curvilinearGridSmoothing(*meshKernelState[meshKernelId].m_curvilinearGrid, smoothingIterations);
+            // Execute on a copy, the undo action keeps the original grid
+            meshkernel::CurvilinearGrid curvilinearGrid(*meshKernelState[meshKernelId].m_curvilinearGrid);
+            meshkernel::CurvilinearGridSmoothing curvilinearGridSmoothing(curvilinearGrid, smoothingIterations);
 
             curvilinearGridSmoothing.SetLine(firstNode, secondNode);
             curvilinearGridSmoothing.SetBlock(lowerLeft, upperRight);
-- 
2.43.0


From 063245eb6929f2845b2f2a0dfe0ba84265dd0ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:30 +0000
Subject: [PATCH 10/23] fix: mkernel_contacts_set can be undone

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index c7c4b04..c2a1eb9 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1065,7 +1065,12 @@ namespace meshkernelapi
                 mesh2dIndices[i] = contacts.mesh2d_indices[i];
             }
 
+            auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
+
+            meshKernelState[meshKernelId].m_contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
             meshKernelState[meshKernelId].m_contacts->SetIndices(mesh1dIndices, mesh2dIndices);
+
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From 7915940fa537930fe6a399a65fa9b366acd343c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:21 +0000
Subject: [PATCH 11/23] fix: spline intersection always sets the cross product
 of the crossing

---
 libs/MeshKernel/src/Splines.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/Splines.cpp b/libs/MeshKernel/src/Splines.cpp
index bf22a2b..9e966b5 100644
--- a/libs/MeshKernel/src/Splines.cpp
+++ b/libs/MeshKernel/src/Splines.cpp
@@ -186,6 +186,8 @@ bool Splines::GetSplinesIntersection(UInt first,
     const auto numNodesFirstSpline = static_cast<UInt>(m_splineNodes[first].size());
     const auto numNodesSecondSpline = static_cast<UInt>(m_splineNodes[second].size());
 
+    crossProductIntersection = 0.0;
+
     // First find a valid crossing, the closest to spline central point
     for (UInt n = 0; n < numNodesFirstSpline - 1; n++)
     {
@@ -225,6 +227,7 @@ bool Splines::GetSplinesIntersection(UInt first,
                     secondCrossingIndex = nn;          // TJ0
                     firstCrossingRatio = firstRatio;   // SL
                     secondCrossingRatio = secondRatio; // SM
+                    crossProductIntersection = crossProduct;
                 }
             }
             closestIntersection = intersection;
-- 
2.43.0


From 19e97fddf78749e0c900f3b8263e763c7f77f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:43 +0000
Subject: [PATCH 12/23] fix: rebuild all search trees when the bounding box of
 a query changes

The trees of nodes, edges and faces share one cached bounding box. A query for one
location with another box stored that box, after which the trees of the other
locations were taken to be built for it.
---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp    | 18 ++++++++++++------
 libs/MeshKernel/src/Mesh.cpp                   | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 6adc096..7e4d91d 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -256,34 +256,40 @@ void CurvilinearGrid::Delete(std::shared_ptr<Polygons> polygons, UInt polygonInd
 
 void CurvilinearGrid::BuildTree(Location location, const BoundingBox& boundingBox)
 {
+    // All trees are built for the same bounding box
+    if (m_boundingBoxCache != boundingBox)
+    {
+        m_nodesRTreeRequiresUpdate = true;
+        m_edgesRTreeRequiresUpdate = true;
+        m_facesRTreeRequiresUpdate = true;
+        m_boundingBoxCache = boundingBox;
+    }
+
     switch (location)
     {
     case Location::Faces:
-        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_facesRTreeRequiresUpdate)
         {
             const auto faceCenters = ComputeFaceCenters();
             m_RTrees.at(Location::Faces)->BuildTree(faceCenters, boundingBox);
             m_facesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Nodes:
-        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_nodesRTreeRequiresUpdate)
         {
             const auto nodes = ComputeNodes();
             m_RTrees.at(Location::Nodes)->BuildTree(nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Edges:
-        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_edgesRTreeRequiresUpdate)
         {
             m_edges = ComputeEdges();
             const auto edgeCenters = ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(edgeCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Unknown:
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 9eb78f7..d576108 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1151,32 +1151,38 @@ bool Mesh::IsValidEdge(const UInt edgeId) const
 
 void Mesh::BuildTree(Location location, const BoundingBox& boundingBox)
 {
+    // All trees are built for the same bounding box
+    if (m_boundingBoxCache != boundingBox)
+    {
+        m_nodesRTreeRequiresUpdate = true;
+        m_edgesRTreeRequiresUpdate = true;
+        m_facesRTreeRequiresUpdate = true;
+        m_boundingBoxCache = boundingBox;
+    }
+
     switch (location)
     {
     case Location::Faces:
-        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_facesRTreeRequiresUpdate)
         {
             Administrate();
             m_RTrees.at(Location::Faces)->BuildTree(m_facesCircumcenters, boundingBox);
             m_facesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Nodes:
-        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_nodesRTreeRequiresUpdate)
         {
             m_RTrees.at(Location::Nodes)->BuildTree(m_nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Edges:
-        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_edgesRTreeRequiresUpdate)
         {
             ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(m_edgesCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Unknown:
-- 
2.43.0


From 5a2c90a643ea284aba21e35642ffa5711c297cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:43 +0000
Subject: [PATCH 13/23] fix: mark the search trees for update wherever nodes or
 edges change

Undoing and redoing a translation, a projection change or a full restore left all
trees as they were, and most changes did not mark the tree of the faces.
---
 libs/MeshKernel/src/CasulliDeRefinement.cpp |  2 +
 libs/MeshKernel/src/Mesh.cpp                | 49 +++++++++++++++++++++
 libs/MeshKernel/src/Mesh2D.cpp              |  6 +++
 3 files changed, 57 insertions(+)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index 83f8b65..eca4dff 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -962,6 +962,8 @@ bool meshkernel::CasulliDeRefinement::CleanUpEdge(Mesh2D& mesh, const UInt edgeI
 
     mesh.GetEdge(edgeId).first = constants::missing::uintValue;
     mesh.GetEdge(edgeId).second = constants::missing::uintValue;
+    mesh.SetEdgesRTreeRequiresUpdate(true);
+    mesh.SetFacesRTreeRequiresUpdate(true);
     return true;
 }
 
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index d576108..39f3c9e 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -173,6 +173,9 @@ void Mesh::InvalidateUnConnectedNodes(const std::vector<bool>& connectedNodes, U
             if (undoAction == nullptr)
             {
                 m_nodes[n].SetInvalid();
+                m_nodesRTreeRequiresUpdate = true;
+                m_edgesRTreeRequiresUpdate = true;
+                m_facesRTreeRequiresUpdate = true;
             }
             else
             {
@@ -205,6 +208,10 @@ void Mesh::DeleteInvalidNodesAndEdges()
         return;
     }
 
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
+
     // Flag invalid nodes
     std::vector<UInt> validNodesIndices(m_nodes.size());
     std::ranges::fill(validNodesIndices, constants::missing::uintValue);
@@ -283,6 +290,8 @@ void Mesh::SetUnConnectedNodesAndEdgesToInvalid(CompoundUndoAction* undoAction)
             if (undoAction == nullptr)
             {
                 edge = {constants::missing::uintValue, constants::missing::uintValue};
+                m_edgesRTreeRequiresUpdate = true;
+                m_facesRTreeRequiresUpdate = true;
             }
             else
             {
@@ -402,6 +411,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     return undoAction;
 }
 
@@ -515,6 +525,9 @@ void Mesh::SetNode(const UInt nodeId, const Point& newValue)
     }
 
     m_nodes[nodeId] = newValue;
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 std::unique_ptr<meshkernel::DeleteEdgeAction> Mesh::DeleteEdge(UInt edge)
@@ -752,6 +765,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     return undoAction;
 }
 
@@ -1005,6 +1019,7 @@ Mesh& Mesh::operator+=(Mesh const& rhs)
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 
     Administrate();
 
@@ -1198,12 +1213,15 @@ void Mesh::CommitAction(const AddNodeAction& undoAction)
     m_nodes[undoAction.NodeId()] = undoAction.Node();
     m_nodesNumEdges[undoAction.NodeId()] = 0;
     m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const AddEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const ResetNodeAction& undoAction)
@@ -1211,39 +1229,53 @@ void Mesh::CommitAction(const ResetNodeAction& undoAction)
     m_nodes[undoAction.NodeId()] = undoAction.UpdatedNode();
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const ResetEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.UpdatedEdge();
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const DeleteEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = {constants::missing::uintValue, constants::missing::uintValue};
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const DeleteNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = {constants::missing::doubleValue, constants::missing::doubleValue};
     m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(NodeTranslationAction& undoAction)
 {
     undoAction.Swap(m_nodes);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(FullUnstructuredGridUndo& undoAction)
 {
     undoAction.Swap(m_nodes, m_edges);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     Administrate();
 }
 
@@ -1252,12 +1284,15 @@ void Mesh::RestoreAction(const AddNodeAction& undoAction)
     m_nodes[undoAction.NodeId()] = Point(constants::missing::doubleValue, constants::missing::doubleValue);
     m_nodesNumEdges[undoAction.NodeId()] = 0;
     m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const AddEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = {constants::missing::uintValue, constants::missing::uintValue};
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const ResetNodeAction& undoAction)
@@ -1265,38 +1300,52 @@ void Mesh::RestoreAction(const ResetNodeAction& undoAction)
     m_nodes[undoAction.NodeId()] = undoAction.InitialNode();
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const ResetEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.InitialEdge();
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const DeleteEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const DeleteNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.Node();
     m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(NodeTranslationAction& undoAction)
 {
     undoAction.Swap(m_nodes);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(FullUnstructuredGridUndo& undoAction)
 {
     undoAction.Swap(m_nodes, m_edges);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     Administrate();
 }
diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index da66358..00ca2b1 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -820,11 +820,17 @@ std::unique_ptr<meshkernel::SphericalCoordinatesOffsetAction> Mesh2D::OffsetSphe
 void Mesh2D::CommitAction(const SphericalCoordinatesOffsetAction& undoAction)
 {
     undoAction.ApplyOffset(m_nodes);
+    SetNodesRTreeRequiresUpdate(true);
+    SetEdgesRTreeRequiresUpdate(true);
+    SetFacesRTreeRequiresUpdate(true);
 }
 
 void Mesh2D::RestoreAction(const SphericalCoordinatesOffsetAction& undoAction)
 {
     undoAction.UndoOffset(m_nodes);
+    SetNodesRTreeRequiresUpdate(true);
+    SetEdgesRTreeRequiresUpdate(true);
+    SetFacesRTreeRequiresUpdate(true);
 }
 
 meshkernel::Point Mesh2D::ComputeFaceCircumenter(std::vector<Point>& polygon,
-- 
2.43.0


From 609a152f3fac59bb009cc167d357a271eea2eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:30 +0000
Subject: [PATCH 14/23] fix: mark the face tree as well when grid changes are
 undone or redone

It was only marked by accident, by the node type computation, and not when the
restored grid is empty.
---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 7e4d91d..6575b4f 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -1158,6 +1158,7 @@ void CurvilinearGrid::RestoreAction(const AddGridLineUndoAction& undoAction)
     // The node and edge trees need to be rebuilt
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
 
     // Since the size of the grid has changed the node-vector needs to be reset
@@ -1170,6 +1171,7 @@ void CurvilinearGrid::CommitAction(const AddGridLineUndoAction& undoAction)
     m_endOffset -= undoAction.EndOffset();
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
     ComputeGridNodeTypes();
 }
@@ -1179,6 +1181,7 @@ void CurvilinearGrid::RestoreAction(CurvilinearGridBlockUndoAction& undoAction)
     undoAction.Swap(*this);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     ComputeGridNodeTypes();
 }
 
@@ -1187,6 +1190,7 @@ void CurvilinearGrid::CommitAction(CurvilinearGridBlockUndoAction& undoAction)
     undoAction.Swap(*this);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     ComputeGridNodeTypes();
 }
 
@@ -1195,6 +1199,7 @@ void CurvilinearGrid::RestoreAction(CurvilinearGridRefinementUndoAction& undoAct
     undoAction.Swap(m_gridNodes, m_startOffset, m_endOffset);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
     ComputeGridNodeTypes();
 }
@@ -1204,6 +1209,7 @@ void CurvilinearGrid::CommitAction(CurvilinearGridRefinementUndoAction& undoActi
     undoAction.Swap(m_gridNodes, m_startOffset, m_endOffset);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
     ComputeGridNodeTypes();
 }
-- 
2.43.0


From a39c2c0500d268af7bec742bd540b184e56c962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:37 +0000
Subject: [PATCH 15/23] fix: undo of merging nodes puts back nodes that lost
 their last edge

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 39f3c9e..70ab17a 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -471,7 +471,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
         }
     }
 
-    AdministrateNodesEdges();
+    AdministrateNodesEdges(undoAction.get());
     return undoAction;
 }
 
-- 
2.43.0


From cc7d007fd09721840c9600f93a7600e7abe63ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:39 +0000
Subject: [PATCH 16/23] fix: set the dimension outputs when there is nothing to
 count

mkernel_curvilinear_get_dimensions, mkernel_mesh2d_get_property_dimension and
mkernel_mesh2d_get_face_polygons_dimension reported success without writing
their result for an empty grid or when no face matched.
---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index c2a1eb9..a2ed599 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -859,6 +859,9 @@ namespace meshkernelapi
 
             auto mk = meshKernelState[meshKernelId];
 
+            curvilinearGrid.num_n = 0;
+            curvilinearGrid.num_m = 0;
+
             if (meshKernelState[meshKernelId].m_curvilinearGrid->IsValid())
             {
                 curvilinearGrid.num_n = static_cast<int>(meshKernelState[meshKernelId].m_curvilinearGrid->NumN());
@@ -1552,6 +1555,7 @@ namespace meshkernelapi
 
             if (!mesh2d || mesh2d->GetNumNodes() <= 0)
             {
+                dimension = 0;
                 return lastExitCode;
             }
 
@@ -2485,6 +2489,7 @@ namespace meshkernelapi
                 }
                 numMatchingFaces += 1;
             }
+            geometryListDimension = 0;
             if (numMatchingFaces > 0)
             {
                 geometryListDimension = (numEdges + 2) * (numMatchingFaces - 1) + numEdges + 1;
-- 
2.43.0


From cd8da28740242fb10f97e909c4dcb770274c6aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:36 +0000
Subject: [PATCH 17/23] fix: refuse option numbers that stand for no location
 or land boundary projection

mkernel_mesh2d_averaging_interpolation and mkernel_mesh2d_triangulation_interpolation
reported success without any result for an unknown location type, and
mkernel_mesh2d_compute_orthogonalization and mkernel_mesh2d_initialize_orthogonalization
accepted any number as land boundary option.
---
 .../include/MeshKernel/Definitions.hpp        |  6 ++++++
 libs/MeshKernel/src/Definitions.cpp           | 20 +++++++++++++++++++
 libs/MeshKernelApi/src/MeshKernel.cpp         | 12 +++++++++++
 3 files changed, 38 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/Definitions.hpp b/libs/MeshKernel/include/MeshKernel/Definitions.hpp
index ebca71a..10d752a 100644
--- a/libs/MeshKernel/include/MeshKernel/Definitions.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Definitions.hpp
@@ -51,6 +51,12 @@ namespace meshkernel
     /// @brief Gets the valid deletion options as vector of integers
     const std::vector<int>& GetValidDeletionOptions();
 
+    /// @brief Gets the valid mesh locations as vector of integers
+    const std::vector<int>& GetValidLocations();
+
+    /// @brief Gets the valid options for projecting to the land boundary as vector of integers
+    const std::vector<int>& GetValidProjectToLandBoundaryOptions();
+
     /// @brief Convert an integer value to the Projection enumeration type
     ///
     /// If the integer projection value does not correspond to an enumeration
diff --git a/libs/MeshKernel/src/Definitions.cpp b/libs/MeshKernel/src/Definitions.cpp
index ac1fcc7..faec7ba 100644
--- a/libs/MeshKernel/src/Definitions.cpp
+++ b/libs/MeshKernel/src/Definitions.cpp
@@ -1,5 +1,6 @@
 #include "MeshKernel/Definitions.hpp"
 #include "MeshKernel/Exceptions.hpp"
+#include "MeshKernel/LandBoundaries.hpp"
 #include "MeshKernel/Mesh2D.hpp"
 
 namespace meshkernel
@@ -21,6 +22,25 @@ namespace meshkernel
         return validMesh2DDeletionOptions;
     }
 
+    const std::vector<int>& GetValidLocations()
+    {
+        static std::vector<int> validLocations{static_cast<int>(Location::Faces),
+                                               static_cast<int>(Location::Nodes),
+                                               static_cast<int>(Location::Edges)};
+        return validLocations;
+    }
+
+    const std::vector<int>& GetValidProjectToLandBoundaryOptions()
+    {
+        using enum LandBoundaries::ProjectToLandBoundaryOption;
+        static std::vector<int> validOptions{static_cast<int>(DoNotProjectToLandBoundary),
+                                             static_cast<int>(ToOriginalNetBoundary),
+                                             static_cast<int>(OuterMeshBoundaryToLandBoundary),
+                                             static_cast<int>(InnerAndOuterMeshBoundaryToLandBoundary),
+                                             static_cast<int>(WholeMesh)};
+        return validOptions;
+    }
+
     Projection GetProjectionValue(const int projection)
     {
         static const int Cartesian = static_cast<int>(Projection::cartesian);
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index a2ed599..2d91886 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1234,6 +1234,10 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The 2d mesh contains no nodes.");
             }
 
+            meshkernel::range_check::CheckOneOf<int>(projectToLandBoundaryOption,
+                                                     meshkernel::GetValidProjectToLandBoundaryOptions(),
+                                                     "Project to land boundary option");
+
             // build the selecting polygon
             auto const polygonNodes = ConvertGeometryListToPointVector(selectingPolygon);
 
@@ -1282,6 +1286,10 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            meshkernel::range_check::CheckOneOf<int>(projectToLandBoundaryOption,
+                                                     meshkernel::GetValidProjectToLandBoundaryOptions(),
+                                                     "Project to land boundary option");
+
             // build the selecting polygon
             auto const polygonNodesVector = ConvertGeometryListToPointVector(selectingPolygon);
 
@@ -5195,6 +5203,8 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The mesh is empty.");
             }
 
+            meshkernel::range_check::CheckOneOf<int>(locationType, meshkernel::GetValidLocations(), "Location type");
+
             auto sampleValues = ConvertGeometryListToSampleVector(samples);
             auto const meshLocation = static_cast<meshkernel::Location>(locationType);
             auto const averagingMethod = static_cast<meshkernel::AveragingInterpolation::Method>(averagingMethodType);
@@ -5253,6 +5263,8 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The mesh is empty.");
             }
 
+            meshkernel::range_check::CheckOneOf<int>(locationType, meshkernel::GetValidLocations(), "Location type");
+
             // Locations
             auto const sampleValues = ConvertGeometryListToSampleVector(samples);
             auto const meshLocation = static_cast<meshkernel::Location>(locationType);
-- 
2.43.0


From 05b67f3289d349abf127e7c3a3a1f38129221295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:00 +0000
Subject: [PATCH 18/23] fix: refuse node and edge numbers the mesh or polygon
 does not have

---
 .../CurvilinearGrid/CurvilinearGridFromPolygon.cpp   | 12 ++++++++++++
 libs/MeshKernel/src/Mesh.cpp                         |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
index 4262773..bf4e24b 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
@@ -45,6 +45,12 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
         throw ConstraintError("The polygon does not contain sufficient nodes: count = {}", m_polygon.Size());
     }
 
+    if (firstNode >= m_polygon.Size() || secondNode >= m_polygon.Size() || thirdNode >= m_polygon.Size())
+    {
+        throw ConstraintError("Invalid node selection, not a node of the polygon: first = {}, second = {}, third = {}, count = {}",
+                              firstNode, secondNode, thirdNode, m_polygon.Size());
+    }
+
     const auto areNodesValid = firstNode != secondNode &&
                                secondNode != thirdNode &&
                                firstNode != thirdNode;
@@ -230,6 +236,12 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
         throw ConstraintError("The polygon does not contain sufficient nodes: count = {}", m_polygon.Size());
     }
 
+    if (firstNode >= m_polygon.Size() || secondNode >= m_polygon.Size() || thirdNode >= m_polygon.Size())
+    {
+        throw ConstraintError("Invalid node selection, not a node of the polygon: first = {}, second = {}, third = {}, count = {}",
+                              firstNode, secondNode, thirdNode, m_polygon.Size());
+    }
+
     const auto areNodesValid = firstNode != secondNode &&
                                secondNode != thirdNode &&
                                firstNode != thirdNode;
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 70ab17a..fec115c 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -532,7 +532,7 @@ void Mesh::SetNode(const UInt nodeId, const Point& newValue)
 
 std::unique_ptr<meshkernel::DeleteEdgeAction> Mesh::DeleteEdge(UInt edge)
 {
-    if (edge == constants::missing::uintValue) [[unlikely]]
+    if (edge >= GetNumEdges()) [[unlikely]]
     {
         throw std::invalid_argument("Mesh::DeleteEdge: The index of the edge to be deleted does not exist.");
     }
@@ -628,7 +628,7 @@ meshkernel::UInt Mesh::FindCommonNode(UInt firstEdgeIndex, UInt secondEdgeIndex)
 
 meshkernel::UInt Mesh::FindEdge(UInt firstNodeIndex, UInt secondNodeIndex) const
 {
-    if (firstNodeIndex == constants::missing::uintValue || secondNodeIndex == constants::missing::uintValue)
+    if (firstNodeIndex >= GetNumNodes() || secondNodeIndex >= GetNumNodes())
     {
         throw ConstraintError("Mesh::FindEdge: Invalid node index: first {}, second {}", firstNodeIndex, secondNodeIndex);
     }
-- 
2.43.0


From 4fdb0bde8d75ccc621e523eb55d048eba9df4102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:34 +0000
Subject: [PATCH 19/23] fix: a refused contacts call keeps the contacts the
 state had

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 32 ++++++++++++++++-----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 2d91886..54a16d1 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1070,8 +1070,9 @@ namespace meshkernelapi
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
-            meshKernelState[meshKernelId].m_contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->SetIndices(mesh1dIndices, mesh2dIndices);
+            auto newContacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            newContacts->SetIndices(mesh1dIndices, mesh2dIndices);
+            meshKernelState[meshKernelId].m_contacts = std::move(newContacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3588,8 +3589,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
+            auto newContacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            newContacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
+            meshKernelState[meshKernelId].m_contacts = std::move(newContacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3619,8 +3621,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeMultipleContacts(meshKernel1DNodeMask);
+            auto newContacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            newContacts->ComputeMultipleContacts(meshKernel1DNodeMask);
+            meshKernelState[meshKernelId].m_contacts = std::move(newContacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3656,9 +3659,10 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeContactsWithPolygons(meshKernel1DNodeMask,
-                                                                                  meshKernelPolygons);
+            auto newContacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            newContacts->ComputeContactsWithPolygons(meshKernel1DNodeMask,
+                                                     meshKernelPolygons);
+            meshKernelState[meshKernelId].m_contacts = std::move(newContacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3691,8 +3695,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
+            auto newContacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            newContacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
+            meshKernelState[meshKernelId].m_contacts = std::move(newContacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3790,8 +3795,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
+            auto newContacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            newContacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
+            meshKernelState[meshKernelId].m_contacts = std::move(newContacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From 1d1c6c206496ac1721fe5a4a15c637368bde8e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:11 +0000
Subject: [PATCH 20/23] fix: size per-node and per-face tables by nodes and
 faces, not edges

---
 libs/MeshKernel/src/ConnectMeshes.cpp       | 2 +-
 libs/MeshKernel/src/Mesh2DIntersections.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index 0ff2797..ee9ad31 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -239,7 +239,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::Compute(Mesh2
     nodesToMerge.reserve(m_maximumNumberOfIrregularElementsAlongEdge * numberOfEdges);
 
     std::vector<UInt> hangingNodesOnEdge(numberOfEdges);
-    std::vector<MergeIndicator> mergeIndicator(numberOfEdges, MergeIndicator::Initial);
+    std::vector<MergeIndicator> mergeIndicator(mesh.GetNumNodes(), MergeIndicator::Initial);
 
     std::unique_ptr<meshkernel::CompoundUndoAction> conectMeshesAction = CompoundUndoAction::Create();
 
diff --git a/libs/MeshKernel/src/Mesh2DIntersections.cpp b/libs/MeshKernel/src/Mesh2DIntersections.cpp
index 952acd3..269b4b2 100644
--- a/libs/MeshKernel/src/Mesh2DIntersections.cpp
+++ b/libs/MeshKernel/src/Mesh2DIntersections.cpp
@@ -266,7 +266,7 @@ void Mesh2DIntersections::Compute(const std::vector<Point>& polyLine)
 
     std::queue<std::array<UInt, 2>> crossingEdges;
     std::vector<bool> vistedEdges(m_mesh.GetNumEdges(), false);
-    std::vector<bool> vistedFaces(m_mesh.GetNumEdges(), false);
+    std::vector<bool> vistedFaces(m_mesh.GetNumFaces(), false);
 
     // keep traversing the polyline as long crossed edges are found
     while (true)
-- 
2.43.0


From 030bd802fb5a77718d74ca0ce12863eb0325b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:37 +0000
Subject: [PATCH 21/23] fix: the empty grid left by converting it to a mesh has
 the projection of its state

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 54a16d1..3d54997 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4847,7 +4847,7 @@ namespace meshkernelapi
             undoAction->Add(meshKernelState[meshKernelId].m_mesh2d->Join(meshkernel::Mesh2D(edges, nodes, meshKernelState[meshKernelId].m_curvilinearGrid->projection())));
 
             // curvilinear grid must be reset to an empty curvilinear grid
-            meshKernelState[meshKernelId].m_curvilinearGrid = std::make_unique<meshkernel::CurvilinearGrid>();
+            meshKernelState[meshKernelId].m_curvilinearGrid = std::make_unique<meshkernel::CurvilinearGrid>(meshKernelState[meshKernelId].m_projection);
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
-- 
2.43.0


From c8a14c78adf28d55dec91e052dc33e18605a8896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:37 +0000
Subject: [PATCH 22/23] fix: search trees follow the projection of their mesh
 or grid

---
 libs/MeshKernel/include/MeshKernel/Mesh.hpp    |  5 +++++
 .../include/MeshKernel/MeshConversion.hpp      |  1 +
 .../src/CurvilinearGrid/CurvilinearGrid.cpp    |  6 +++---
 libs/MeshKernel/src/Mesh.cpp                   | 18 ++++++++++++------
 libs/MeshKernel/src/Mesh1D.cpp                 |  1 +
 libs/MeshKernel/src/Mesh2D.cpp                 |  2 +-
 6 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Mesh.hpp b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
index bfb1da2..60f71d6 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
@@ -451,6 +451,11 @@ namespace meshkernel
         /// @brief Get a reference to the RTree for a specific location
         RTreeBase& GetRTree(Location location) const { return *m_RTrees.at(location); }
 
+        /// @brief Create new (empty) search trees for the current projection
+        ///
+        /// Has to be called whenever the projection of an existing mesh changes
+        void CreateSearchTrees();
+
         /// @brief Set the m_nodesRTreeRequiresUpdate flag
         /// @param[in] value The value of the flag
         void SetNodesRTreeRequiresUpdate(bool value) { m_nodesRTreeRequiresUpdate = value; }
diff --git a/libs/MeshKernel/include/MeshKernel/MeshConversion.hpp b/libs/MeshKernel/include/MeshKernel/MeshConversion.hpp
index 92472ae..e051e01 100644
--- a/libs/MeshKernel/include/MeshKernel/MeshConversion.hpp
+++ b/libs/MeshKernel/include/MeshKernel/MeshConversion.hpp
@@ -139,6 +139,7 @@ namespace meshkernel
 
             mesh.SetNodes(nodes);
             mesh.m_projection = conversion.TargetProjection();
+            mesh.CreateSearchTrees();
             mesh.Administrate();
             return undoAction;
         }
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 6575b4f..1b81e9d 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -123,9 +123,9 @@ CurvilinearGrid& CurvilinearGrid::operator=(const CurvilinearGrid& copy)
         m_edgesRTreeRequiresUpdate = true;
         m_facesRTreeRequiresUpdate = true;
 
-        m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
-        m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
-        m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
+        m_RTrees.insert_or_assign(Location::Nodes, RTreeFactory::Create(m_projection));
+        m_RTrees.insert_or_assign(Location::Edges, RTreeFactory::Create(m_projection));
+        m_RTrees.insert_or_assign(Location::Faces, RTreeFactory::Create(m_projection));
 
         m_boundingBoxCache = copy.m_boundingBoxCache;
 
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index fec115c..0ccc5be 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1164,6 +1164,16 @@ bool Mesh::IsValidEdge(const UInt edgeId) const
            m_nodes[m_edges[edgeId].first].IsValid() && m_nodes[m_edges[edgeId].second].IsValid();
 }
 
+void Mesh::CreateSearchTrees()
+{
+    m_RTrees[Location::Nodes] = RTreeFactory::Create(m_projection);
+    m_RTrees[Location::Edges] = RTreeFactory::Create(m_projection);
+    m_RTrees[Location::Faces] = RTreeFactory::Create(m_projection);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
+}
+
 void Mesh::BuildTree(Location location, const BoundingBox& boundingBox)
 {
     // All trees are built for the same bounding box
@@ -1265,9 +1275,7 @@ void Mesh::CommitAction(NodeTranslationAction& undoAction)
 void Mesh::CommitAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
-    m_facesRTreeRequiresUpdate = true;
+    CreateSearchTrees();
 }
 
 void Mesh::CommitAction(FullUnstructuredGridUndo& undoAction)
@@ -1336,9 +1344,7 @@ void Mesh::RestoreAction(NodeTranslationAction& undoAction)
 void Mesh::RestoreAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
-    m_facesRTreeRequiresUpdate = true;
+    CreateSearchTrees();
 }
 
 void Mesh::RestoreAction(FullUnstructuredGridUndo& undoAction)
diff --git a/libs/MeshKernel/src/Mesh1D.cpp b/libs/MeshKernel/src/Mesh1D.cpp
index 4630073..00f46fa 100644
--- a/libs/MeshKernel/src/Mesh1D.cpp
+++ b/libs/MeshKernel/src/Mesh1D.cpp
@@ -69,6 +69,7 @@ Mesh1D::Mesh1D(Network1D& network1d, double minFaceSize)
     m_edges = edges;
     m_nodes = nodes;
     m_projection = network1d.m_projection;
+    CreateSearchTrees();
 
     DeleteInvalidNodesAndEdges();
     // Perform node administration to fill the internal arrays
diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 00ca2b1..85366a6 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -69,8 +69,8 @@ Mesh2D::Mesh2D(const std::vector<Edge>& edges,
 }
 
 Mesh2D::Mesh2D(const std::vector<Point>& inputNodes, const Polygons& polygons, Projection projection)
+    : Mesh(projection)
 {
-    m_projection = projection;
     // compute triangulation
     TriangulationWrapper triangulationWrapper;
     const auto numberOfTriangles = static_cast<UInt>(inputNodes.size()) * 6 + 10;
-- 
2.43.0


From 2a50c8266514afa5f4c479188b7843f8375eb2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:07 +0000
Subject: [PATCH 23/23] fix: start a grid-from-splines session only when its
 splines are accepted

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 3d54997..a98126e 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4157,9 +4157,11 @@ namespace meshkernelapi
             auto spline = std::make_shared<meshkernel::Splines>(meshKernelState[meshKernelId].m_projection);
             SetSplines(geometryList, *spline);
 
-            meshKernelState[meshKernelId].m_curvilinearGridFromSplines = std::make_unique<meshkernel::CurvilinearGridFromSplines>(spline, curvilinearParameters, splinesToCurvilinearParameters);
+            auto curvilinearGridFromSplines = std::make_unique<meshkernel::CurvilinearGridFromSplines>(spline, curvilinearParameters, splinesToCurvilinearParameters);
 
-            meshKernelState[meshKernelId].m_curvilinearGridFromSplines->Initialize();
+            curvilinearGridFromSplines->Initialize();
+
+            meshKernelState[meshKernelId].m_curvilinearGridFromSplines = std::move(curvilinearGridFromSplines);
         }
         catch (...)
         {
-- 
2.43.0

