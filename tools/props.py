API = "libs/MeshKernelApi/src/MeshKernel.cpp"
MK = "libs/MeshKernel/src/"
prop("C01", "Undo and redo of basic mesh edits are exact inverses",
 "After any sequence of node and edge edits on a 2D mesh (insert node, insert edge, delete node, delete edge, move node, merge two nodes), undoing them one by one restores exactly the nodes, edges and faces, with their indices, that were visible before each edit, and redoing them restores exactly what was visible after each. An edit that reports an error changes nothing and adds no undo step.",
 ["histories", "inputs"], "every sequence of up to two edits, with every node/edge index and lattice coordinate as argument, on a 3x3-node mesh, reading the mesh after every step",
 "Undo tests replay a few fixed sequences with fixed arguments; an inverse action that misses one slot shows only for particular index and order combinations.",
 [MK+"Mesh.cpp", MK+"UndoActions/", API], [("undo actions of the edits", MK+"UndoActions/"), ("Commit/RestoreAction", MK+"Mesh.cpp")],
 ["edit1", "edit2"], {"edits": "1 and 2", "mesh": "3x3 nodes, 12 edges, 4 faces", "coordinates": "inserted nodes on a half-integer lattice in [-4,12]; moved nodes on 4 positions"},
 "longer sequences, larger meshes, spherical projections", {"edit1": {"j": 2, "budget": 100}, "edit2": {"j": 6, "budget": 250}}, {"edit1": ["done"], "edit2": ["done"]})
prop("C02", "Undo and redo of bulk mesh operations restore the exact mesh",
 "Undoing an operation that changes many parts of the 2D mesh at once (delete in a polygon, merge nodes, refine, Casulli (de)refinement, split a row, flip edges, connect or add a mesh, translate, rotate, convert projection, remove hanging edges, small edges, disconnected regions or obtuse triangles, edit at a location, orthogonalise, snap) restores exactly the nodes, edges and faces visible before it, and redoing it exactly those visible after it, however often this is repeated. An operation that reports an error changes nothing.",
 ["inputs", "histories"], "every polygon box position on a lattice and every parameter choice listed in the bounds, on meshes with and without unused node and edge slots",
 "The tests undo a few operations on full meshes with fixed polygons; here the polygon is symbolic and the mesh may contain deleted nodes or edges.",
 [MK+"Mesh2D.cpp", MK+"MeshRefinement.cpp", MK+"CasulliRefinement.cpp", MK+"ConnectMeshes.cpp", API], [("compound undo actions", MK+"UndoActions/CompoundUndoAction.cpp")],
 ["erase", "merge", "refine", "casulli", "split", "flip", "join", "move", "clean", "locate"], {"mesh": "4x4 or 5x5 nodes, with one triangulated cell, optionally one node or one edge deleted first", "selection": "symbolic axis-parallel box on a half-integer lattice"},
 "larger meshes, several successive bulk operations, spherical projections",
 {h: {"j": 2, "budget": 150} for h in ["erase", "merge", "refine", "casulli", "split", "flip", "join", "move", "clean", "locate"]}, {"erase": ["succeeded"], "merge": ["succeeded"]})
prop("C03", "The undo history behaves as a bounded pair of stacks",
 "Undo always reverts the most recent change not yet undone, whichever state it belongs to, and redo the most recent undone one; a new change discards only the undone changes of its own state. The reported undo and redo counts, in total and per state, always equal the history, clearing empties exactly the requested part of it, and no more changes are kept than the requested maximum, the oldest being dropped first.",
 ["histories"], "every sequence of edits on two states, undo, redo, clear (all / one state), change of maximum size and deallocation, up to the stated length",
 "The space of interleavings of edits, undos, redos, clears and size changes over several states is exponential; tests walk a few of them.",
 [MK+"UndoActions/UndoActionStack.cpp", API], [("undo stack", MK+"UndoActions/UndoActionStack.cpp")],
 ["history", "undoredo", "limit"], {"steps": "4 (seven kinds of step) and 6 (edit/edit/undo/redo); thorough 5 and 8", "states": 2, "limit": "any maximum in [-2e9,2e9], symbolic, with up to five actions done, five undone and two more"}, "longer histories, more than two states",
 {"history": {"j": 4, "budget": 120}, "undoredo": {"j": 3, "budget": 60}, "limit": {"j": 1, "budget": 60}}, {"limit": ["less", "same", "all"], "history": ["history", "undo", "redo"], "undoredo": ["undo", "redo"]})
prop("C04", "States are isolated and unknown states are refused",
 "A call on an id that is not a valid state reports an error, creates nothing and changes no existing state. A call on one state never changes what can be read from another one. A new state gets an id that was never handed out before, has the requested projection and an empty mesh, is created only for a known projection, and stays valid until it is expunged.",
 ["inputs", "histories", "programs"], "every API function that takes a state id (149), every id in [-2e9,2e9], and every sequence of 5 allocate/expunge/deallocate calls",
 "Tests call each function with one valid id; the refusal path and cross-state effects of most functions are never exercised.",
 [API, "libs/MeshKernelApi/include/MeshKernelApi/State.hpp"], [("state registry", API)],
 ["unknown", "isolation", "lifecycle"], {"functions": "all functions whose first argument is a state id, with one set of arguments", "ids": "[-2e9,2e9], symbolic", "lifecycle": "5 calls (6 thorough)"}, "concurrent use",
 {"unknown": {"j": 2, "budget": 60}, "isolation": {"j": 2, "budget": 60}, "lifecycle": {"j": 4, "budget": 90}}, {"unknown": ["refused"], "isolation": ["called"], "lifecycle": ["lifecycle"]})
prop("C05", "Every API call is atomic, undoable and never crashes",
 "Whatever scalar arguments it is given (indices out of range, reversed or empty ranges, zero or negative sizes), an API call returns without crashing or hanging. If it reports an error, nothing that can be read from the state has changed; if it succeeds, either the meshes and the grid are unchanged or one undo step was added, and undo restores what was there before and redo what was there after.",
 ["inputs", "programs"], "every API function that takes a state id, on a state holding a mesh, a 1D mesh, a curvilinear grid and contacts, with symbolic integer, floating-point and boolean arguments",
 "Tests call functions with sensible arguments only and check the value they return, not that a refused call left everything else alone.",
 [API, MK+"CurvilinearGrid/", MK+"Polygon.cpp", MK+"Contacts.cpp"], [("argument checks and exception handling", API), ("state undo", "libs/MeshKernelApi/src/MKStateUndoAction.cpp")],
 ["contacts", "curvi1", "curvi2", "curvi3", "mesh1", "mesh2", "mesh3", "mesh4", "net"], {"integers": "[-2e9,2e9], symbolic ([-2,12] or fewer where they give how much is made, the length of an array or a flag, or are hashed)", "doubles": "half-integers in [-0.5,3.5]", "geometry arguments": "one square"}, "arguments outside these ranges, other geometry arguments (see the other properties), buffers smaller than the announced size",
 {h: {"j": 2, "budget": 150} for h in ["contacts", "curvi1", "curvi2", "curvi3", "mesh1", "mesh2", "mesh3", "mesh4", "net"]}, {"curvi1": ["refused", "undone"], "mesh2": ["refused", "undone"]})
prop("C06", "Selection by polygon picks exactly what lies inside",
 "A point is selected by a polygon exactly when it lies inside or on the boundary of one of its outer rings and not inside or on a hole of that ring, whatever the starting vertex and the orientation of the rings. Counting and listing the mesh nodes inside (or outside) polygons agree with this for every node; deleted nodes are never selected; without a polygon all nodes are selected.",
 ["inputs"], "every quadrilateral, triangle, ring with a hole and pair of rings on the stated lattices, every query point on a lattice including all boundary points, both orientations, every starting vertex",
 "Ray-crossing and winding-number code fails on particular coincidences (a query point level with a vertex, on an edge, on a hole); tests use points in general position.",
 [MK+"Polygon.cpp", MK+"Polygons.cpp", MK+"PolygonalEnclosure.cpp", MK+"Mesh2D.cpp", MK+"Operations.cpp", API], [("point in polygon", MK+"Polygon.cpp"), ("polygon with holes", MK+"PolygonalEnclosure.cpp"), ("nodes in polygon", MK+"Mesh2D.cpp")],
 ["quad", "triangle", "holes", "nodes"], {"quad": "one vertex on a 5x5 half-integer lattice, query point on 11x11, 4 starts, 2 orientations", "triangle": "two vertices on 4x4, query point on 7x7", "holes": "position and size of the hole and of a second ring symbolic, 25-node mesh, optionally with a deleted node", "nodes": "selection of 9 mesh nodes by a symbolic triangle, one node moved"},
 "spherical coordinates, nested or overlapping enclosures, more than two rings, coordinates off the lattice",
 {"quad": {"j": 2, "budget": 100}, "triangle": {"j": 2, "budget": 100}, "holes": {"j": 2, "budget": 100}, "nodes": {"j": 2, "budget": 100}})
prop("C07", "Faces are exactly the elementary cells and all connectivity agrees",
 "For any set of non-crossing edges, the faces of a 2D mesh are exactly the elementary cells with three to six corners, each reported once, counter-clockwise. The connectivity that is returned is consistent: edges join existing nodes, every edge of a face joins its consecutive nodes, an edge lists exactly the at most two faces that use it, edge centres, centres of mass of faces and counts of valid nodes and edges are right. This holds after setting a mesh and after any edit.",
 ["inputs", "histories"], "every subset of edges of a lattice mesh, every choice of diagonals with moved nodes, and every sequence of two edits with symbolic indices",
 "Faces are found by a recursive walk that depends on edge order, dangling edges and node positions; tests hold only a few regular meshes.",
 [MK+"Mesh2D.cpp", MK+"Mesh.cpp", "libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp"], [("face search", MK+"Mesh2D.cpp"), ("administration", MK+"Mesh.cpp")],
 ["subset", "diagonals", "edited", "mixed", "notch"], {"subset": "all subsets of the 12 edges of a 3x3-node mesh, one node moved", "mixed": "4x4 nodes, any diagonals in the 8 outer cells, one edge left out, both numberings; face centres", "notch": "concave faces meeting a cell along two sides, any numbering", "diagonals": "all diagonals of four cells, both edge orders, one node moved", "edited": "two edits out of delete node, delete edge, insert edge, merge, all indices (three in the thorough tier)"},
 "larger meshes, faces with more than six corners (not supported by the library), crossing edges",
 {h: {"j": 2, "budget": 100} for h in ["subset", "diagonals", "edited", "mixed", "notch"]})
prop("C08", "What is set can be read back unchanged",
 "A mesh, 1D mesh, curvilinear grid or set of contacts that is accepted is read back with exactly the given coordinates, edges, faces, grid positions and pairs (only nodes without edges and edges without two valid nodes are left out); adding a mesh keeps what was there and appends the new part with shifted indices; converting a curvilinear grid yields its valid nodes, grid-line edges and cells. A mesh whose edges or faces refer to nodes that do not exist is refused.",
 ["inputs"], "every assignment of symbolic coordinates and indices within the bounds, including missing grid nodes, invalid edges and out-of-range node indices",
 "Tests read back a few well-formed meshes; index shifts, missing nodes, invalid edges and face lists with mixed sizes interact with the positions in the arrays.",
 [API, "libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp", MK+"Mesh.cpp", MK+"Mesh2D.cpp", MK+"Mesh1D.cpp", MK+"CurvilinearGrid/CurvilinearGrid.cpp"], [("conversion between API and core", "libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp")],
 ["mesh2d", "append", "edges", "faces", "badfaces", "mesh1d", "contacts", "curvilinear"], {"mesh2d": "6 nodes with symbolic offsets, replaced and added to", "edges": "two edges with node indices in [-2e9,2e9], symbolic, on 5 nodes", "faces": "triangle and quadrilateral lists, rotated", "mesh1d": "4 nodes, symbolic coordinates and branching", "contacts": "up to 3 pairs, indices up to 1e6", "curvilinear": "2..4 x 2..3 nodes, symbolic offsets, one missing node"},
 "larger meshes, buffers smaller than announced, spherical coordinates",
 {h: {"j": 2, "budget": 100} for h in ["mesh2d", "append", "edges", "faces", "badfaces", "mesh1d", "contacts", "curvilinear"]})
prop("C09", "Nearest-location queries always answer for the current mesh",
 "Asking a mesh or curvilinear grid for the node, edge or face nearest to a point returns a valid location inside the given bounding box such that no other one is nearer, and an error when there is none. The answer depends only on the mesh as it is now: not on earlier queries, their kind or bounding box, nor on edits, undos and redos made in between. The nearest node within a radius is found exactly when there is one.",
 ["inputs", "histories"], "every query point on a half-integer lattice, every kind of location and bounding box, and every history query-query-change-undo-redo over the listed changes",
 "Search trees are cached and must be invalidated by every path that changes nodes, edges or faces, including undo; tests query right after building the mesh.",
 [MK+"Mesh.cpp", MK+"Mesh2D.cpp", MK+"CurvilinearGrid/CurvilinearGrid.cpp", "libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp", API], [("tree building and caching", MK+"Mesh.cpp"), ("grid trees", MK+"CurvilinearGrid/CurvilinearGrid.cpp")],
 ["point", "face", "queries", "history", "radius", "grid"], {"meshes": "3x3 nodes with a diagonal (faces: 4x3 rectangles), 3x4 warped curvilinear grid", "changes": "14 mesh operations, 8 grid operations, each followed by up to undo and redo", "query point": "half-integer lattice covering and surrounding the mesh"},
 "larger meshes, spherical coordinates; nearest faces of non-rectangular cells are compared with a fresh state instead of with distances, since circumcentres cannot be read",
 {h: {"j": 2, "budget": 100} for h in ["point", "face", "queries", "history", "radius", "grid"]}, {"history": ["found", "face"], "grid": ["found"], "radius": ["near"]})
prop("C10", "Deleting in polygons removes exactly the selected cells",
 "Deleting part of a 2D mesh with polygons removes an edge just when all cells beside it are selected, keeps every other edge and node unchanged, and removes the nodes no remaining edge uses. A cell is selected, depending on the option, when it lies inside the polygons and is not crossed by them, when it lies inside or is crossed, or when its circumcentre lies inside; an edge without cells is selected by the same rule (with its middle for the circumcentre) and goes just when it is selected; with the invert flag exactly the others are selected. Holes are outside, several polygons select the union, and no polygon selects everything.",
 ["inputs"], "every polygon with vertices on the stated lattice in general position (no node, edge or centre touched), every option, inverted or not",
 "Tests delete with a few fixed polygons; a wrong crossing or a lost face shows only for particular relative positions of polygon and cells.",
 [MK+"Mesh2D.cpp", MK+"Mesh2DIntersections.cpp", MK+"Polygons.cpp", API], [("selection of edges and nodes", MK+"Mesh2D.cpp"), ("crossed cells", MK+"Mesh2DIntersections.cpp")],
 ["box", "loose_edges", "triangle", "hole", "two", "concave", "everything"], {"meshes": "4x3 (thorough 4x4) and 5x4 rectangles of size 4, 4x3 with three cells cut into triangles", "polygons": "boxes with four free sides, triangles and notched squares with a free vertex, a square hole of free place and size, two boxes"},
 "polygons through nodes or edge ends, spherical coordinates",
 {h: {"j": 2, "budget": 150} for h in ["box", "loose_edges", "triangle", "hole", "two", "concave", "everything"]}, {"box": ["some left", "none left"], "triangle": ["some gone"]})
prop("C11", "Interpolation uses exactly the samples that belong to a location",
 "Averaging interpolation gives each cell (and each inner node, over its dual cell) the mean, inverse-distance-weighted mean, closest, largest, smallest or smallest absolute value of exactly the non-missing samples within it, the missing value when there are fewer than required, and each edge the mean of its nodes. Interpolation by triangulation gives linear functions back exactly at every location within the convex hull of the samples, and the missing value elsewhere; gridded samples are interpolated bilinearly, with the missing value outside the grid. Unused slots of the mesh get the missing value.",
 ["inputs"], "every sample position and value, query point and grid origin on the stated lattices",
 "Tests compare a few fixed sample sets with stored numbers; samples on a line through an edge, just outside the grid, or far from the location need particular positions.",
 [MK+"AveragingInterpolation.cpp", MK+"AveragingStrategies/", MK+"TriangulationInterpolation.cpp", "libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp", MK+"Operations.cpp", API], [("sample selection", MK+"AveragingInterpolation.cpp"), ("triangle walk", MK+"TriangulationInterpolation.cpp")],
 ["faces", "values", "nodes", "weighted", "triangulation", "coefficients", "skew", "irregular", "gridded", "gridded_values", "holes"], {"averaging": "2x2 cells, three samples with three free coordinates, six free values; relative search size 1", "triangulation": "query point in [-1,11]^2 by halves over up to 8 irregular samples; free coefficients on a mesh", "gridded": "3x3 samples, free origin or values, both ways of giving the grid", "weighted": "inverse distance weights: 100 positions, one path each (square roots and quotients)"},
 "relative search sizes other than 1, boundary nodes' dual cells, spherical coordinates, sample values of type float, short and int",
 {h: {"j": 2, "budget": 100} for h in ["faces", "values", "nodes", "weighted", "triangulation", "coefficients", "skew", "irregular", "gridded", "gridded_values", "holes"]}, {"faces": ["none", "some"], "triangulation": ["inside", "outside"], "gridded": ["inside", "outside"]})
prop("C12", "Refinement keeps the covered area and refines what was selected",
 "Refining a mesh by polygon, by samples or by gridded depths keeps every node in its place, covers exactly the same area with cells that fit together, splits every edge of each selected cell half-way, and leaves cells away from the selection untouched; polygon refinement makes no edge shorter than the smallest size, and without a polygon cuts every cell in four at each level down to that size. Splitting a row cuts exactly the quadrilaterals of that row. Casulli refinement and derefinement of rectangular meshes keep the covered area, with more and not more cells than before. What cannot be split is refused without change.",
 ["inputs"], "every box polygon, sample position, smallest edge size and pair of node indices within the stated lattices, with one or two levels, hanging nodes connected or not",
 "Tests refine a few fixed meshes and compare node counts; overlaps, gaps and missed cells depend on where the selection cuts the mesh.",
 [MK+"MeshRefinement.cpp", MK+"CasulliRefinement.cpp", MK+"CasulliDeRefinement.cpp", MK+"SplitRowColumnOfMesh.cpp", MK+"AveragingInterpolation.cpp", API], [("masks and splitting", MK+"MeshRefinement.cpp"), ("row splitting", MK+"SplitRowColumnOfMesh.cpp")],
 ["polygon", "mixed", "samples", "whole", "split", "casulli", "derefine", "depths"], {"meshes": "5x4, 4x3 (some cells cut into triangles), 4x4 and up to 7x5 nodes, cells of size 4", "polygon": "boxes with four free sides on odd coordinates", "samples": "one sample in free position, levels -1..2, two fixed ones", "whole": "smallest size in [0.25,6], up to 3 levels", "depths": "six depths 0 or 100, all value types, both ways of giving the grid"},
 "more than two levels in part of a mesh, refine_intersected, directional refinement, smoothing, triangular meshes with Casulli (which moves corners), spherical coordinates; which cells at the rim of a polygon are refined (only cells with a node all whose cells lie inside are required to be)",
 {h: {"j": 2, "budget": 100} for h in ["polygon", "mixed", "samples", "whole", "split", "casulli", "derefine", "depths"]}, {"polygon": ["refined", "untouched"], "samples": ["refined", "untouched"], "split": ["split"], "derefine": ["coarser"], "casulli": ["finer"]})
prop("C13", "Contacts join exactly the 1D nodes and cells they are meant to join",
 "Computing contacts between a 1D and a 2D mesh makes only contacts between nodes of the mask and existing cells, none of them twice. Single contacts join each selected node inside a cell to that cell and nodes outside only to rim cells, and contacts of nodes outside cross neither each other nor the 1D mesh; with points, each point inside a cell joins that cell to the nearest node of the mask; with polygons, each polygon that holds cell centres joins its nearest pair of cell and node; boundary contacts join each rim cell within reach and inside the polygon to its nearest node; multiple contacts join each cell at most once, to the nearer node of a 1D edge that crosses it, and miss no crossed cell within the length of the edge.",
 ["inputs"], "every position of a 1D node or point on a lattice in and around the mesh, every node mask, search radius and polygon place within the bounds",
 "Tests compute contacts for a few fixed networks; a mask that excludes the nearest node or a polygon without cells needs its own combination of position and mask.",
 [MK+"Contacts.cpp", MK+"Mesh2D.cpp", MK+"Mesh1D.cpp", MK+"Mesh.cpp", API], [("contact computation", MK+"Contacts.cpp"), ("cells of points", MK+"Mesh2D.cpp")],
 ["single", "apart", "points", "polygons", "boundary", "multiple"], {"meshes": "3x2 or 3x3 square cells and a 1D mesh of three nodes, one in free position", "masks": "all 8", "polygons": "one moving and one fixed box", "radius": "1.5, 3.5 and 5.5"},
 "larger and distorted meshes, nodes on edges, branching networks, spherical coordinates, which rim cell a node outside the mesh is projected on",
 {h: {"j": 2, "budget": 100} for h in ["single", "apart", "points", "polygons", "boundary", "multiple"]}, {"single": ["inside", "projected"], "apart": ["two"], "points": ["connected"], "polygons": ["connected"], "boundary": ["connected"], "multiple": ["connected"]})
CG = MK+"CurvilinearGrid/"
prop("C14", "Curvilinear grid edits change exactly the part of the grid they name",
 "Refining or derefining a block of a curvilinear grid keeps every node outside the block, keeps the nodes of the refined lines where they were and changes the number of lines by exactly what was asked; deleting the inside or outside of a block, deleting or moving a node, adding or mirroring a rim line, inserting a face, smoothing, directional smoothing, attraction and line shift leave every node outside the named block or line exactly as it was. The edit is undone exactly and redone exactly, and an edit that is refused changes nothing.",
 ["inputs"], "every block, node, line, direction, amount of refinement and moved coordinate within the bounds",
 "Tests edit one block of a few grids; an off-by-one at the block's border or an inner line taken for a rim line needs one particular position of the block.",
 [CG+f for f in ["CurvilinearGrid.cpp", "CurvilinearGridRefinement.cpp", "CurvilinearGridFullRefinement.cpp", "CurvilinearGridDeRefinement.cpp", "CurvilinearGridDeleteInterior.cpp", "CurvilinearGridDeleteExterior.cpp", "CurvilinearGridLineMirror.cpp", "CurvilinearGridLineShift.cpp", "CurvilinearGridSmoothing.cpp", "CurvilinearGridLineAttractionRepulsion.cpp", "CurvilinearGridAlgorithm.cpp"]]+[API],
 [("grid editing", CG+"CurvilinearGrid.cpp"), ("grid refinement", CG+"CurvilinearGridRefinement.cpp"), ("line algorithms", CG+"CurvilinearGridLineMirror.cpp")],
 ["refine", "full", "keep", "derefine", "block", "node", "face", "mirror", "frame", "shift"], {"grids": "up to 5x5 nodes of a sheared or uneven grid", "refinement": "factors 1 to 3", "blocks": "every one aligned with the grid"},
 "larger grids, where inside the block smoothing puts the nodes, spline based generation, spherical coordinates",
 {h: {"j": 2, "budget": 100} for h in ["refine", "full", "keep", "derefine", "block", "node", "face", "mirror", "frame", "shift"]},
 {"refine": ["refined", "refused"], "derefine": ["refused"], "block": ["inside", "outside"], "node": ["deleted", "moved"], "face": ["inner", "rim"], "mirror": ["inner", "rim"], "frame": ["smoothed", "directional", "attracted"], "shift": ["shifted"]})
prop("C15", "Merging and connecting unite exactly the nodes that belong together",
 "Merging nodes in a polygon unites nodes only when they lie in the polygon and a chain of nodes, each within the merge distance of the next, joins them, and leaves no two nodes of the polygon within that distance of each other; merging two named nodes unites just those. Every other node and edge stays. Connecting meshes that lie side by side joins the hanging nodes to the other side without moving nodes away from the seam and leaves a mesh whose cells cover both meshes; ratios it does not support are refused and change nothing.",
 ["inputs"], "every position of the free nodes on a lattice, merge distance, polygon place and refinement ratio of the two sides within the bounds",
 "Tests merge well separated pairs; a chain of nodes, a node exactly outside the polygon or a seam with an unusual ratio needs its own position.",
 [MK+"Mesh.cpp", MK+"Mesh2D.cpp", MK+"ConnectMeshes.cpp", API], [("node merging", MK+"Mesh.cpp"), ("mesh connection", MK+"ConnectMeshes.cpp")],
 ["distance", "collapse", "two", "connect"], {"meshes": "up to 3x3 cells with a few free nodes; two blocks side by side", "ratio": "1 to 7"},
 "larger meshes, curved seams, three-dimensional distances, spherical coordinates",
 {h: {"j": 2, "budget": 100} for h in ["distance", "collapse", "two", "connect"]},
 {"distance": ["merged"], "collapse": ["merged"], "two": ["merged", "refused"], "connect": ["connected", "refused"]})
prop("C16", "What is told about a mesh is what its nodes and edges say",
 "The rims of a mesh or grid are told as closed rings that hold every edge with one cell exactly once; the cells of a given kind are told as their own rings, each exactly once; the filtered cells are those whose metric lies in the range; hanging edges are exactly those with an end that has no other edge; obtuse triangles are exactly those with an angle over ninety degrees; and small flow edges are exactly those whose cells' centres are closer than the threshold allows. The number told beforehand is the number of things told afterwards.",
 ["inputs"], "every set of present cells or edges, free node position and threshold within the bounds",
 "Tests describe a few fixed meshes; rims that touch in a node, missing cell kinds and trees of loose edges need particular combinations.",
 [MK+"Mesh2D.cpp", MK+"Mesh.cpp", CG+"CurvilinearGrid.cpp", API], [("mesh description", MK+"Mesh2D.cpp"), ("grid description", CG+"CurvilinearGrid.cpp")],
 ["rim", "grid_rim", "faces", "filtered", "hanging", "obtuse", "flow"], {"meshes": "up to 3x3 cells, any of them missing; one cell with a tree of four loose edges; triangles with a free apex", "thresholds": "a lattice of values"},
 "larger meshes, quality metrics other than those filtered on, spherical coordinates",
 {h: {"j": 2, "budget": 100} for h in ["rim", "grid_rim", "faces", "filtered", "hanging", "obtuse", "flow"]},
 {"rim": ["several rings"], "grid_rim": ["several rings"], "faces": ["triangles", "quadrilaterals", "pentagons", "none"], "filtered": ["some"], "hanging": ["hanging"], "obtuse": ["obtuse", "acute"], "flow": ["some"]})
prop("C17", "Rectangular grids and meshes are laid out exactly as asked",
 "A rectangular grid asked for by origin, block size, angle and numbers of rows and columns has exactly that many rows and columns with every node in its place; asked for by extension, its blocks start at the origin, cover the extension and do not go beyond it by a whole block; asked for by polygon, it has exactly the blocks whose four corners lie in the polygon. A grid asked for by radius has its nodes on circles around the origin, at equal angles and never further round than once; a grid that is to grow away from its middle has no cell smaller than the block size, grows the same way to both sides and not beyond the largest size, with every node in a defined place. The 2D mesh of the same request has exactly the nodes and cells of the grid and leaves the mesh that was there as it was. A request without cells is refused and changes nothing, and a grid or mesh that was made is undone completely.",
 ["inputs"], "every origin and block size on a lattice, number of rows and columns, extension and polygon corner within the bounds",
 "Tests make a few grids; an extension that is a whole number of blocks or none, or a polygon corner on a block corner, needs its own values.",
 [CG+"CurvilinearGridRectangular.cpp", CG+"CurvilinearGridGenerateCircularGrid.cpp", CG+"CurvilinearGrid.cpp", MK+"Mesh2D.cpp", API, "libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp"], [("rectangular grids", CG+"CurvilinearGridRectangular.cpp"), ("circular and graded grids", CG+"CurvilinearGridGenerateCircularGrid.cpp"), ("cutting to a polygon", CG+"CurvilinearGrid.cpp")],
 ["straight", "turned", "extension", "polygon", "circle", "graded"], {"circle": "1 to 7 columns, 1 to 3 rows, four radii, three block sizes each way, five angles", "graded": "1 to 6 columns, 1 to 5 rows, six fractions and three largest sizes each way", "rows and columns": "-1 to 3", "extension": "-3 to 7 by -3 to 7", "angles": "multiples of 22.5 degrees up to 112.5", "polygon": "quadrilaterals with one corner in free position"},
 "larger grids, spherical coordinates, global grids, where the first row of a grid with growing rows lies",
 {h: {"j": 2, "budget": 100} for h in ["straight", "turned", "extension", "polygon", "circle", "graded"]},
 {"straight": ["made", "refused"], "turned": ["turned", "refused"], "extension": ["made", "refused"], "polygon": ["filled"], "circle": ["open", "closed"], "graded": ["graded"]})
prop("C18", "Grids made within an outline keep to its points",
 "A grid interpolated within an outline of points has its corners at the selected points and its sides follow the points of the outline one after the other, whichever way round and wherever the selection starts; with the corners of a box its lines are spread evenly. A grid made in a triangle with an even number of points lies within the triangle, has every piece of the outline as an edge, and its cells fill it. Selections that name a missing point, the same point twice or more points than there are, are refused and change nothing.",
 ["inputs"], "every selection of three points, including the closing point and points that are not there, and every number of points along the sides within the bounds",
 "Tests use one selection on two outlines; a selection that wraps around the end of the outline or runs backwards needs its own start and direction.",
 [CG+"CurvilinearGridFromPolygon.cpp", MK+"Operations.cpp", MK+"Polygon.cpp", API], [("grids from polygons", CG+"CurvilinearGridFromPolygon.cpp"), ("transfinite interpolation", MK+"Operations.cpp")],
 ["rim", "box", "triangle", "index"], {"outline": "ten points on a box; triangles with one to five pieces per side", "selection": "all triples of -1 to 11", "index": "each corner any number in [-2e9,2e9], symbolic, next to two corners of a box"},
 "where interpolation puts inner nodes of curved outlines, triangles with an odd number of points, grids from splines, spherical coordinates",
 {h: {"j": 2, "budget": 100} for h in ["rim", "box", "triangle", "index"]},
 {"index": ["made", "refused"], "rim": ["forward", "backward", "refused"], "box": ["box"], "triangle": ["made", "refused"]})
prop("C19", "Refining, spreading and offsetting outlines gives the outline asked for",
 "Refining part of a polygon divides exactly the pieces from the first to the second point (across the start of the outline if need be), evenly, by the number nearest to length over target; linear refinement spreads points along the outline, keeps its end points and stays on the outline; the counts told beforehand are the counts returned. An offset outline has one point per point, at the distance asked for outside or inside of each outline, with holes moving the opposite way and separators kept in place. For each point asked about, in that order, whether it lies in the polygon is told. Points that are not there are refused.",
 ["inputs"], "every pair of points, positions of a corner, target lengths and distances within the bounds",
 "Tests use one outline and one pair of points each; outlines with holes, several outlines and pairs that wrap around are not in them.",
 [MK+"Polygon.cpp", MK+"PolygonalEnclosure.cpp", MK+"Polygons.cpp", API], [("refining an outline", MK+"Polygon.cpp"), ("several outlines", MK+"Polygons.cpp")],
 ["refine", "spread", "offset", "included"], {"outline": "a quadrilateral with a free corner, optionally a second one; three outlines of six points for spreading; up to two holes for offsets", "selection": "all pairs of -1 to 12", "target": "five lengths; offsets of -0.5 to 0.75"},
 "spherical coordinates, offsets so large that the outline meets itself, outlines that meet themselves",
 {h: {"j": 2, "budget": 100} for h in ["refine", "spread", "offset", "included"]},
 {"refine": ["refined", "refused"], "spread": ["spread", "refused"], "offset": ["one", "both"], "included": ["in", "out"]})
prop("C20", "Networks get points where asked, and 1D meshes follow the network",
 "Points placed along a 1D network lie on its polylines, in order, always including both ends; a fixed place with room around it gets a point on either side at the offset asked for, and points are not placed closer together than the least distance. Even spacing divides each gap between points into the fewest equal pieces that are not longer than the spacing asked for. The 1D mesh made from the network has exactly these points, joined one after the other along every polyline and joined to each other where polylines share an end (no duplicates). Polylines of one point, offsets that are not positive and lists of the wrong length are refused.",
 ["inputs"], "every triple of fixed places, offset and least distance on a lattice; every spacing and number and direction of polylines within the bounds",
 "Tests use one or two straight polylines; bends between points, places close to the ends or to each other and third polylines are not in them.",
 [MK+"Network1D.cpp", MK+"Mesh1D.cpp", MK+"Operations.cpp", API], [("placing points", MK+"Network1D.cpp"), ("making the mesh", MK+"Mesh1D.cpp"), ("points along a polyline", MK+"Operations.cpp")],
 ["fixed", "spaced", "mesh", "refused"], {"fixed": "three places on half units of a line of length 16 with two bends (thorough: four, quarter units), offset and least distance to 4, all symbolic", "spaced": "five shapes, 64 spacings, ten fixed places", "mesh": "one to four polylines, each either way round, six spacings"},
 "spherical coordinates; least distances when fixed places are closer together than twice the offset",
 {h: {"j": 2, "budget": 120} for h in ["fixed", "spaced", "mesh", "refused"]},
 {"fixed": ["placed"], "spaced": ["between", "whole"], "mesh": ["made", "joined"], "refused": ["refused"]})
prop("C21", "Meshes become grids and grids become meshes with the same nodes and edges",
 "Converting a mesh to a curvilinear grid from a point within a cell of four sides gives a grid whose nodes and cells are the part of the mesh of four-sided cells connected with that cell, next to each other as in the mesh, takes that part out of the mesh and leaves the rest; wherever in the cell the point lies and however nodes and edges are numbered. A point outside of every cell is refused and changes nothing. Converting a grid to a mesh adds exactly its nodes, edges and cells to the mesh that is there, keeps what was there with its numbers, and empties the grid. Converting back gives the same nodes and edges and both steps can be undone.",
 ["inputs", "histories"], "every set of cells of a 3x2 mesh in eight numberings, every start cell, with and without an extra loose edge or triangle; every start point on a lattice; every missing node of grids up to 4x4",
 "Tests convert whole meshes from one point; parts, other numberings, points near an edge of an elongated cell and loose edges are not in them.",
 [MK+"Mesh2DToCurvilinear.cpp", CG+"CurvilinearGrid.cpp", API], [("mesh to grid", MK+"Mesh2DToCurvilinear.cpp"), ("grid to mesh", API)],
 ["grid", "point", "mesh"], {"mesh": "3x2 cells, 63 subsets, 8 numberings, 3 extras", "point": "quarter units around the mesh for six subsets, symbolic", "grid": "2x2 to 4x4 nodes, one missing"},
 "spherical coordinates, cells that join up around a hole so that the grid would overlap itself",
 {"grid": {"j": 4, "budget": 150}, "point": {"j": 4, "budget": 120}, "mesh": {"j": 1, "budget": 100}},
 {"grid": ["whole", "part", "refused"], "point": ["whole", "refused"], "mesh": ["joined", "alone"]})
prop("C22", "Snapping moves what was selected to the land boundary and nothing else",
 "Snapping part of a polygon moves exactly the points from the first to the second index (around the end of the outline if the second is the smaller) to a nearest point of the land boundary; all other points, other outlines, holes and separators stay as they are; indices that are not there are refused and change nothing. Snapping a line of a curvilinear grid moves the nodes of the selected stretch to the land boundary, moves only nodes within the region of influence, keeps the rest where it was, and can be undone. Snapping a mesh leaves its edges and the nodes outside of the polygon as they are, and each node that moves goes to the nearest point of the land boundary; what is refused changes nothing.",
 ["inputs"], "every pair of indices with a free corner, with a second outline or a hole; every position of a point, also coinciding with another; every stretch of grid lines and region",
 "Tests snap one outline with one range; second outlines, ranges around the end and coinciding points are not in them.",
 [MK+"Polygon.cpp", MK+"Polygons.cpp", MK+"LandBoundary.cpp", CG+"CurvilinearGridSnapping.cpp", MK+"LandBoundaries.cpp", API], [("meshes", MK+"LandBoundaries.cpp"), ("polygons", MK+"Polygons.cpp"), ("nearest point", MK+"LandBoundary.cpp"), ("grids", CG+"CurvilinearGridSnapping.cpp")],
 ["outline", "point", "grid", "mesh"], {"mesh": "5x5 nodes, with a hole or not; a straight land boundary with ends on a lattice beside and through the mesh; four selections", "outline": "four corners, one on 13 positions (thorough 169), indices -1 to 11", "point": "all three other corners on quarter units in [-4,13]x[-4,12], symbolic", "grid": "5x5 grid, all stretches of four lines, five regions, one missing node"},
 "spherical coordinates, snapping of splines, how far nodes between move",
 {"outline": {"j": 2, "budget": 100}, "point": {"j": 2, "budget": 100}, "grid": {"j": 2, "budget": 100}, "mesh": {"j": 3, "budget": 100}},
 {"outline": ["forward", "around", "refused"], "point": ["snapped"], "grid": ["default", "region"], "mesh": ["moved", "refused", "stayed"]})
prop("C23", "Orthogonalising moves only what may move",
 "Orthogonalising a mesh or a curvilinear grid keeps every node outside of the polygon or block exactly where it was, keeps the number of nodes and edges and what is joined to what, keeps corners fixed and boundary nodes on the boundary, keeps nodes of frozen lines within the grid where they are, never gives a node an undefined position, and can be undone exactly. A node of a mesh that is selected and out of place is moved.",
 ["inputs"], "every block given by two nodes of a 6x5 grid with every frozen line, whole or part; every selection, shape and displaced node of the meshes in the bounds",
 "Tests compare a few nodes of one grid and one mesh with stored numbers, with blocks that start at the edge of the grid.",
 [MK+"OrthogonalizationAndSmoothing.cpp", CG+"CurvilinearGridOrthogonalization.cpp", API], [("meshes", MK+"OrthogonalizationAndSmoothing.cpp"), ("grids", CG+"CurvilinearGridOrthogonalization.cpp")],
 ["mesh", "box", "grid"], {"box": "every box with corners on whole units around part of a 5x5 mesh, symbolic", "grid": "6x5 nodes, one displaced (four places), all pairs of nodes as block, nine frozen lines", "mesh": "see harness: six selections, four shapes, nine displaced nodes, two projection options, three weights"},
 "how orthogonal the result is (convergence), ends of frozen lines on the rim of the grid (an existing test has them slide along the rim), spherical coordinates",
 {"mesh": {"j": 3, "budget": 120}, "box": {"j": 3, "budget": 120}, "grid": {"j": 5, "budget": 150}},
 {"mesh": ["moved", "still"], "box": ["box"], "grid": ["block", "frozen"]})
prop("C24", "Triangulating gives the triangles of the points given",
 "Triangulating samples gives a mesh whose nodes are samples and whose faces are triangles that do not overlap and have no sample within the circle through their corners, and leaves no well-shaped triangle of that kind out; triangulating within a polygon gives triangles within it that do not overlap, have the polygon's points among their nodes and leave no well-shaped triangle out, added to the mesh that is there, and can be undone. Fewer than three points, or points on one line, are refused or give no faces, and never end the process.",
 ["inputs"], "every subset of ten points, sheared and in two orders; five outlines with every number of pieces, start and direction within the bounds",
 "Tests triangulate a few outlines and count nodes; degenerate sets of samples and outlines in the other direction or with another start are not in them.",
 ["libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp", MK+"TriangulationWrapper.cpp", MK+"Mesh2D.cpp", MK+"Polygons.cpp", API], [("calling the triangulation", "libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp"), ("making the mesh", MK+"Mesh2D.cpp")],
 ["samples", "outline"], {"samples": "1024 subsets, two orders, four shears", "outline": "five shapes, one to four pieces per side (thorough six), three starts (six), both directions, with and without a mesh there"},
 "triangles with angles below 5 or above 150 degrees (they are left out on purpose), sizes of triangles, several polygons at once (only the first is meshed), spherical coordinates",
 {"samples": {"j": 2, "budget": 100}, "outline": {"j": 2, "budget": 100}},
 {"samples": ["made", "flat", "few"], "outline": ["filled", "joined"]})
prop("C25", "Splines go through their points and grids made from splines follow them",
 "The points told along splines lie on the natural cubic spline through the given points, include every given point, with the number asked for between each pair, spline by spline with separators between. A grid made from two families of crossing splines has the splines between the outermost ones as grid lines, the number of cells asked for between neighbouring splines, lines one after the other and no node outside of the outermost splines; in whichever order and direction the splines are given. The grid belongs to the coordinates it was made in and can become part of the mesh.",
 ["inputs"], "every order and direction of four and five splines (quick: a quarter of those of five), every number of cells within the bounds, in the plane and on the sphere",
 "Tests use one set of splines in one order; the labelling, turning and sorting of splines depends on order and direction.",
 [CG+"CurvilinearGridSplineToGrid.cpp", MK+"Splines.cpp", MK+"SplineAlgorithms.cpp", CG+"CurvilinearGrid.cpp", API], [("labelling and sorting splines", CG+"CurvilinearGridSplineToGrid.cpp"), ("evaluating splines", MK+"SplineAlgorithms.cpp")],
 ["sample", "grid", "size"], {"sample": "two to five points, one displaced, with a second spline before or after, zero to five points between", "grid": "2x2 and 3x2 splines, all orders and directions, straight or sloped", "size": "up to 3x3 splines, one to four cells, plane and sphere"},
 "curved splines in grids (their lengths are found by iteration), splines of which some do not cross, grids grown from one spline",
 {"sample": {"j": 2, "budget": 100}, "grid": {"j": 3, "budget": 100}, "size": {"j": 2, "budget": 100}},
 {"sample": ["straight", "bent"], "grid": ["plane"], "size": ["plane", "sphere"]})
prop("C26", "Intersecting a polygon with a mesh tells every edge and face it crosses",
 "For a polygon, every edge that it crosses is told with the two nodes of the edge, the segment of the polygon that crosses it, how far along the segment and how far along the edge, and every face it enters is told with the edges through which it is entered and left; nothing that it does not cross is told, and a polygon that crosses nothing tells nothing. What is told does not depend on what was asked before, and asking changes nothing.",
 ["inputs"], "every rectangle and triangle with corners between the nodes of meshes of squares, split squares and unequal cells, with every start and direction; a corner anywhere on a line",
 "Tests intersect two polygons with one mesh; the corners, directions and starts that matter are not among them.",
 [MK+"Mesh2DIntersections.cpp", "libs/MeshKernel/include/MeshKernel/Mesh2DIntersections.hpp", MK+"Operations.cpp", API], [("walking along the polygon", MK+"Mesh2DIntersections.cpp"), ("crossing of segments", MK+"Operations.cpp")],
 ["ring", "more", "corner"], {"ring": "a mesh of squares, every corner at 12 places per corner between the nodes", "more": "four shapes of mesh, several polygons", "corner": "a corner with a symbolic coordinate (lattice of 1/8), six combinations of the others"},
 "polygons through nodes or with corners on edges, edges that belong to no face (they are not told), the order of the edges of one face",
 {"ring": {"j": 2, "budget": 100}, "more": {"j": 2, "budget": 100}, "corner": {"j": 4, "budget": 200}},
 {"ring": ["crossed", "clear"], "more": ["crossed", "clear"], "corner": ["corner"]})
prop("C27", "Measures of a mesh or grid are those of it as it is now",
 "Edge lengths, orthogonality and smoothness of a mesh are told for each edge, have a value only for edges that have one (orthogonality and smoothness only between two faces), and are those of the mesh as it is after any edits and undone edits, whatever was or was not asked before: the same as of a new mesh with the same nodes and edges. The smoothness of an edge is the ratio of the areas of its faces, not below one; neighbouring acute triangles and rectangles have orthogonality zero. Smoothness and curvature of a grid are told for each node from its neighbours on the line, missing on the rim and next to missing nodes; a direction that does not exist is refused.",
 ["inputs", "histories"], "every pair of edits at every node of a mesh of three by three cells, with and without undoing the last; every pair of triangles, every grid with a missing and a displaced node, within the bounds",
 "Tests ask for measures of meshes right after they were made; after edits the administration they are taken from may be another mesh's.",
 [MK+"Mesh2D.cpp", MK+"Mesh.cpp", CG+"CurvilinearGridSmoothness.cpp", CG+"CurvilinearGridCurvature.cpp", API], [("measures of edges", MK+"Mesh2D.cpp"), ("measures along grid lines", CG+"CurvilinearGridSmoothness.cpp"), ("bringing the administration up to date", API)],
 ["mesh", "pair", "grid"], {"mesh": "seven edits times seven at 16 nodes, four measures", "pair": "apexes on 11 x 12 points each, two edge orders", "grid": "up to 4x5 nodes, any node missing and any displaced, directions -1 to 2"},
 "values of orthogonality of other cells (only their range and agreement with a new mesh), the value of curvature (only its sign and zero), spherical coordinates",
 {"mesh": {"j": 2, "budget": 100}, "pair": {"j": 3, "budget": 100}, "grid": {"j": 3, "budget": 100}},
 {"mesh": ["lengths", "ratios", "angles"], "pair": ["acute", "obtuse"], "grid": ["refused", "curvature", "smoothness"]})
prop("C28", "Coarsening tells the cells it takes away, and takes those away",
 "The cells told before coarsening a mesh are cells of the mesh, each told once; no two of them share a node, and in a mesh of rectangles each cell shares a node with one of them. Coarsening the mesh then takes each of them away as it was, and cells that neither were told nor touch one that was told stay as they are. The mesh covers the same area without overlap, has fewer cells if any was told and is the same if none was told; within a polygon, what is told and done is confined to it. A coarsening that is refused leaves the mesh as it was, a coarsening can be undone, and edits and undone edits before it do not matter.",
 ["inputs", "histories"], "every mesh of the sizes in the bounds with every edit, undone or not; every box around part of a mesh",
 "Tests coarsen a few large meshes and compare with stored nodes; small meshes, edited meshes and boxes between the cells are not in them.",
 [MK+"CasulliDeRefinement.cpp", API], [("telling and coarsening", MK+"CasulliDeRefinement.cpp"), ("interface", API)],
 ["whole", "part"], {"whole": "meshes of rectangles, four edits at every node, before and after undoing", "part": "every box with corners on the lattice around part of a mesh, symbolic"},
 "meshes one or two cells wide (cells are told there that cannot be taken away), meshes with triangles, spherical coordinates",
 {"whole": {"j": 3, "budget": 100}, "part": {"j": 4, "budget": 150}},
 {"whole": ["coarser", "refused", "none"], "part": ["coarser", "same"]})
prop("C29", "What an operation does depends on the mesh, not on how it came to be",
 "Every operation on a mesh or grid does the same as on a new mesh or grid with the same nodes and edges: it succeeds or is refused alike, tells the same values for the same places, and leaves the same nodes joined by the same edges; whatever edits, undone edits and undone operations came before, and although nothing else was asked in between.",
 ["histories", "inputs"], "each of 51 operations and questions on meshes after each of nine edits at each of 16 nodes (thorough: after two edits), each of 26 on grids after each of 15 edits at each of 20 nodes",
 "Tests do one operation on a mesh just made, whose administration, trees and caches are all up to date.",
 [MK+"Mesh.cpp", MK+"Mesh2D.cpp", CG+"CurvilinearGrid.cpp", API], [("administration and caches", MK+"Mesh.cpp"), ("of grids", CG+"CurvilinearGrid.cpp"), ("interface", API)],
 ["history", "grid"], {"history": "4x4 nodes, nine edits at 16 nodes, a second edit (thorough), 51 operations", "grid": "5x4 nodes, 15 edits at 20 nodes, 26 operations"},
 "orthogonalising meshes with notches (known finding of C02), numbering of nodes and edges, spherical coordinates",
 {"history": {"j": 5, "budget": 150}, "grid": {"j": 4, "budget": 150}},
 {"history": ["done", "refused"], "grid": ["done", "refused"]})
prop("C30", "A call that fails tells why, and everything can be cleared",
 "Every kind of failure has its own exit code, different from success; a call that fails returns one of these codes and leaves a message that is not empty, ends within its room and is that of the last failure, until the next one: calls that succeed do not change it, and it can be asked for again. Clearing everything leaves no state, no history and nothing to undo, whatever was done before, and new states made after it are valid, different and empty.",
 ["inputs", "histories"], "every API function that takes a state id, on a state that is there and on any other id, after another failure; every number of states, edits, undone edits and any size of the history",
 "Tests look at the exit code of calls that succeed; messages and codes of most failures are never looked at.",
 [API, "libs/MeshKernel/include/MeshKernel/Exceptions.hpp", MK+"UndoActions/UndoActionStack.cpp"], [("codes and messages", API), ("kinds of failure", "libs/MeshKernel/include/MeshKernel/Exceptions.hpp")],
 ["errors", "clear"], {"errors": "all functions, ids in [-2e9,2e9] symbolic, three values for the other integers", "clear": "up to three states, three edits, two undone; size of the history and id asked for symbolic up to 2e9"},
 "the wording of messages, the place told for geometry errors",
 {"errors": {"j": 4, "budget": 120}, "clear": {"j": 2, "budget": 60}},
 {"errors": ["failed", "fine"], "clear": ["cleared"]})
prop("C31", "Doing it step by step gives what one call gives",
 "Orthogonalising a mesh step by step (beginning, and for each round preparing, the inner steps and finishing) gives exactly the mesh that the one call gives, whatever is asked about the mesh in between, and is undone at once. When the mesh is changed, undone or replaced between the steps, further steps are refused and leave the mesh as it is, and the change can still be undone. Growing a grid from splines layer by layer gives exactly the grid that the one call gives, also when the grid so far is asked for in between. After the end, before the beginning, or when it could not begin, every step is refused; layers that do not exist are refused.",
 ["histories", "inputs"], "every number of rounds, steps and layers within the bounds; every question and change in between at every step; every layer number",
 "Tests do the steps once, in order, on one mesh and compare a few nodes; questions and changes in between are not in them.",
 [MK+"OrthogonalizationAndSmoothing.cpp", MK+"Smoother.cpp", MK+"Orthogonalizer.cpp", CG+"CurvilinearGridFromSplines.cpp", API], [("meshes", MK+"OrthogonalizationAndSmoothing.cpp"), ("grids from splines", CG+"CurvilinearGridFromSplines.cpp"), ("interface", API)],
 ["mesh", "edited", "order", "splines", "layer", "nothing"], {"order": "any five steps in a row (thorough six), two meshes", "mesh": "5x4 nodes with displaced ones, one to three rounds, one or two by one to three steps, three factors, three selections, five questions at three times", "edited": "the same mesh, seven kinds of change at every node and edge at three times", "splines": "one spline crossed by two or three, one to four layers, two to five columns, bent or skewed, growing outside, adapted spacing", "layer": "any layer number in [-2^31,2^31-1], symbolic, after any number of layers", "nothing": "splines that give no grid, -2 to 3 rows and columns"},
 "stepwise changes of curvilinear grids, removal of skinny triangles (done by the one call only), spherical coordinates",
 {"mesh": {"j": 4, "budget": 150}, "edited": {"j": 2, "budget": 100}, "order": {"j": 2, "budget": 100}, "splines": {"j": 2, "budget": 100}, "layer": {"j": 1, "budget": 60}, "nothing": {"j": 1, "budget": 60}},
 {"mesh": ["same"], "edited": ["refused"], "order": ["begun", "ended"], "splines": ["same"], "layer": ["refused"], "nothing": ["begun", "refused"]})
