"""Writes properties.jsonl (single source of the property texts)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})
CORE = "pvgridder/core/"; UT = "pvgridder/utils/"

prop("C01", "Stacked layers lie exactly where the stack's additions put them",
 "For any sequence of additions to a 2D or 3D stack (constants, functions, planes through a point tilted by given angles, datasets, point arrays), the interfaces of the generated mesh along the stacking axis are the requested surfaces evaluated or linearly interpolated on the base mesh; a constant is an absolute coordinate for the first item and afterwards an offset from the previous item in the stacking direction (up or down). Going through the stack in order, where an item intersects the previous one or is closer to it than its minimum thickness, the lower-priority one (the earlier one on ties) is moved to exactly that thickness from the other, and nothing else moves. Each item is subdivided at exactly the requested number, spacing law or relative positions of sublayers, and coordinates off the stacking axis are those of the base mesh.",
 ["inputs", "histories", "configurations"], "every base mesh (polyline, structured, unstructured), axis, direction, sequence of add calls and options in which each item is only cut by its neighbours",
 "The suite has no stack test: stacks only appear as two fixed bottom-up examples along one axis, without planes, datasets, priorities, thickness or top-down stacking.",
 [CORE+"_base.py", CORE+"stack.py", CORE+"_helpers.py"], [("sequential priority/thickness cut", CORE+"_base.py:_generate_mesh"), ("interpolation of datasets", CORE+"_base.py:_interpolate"), ("subdivision positions", CORE+"_helpers.py:resolution_to_perc")],
 ["MeshStack2D/MeshStack3D call history and the mesh returned by generate_mesh"])
prop("C02", "Collapsed cells are flagged hidden, and only they are",
 "In meshes generated between two lines or two surfaces (directly, by stacking or by extrusion) a cell is flagged as a hidden ghost cell exactly when it is collapsed, i.e. its two ends coincide (within about 1e-8) so that it has no extent; every cell with a non-zero extent stays visible whatever the magnitude of its coordinates. When nothing is collapsed the returned stack carries no hidden cell.",
 ["inputs", "configurations"], "every pinch-out pattern, base cell type, axis, subdivision and coordinate offset",
 "Tests only see the pinch-out pattern of the anticline example; no unstructured stack with pinch-outs and no large coordinates.",
 [CORE+"_helpers.py", CORE+"_base.py"], [("zero-size test", CORE+"_helpers.py:generate_*"), ("removal of an all-zero ghost array", CORE+"_base.py:_clean")],
 ["vtkGhostType cell data of StructuredSurface, Volume, MeshStack2D/3D and MeshExtrude results"])
prop("C03", "Every stacked or extruded cell knows its column, layer and item",
 "In a stacked or extruded mesh every cell's column number is the index of the base-mesh cell it was swept from, its layer number counts the sublayers from the first item on (0, 1, 2, ... with none missing or repeated within a column), and its item number is that of the addition that created it. The mesh has exactly one cell per base cell and sublayer, every cell inherits the data (scalar or vector) of the base cell it was swept from, and so does every point in a direct sweep or an unstructured mesh.",
 ["inputs", "histories", "configurations"], "every base mesh, stacking axis, number of items and subdivisions, and attached data array",
 "No test looks at the column, layer or item numbers, nor at inherited data.",
 [CORE+"_base.py", CORE+"extrude.py", CORE+"_helpers.py", UT+"_misc.py"], [("numbering of swept cells", CORE+"_base.py:_generate_mesh, "+CORE+"extrude.py:generate_mesh"), ("data repetition", CORE+"_helpers.py:repeat_structured_data"), ("concatenation of cell data", UT+"_misc.py:merge")],
 ["ColumnId, LayerId, StackItem, ExtrudeItem and user arrays of generate_mesh results; data of Volume/StructuredSurface results"])
prop("C04", "Cell groups end up on exactly the cells the user assigned them to",
 "For every builder (stack, extrusion, merge, Voronoi) each cell's group name is the one implied by the inputs: the group already on the source cell unless ignored, overridden by the item's group name or group mapping (names of base groups, lists of names, index or mask arrays, functions, later entries winning, tilde-inverted names as values only), and otherwise the item or builder default. Group numbers in the result are 0..n-1, each name has one number, every number used by a cell has a name and every listed name is used by at least one cell.",
 ["inputs", "histories", "configurations"], "every base numbering and naming of groups, ignore list, default group, and group argument form",
 "Tests check the name table of one merge; string/mapping/inverted selections, ignored groups and non-contiguous base numberings are never run.",
 [CORE+"_base.py", CORE+"merge.py", CORE+"stack.py", CORE+"extrude.py", CORE+"voronoi.py"], [("group array initialisation", CORE+"_base.py:_initialize_group_array"), ("removal of unused names", CORE+"_base.py:_clean"), ("name table", UT+"_properties.py:get_cell_group")],
 ["CellGroup data and name table of generate_mesh results"])
prop("C05", "Sweeping between two lines or surfaces is exact linear interpolation",
 "A mesh generated between two lines or two surfaces, or by an extrusion history of translations with optional scaling and rotation (about the translation vector) around the moved section's bounding-box centre, consists of one cell per base cell and sublayer, of the extruded type of the base cell (triangle to wedge, quad or pixel to hexahedron, polygon to polyhedron, structured to structured), whose corners are the linear interpolation of the corresponding start and end points at the requested relative positions. The first level coincides with the starting section and the last with the ending section of each item, and consecutive items share their common section.",
 ["inputs", "histories", "configurations"], "every base section, plane, translation/scale/rotation history and subdivision",
 "Tests compare one sum of coordinates and one total volume per primitive; scaling, rotation, defaults, planes other than xy and mixed cell types are not reached.",
 [CORE+"_helpers.py", CORE+"extrude.py", CORE+"geometric_objects.py"], [("linear interpolation", CORE+"_helpers.py:generate_surface_from_two_lines, generate_volume_from_two_surfaces"), ("section transform", CORE+"extrude.py:add")],
 ["results of StructuredSurface, Volume and MeshExtrude.generate_mesh"])
prop("C06", "Extruded polyhedra are closed and face outwards",
 "Every polyhedral cell produced by extruding or stacking polygons is a closed surface: each of its edges is shared by exactly two of its faces. With face inversion enabled (the default) the two faces traverse it in opposite directions, every face normal points out of the cell and the enclosed volume is that of the prism over its polygon, for convex and concave polygons alike, for any starting vertex, orientation and direction of extrusion.",
 ["inputs", "configurations"], "every simple polygon (convex or concave, collinear vertices included), orientation, starting vertex and extrusion direction",
 "Tests use one L-shaped polygon starting at a convex corner and one convex polygon.",
 [CORE+"_helpers.py"], [("face ordering of polyhedra", CORE+"_helpers.py:generate_volume_from_two_surfaces")],
 ["faces of polyhedra in Volume, MeshExtrude and MeshStack3D results"])
prop("C07", "Merging meshes loses, duplicates or distorts no cell",
 "Merging any list of meshes (merge function or merger class) gives a mesh whose cells are exactly the union of the input cells, each with its type, corner coordinates and its values of the data arrays common to all inputs, and after a merger run or a point-merging merge no two points coincide within the tolerance (coordinates of mixed precision are kept to single precision). Structured grids merged along an axis give the structured grid with the interface counted once and cell data concatenated along that axis, and are refused when the interfaces do not match or no axis is given.",
 ["inputs", "configurations"], "every list of two or more meshes, cell types, data arrays and axis",
 "Tests merge two or three tiny meshes and check counts only.",
 [UT+"_misc.py", CORE+"merge.py", CORE+"_base.py"], [("structured concatenation", UT+"_misc.py:merge"), ("point merging", CORE+"_base.py:_clean")],
 ["results of merge and MeshMerge.generate_mesh"])
prop("C08", "A Voronoi mesh partitions its domain into nearest-point cells",
 "The cells of a generated Voronoi mesh lie inside the background domain (including its holes), do not overlap and together cover it; each cell records its generating point and is a part of the domain nearer to it than to any other generating point, up to the minimum-edge-length tolerance: the whole of it wherever that is one simple polygon, otherwise (split by a concave boundary, or around a hole) one of several cells of that point. Every cell polygon is simple and has the requested orientation (counter-clockwise by default) in the plane of the two retained axes.",
 ["inputs", "configurations"], "every planar background mesh (connected or not, with holes or slots), discarded axis, point/cell preference, and set of added points",
 "Voronoi meshes only appear as one fixed example whose geometry is not checked.",
 [CORE+"voronoi.py", UT+"_misc.py"], [("tessellation and clipping", CORE+"voronoi.py:generate_mesh"), ("infinite regions", CORE+"voronoi.py:_generate_voronoi_tesselation"), ("short-edge averaging", UT+"_misc.py:average_points")],
 ["cells and X, Y, Z data of VoronoiMesh2D.generate_mesh"])
prop("C09", "Voronoi constraints control which points survive",
 "The generating points of a Voronoi mesh are the background points (cell centres or points, as preferred) plus the points of added arrays and cell centres of other added items lying inside the domain, minus those enclosed in a cell of an added mesh of higher absolute priority, or of equal absolute priority added later unless its priority is negative. A constrained circle reproduces its radius as cell edges and becomes a single cell when plain, and a constrained polyline of given width yields one row of cells per subdivision following it, with the item's group on those cells and the default group on the constraint cells around them.",
 ["inputs", "histories", "configurations"], "every set and order of added items, priorities, circles and polylines",
 "No test adds an item to a Voronoi mesh.",
 [CORE+"voronoi.py"], [("priority filter", CORE+"voronoi.py:generate_mesh"), ("constraint points", CORE+"voronoi.py:add_circle, add_polyline")],
 ["X, Y, Z, CellGroup data and cells of VoronoiMesh2D.generate_mesh for a recorded call history"])
prop("C10", "Geometric primitives have exactly the requested shape and subdivision",
 "Every primitive (rectangle, square, quadrilateral, sector, circle, annulus, annular sector, sector-in-rectangle, rectangle-in-sector and their square variants, cylindrical shell and sector) has its points (to single precision) on the curves given by its size, angle, radius and height arguments, translated by the centre argument (which is where the first corner of rectangles, the common centre of arcs and the mid-height of cylinders go), and its cells tile exactly the polygonal (or prismatic) region these points enclose, without overlap. The number and relative positions of subdivisions along each direction are those requested: n equal parts by default, logarithmically growing or shrinking parts, or the explicit relative positions given.",
 ["inputs", "configurations"], "every size, angle, centre, resolution (integer or positions) and spacing method",
 "Each primitive is tested at one argument set by a coordinate sum and an area; spacing methods, explicit positions and centres are not.",
 [CORE+"geometric_objects.py", CORE+"_helpers.py"], [("primitive constructors", CORE+"geometric_objects.py"), ("subdivision law", CORE+"_helpers.py:resolution_to_perc")],
 ["points and cells of the constructors' results"])
prop("C11", "Meshed polygons cover exactly the shell minus the holes",
 "A polygon meshed from a shell and optional holes (coordinates, polylines or any 2D dataset, 2D or 3D coordinates, closed or not) consists of cells of the requested kind that do not overlap (triangles and single polygons; the mesher may fold coarse quads), stay inside the shell and out of the holes, and whose total area is the shell's minus the holes'. Every shell and hole vertex is a mesh point, the mesh is conforming (boundary edges are exactly shell and hole edges or their subdivisions), and a requested element size is respected to within a factor two.",
 ["inputs", "configurations"], "every simple shell and set of disjoint interior holes, input form, cell type, size, engine and algorithm",
 "Tests mesh one regular polygon with up to two circular holes and check total area only.",
 [CORE+"geometric_objects.py"], [("gmsh conversion", CORE+"geometric_objects.py:Polygon")],
 ["results of Polygon"])
prop("C12", "Splitting and merging lines conserves every line and its data",
 "Splitting a line mesh returns, in order, one piece per line or polyline with exactly its points in order and its point data, and its cell data repeated on every segment; other cells are ignored. Merging lines returns every input segment (or whole polylines) in input order with exactly the same coordinates and its cell data, coincident points merged, and keeps the data arrays common to all inputs and no others.",
 ["inputs", "configurations"], "every set of polylines (closed, crossing, touching, multi-line) with scalar, vector and string data, as segments or polylines",
 "Tests split and merge one open polyline with itself.",
 [UT+"_misc.py"], [("split_lines, merge_lines", UT+"_misc.py")], ["results of split_lines and merge_lines"])
prop("C13", "Generated, decimated and reconstructed lines honour their contracts",
 "A regular line has the requested number of equal parts (by arc length) on the given polyline including both ends, and a curved line has the given origin, total length, equal segments and directions turning at a constant rate from start to end direction. A decimated polyline keeps both ends, uses only original points in order, lies within the tolerance of every point it dropped, and is reduced to its ends whenever they alone are within tolerance. A reconstructed line visits every input point once starting from the chosen one, is never longer than the input order, and cannot be shortened (beyond the relative tolerance) by reversing one stretch of it.",
 ["inputs"], "every point set, polyline (not a closed loop within tolerance of one point), resolution and tolerance",
 "Each is tested on one or two curves by a coordinate sum or a count.",
 [CORE+"geometric_objects.py", UT+"_misc.py"], [("RegularLine, CurvedLine", CORE+"geometric_objects.py"), ("decimate_rdp, reconstruct_line", UT+"_misc.py")],
 ["results of RegularLine, CurvedLine, decimate_rdp, reconstruct_line"])
prop("C14", "Cell faces, neighbours and connectivity agree with shared geometry",
 "The extracted cell geometry lists each distinct edge (1D/2D meshes) or face (3D meshes) of the cells exactly once, with exactly the cells that own it (sharing its point ids), and its original points. Two cells are neighbours if and only if they share such an edge or face (symmetrically, never themselves), for any mesh from a single cell up, and the connectivity mesh has one line per shared edge or face of each neighbouring pair joining the two cells' (given or computed) centres; hidden, empty and collapsed geometry is excluded by default and, when requested otherwise, treated like any other.",
 ["inputs", "configurations"], "every manifold mesh of any supported cell types with or without hidden cells",
 "Tests compare a handful of example meshes; single cells, mixed types, pixels/voxels, polyhedra beyond one example, and owner lists are unchecked.",
 [UT+"_misc.py", UT+"_connectivity.py"], [("face dictionary", UT+"_misc.py:extract_cell_geometry"), ("face tables", UT+"_misc.py:_celltype_to_faces"), ("neighbour lists", UT+"_connectivity.py")],
 ["results of extract_cell_geometry, get_neighborhood, get_connectivity"])
prop("C15", "Cell properties are reported faithfully, cell by cell",
 "For every mesh the cell connectivity lists the cells in order with exactly their point ids (per face for polyhedra), and its flattened form rebuilds an identical mesh. The reported dimension is the largest topological dimension among the cells (the number of non-degenerate axes for structured meshes), and cell centres are one row per cell in order: the cell's centre for every real cell, hidden or not, undefined (NaN) for empty ones, and for polyhedra the box, geometric or volume-weighted centre requested.",
 ["inputs", "configurations"], "every mesh type, mix of cell types including empty, hidden and polyhedral cells",
 "Tests check shapes and a few examples; mixed polyhedral/empty meshes and true values are not compared.",
 [UT+"_properties.py"], [("get_cell_connectivity, get_dimension, get_cell_centers", UT+"_properties.py")], ["results of these functions"])
prop("C16", "Extracting cells returns exactly the selected cells",
 "Extracting cells by indices or mask, inverted or not, returns exactly the selected cells in ascending order with their type, coordinates, data and hidden flags, whether or not hidden cells are among them, and records the original cell ids. Extracting by dimension selects exactly the cells of dimension at least (upper) or at most (lower) the given one, or the mesh's own, and keeps empty cells only if asked.",
 ["inputs", "configurations"], "every mesh, selection and option",
 "Tests check cell counts on two meshes.",
 [UT+"_misc.py"], [("extract_cells, extract_cells_by_dimension", UT+"_misc.py"), ("dimension table", UT+"_properties.py")], ["results of both functions"])
prop("C17", "Boundary polygons trace the whole boundary, holes with their shells",
 "The boundary polylines extracted from a surface mesh are closed loops that together contain every edge used by exactly one cell once and no other edge, and none is reported for a closed surface. When filled, each becomes a polygon of the same loop; when holes are grouped, each group is one outer loop followed by exactly the loops bounding holes of its region, in whatever plane the mesh lies and however deep regions are nested, and filling such a group meshes the region with its holes.",
 ["inputs", "configurations"], "every planar or curved manifold surface mesh, with several components and holes",
 "Tests extract one outline of two hole-free meshes.",
 [UT+"_misc.py"], [("edge stripping and hole grouping", UT+"_misc.py:extract_boundary_polygons")], ["result of extract_boundary_polygons"])
prop("C18", "Fusing cells replaces them by their union and nothing else",
 "Fusing one or several sets of connected cells (indices or masks) of a surface mesh returns a mesh in which each set is a single polygon covering exactly the union of its cells, carrying the data of the first cell of the set, while every other cell keeps its geometry, type, data and relative order and the group names are kept. Sets that are not connected through edges or enclose a hole are refused.",
 ["inputs"], "every 2D mesh and family of disjoint connected sets of cells",
 "Tests fuse three fixed sets and check counts and total area.",
 [UT+"_misc.py"], [("fuse_cells", UT+"_misc.py")], ["result of fuse_cells"])
prop("C19", "Averaging points merges exactly the clusters within tolerance",
 "Averaging the points of a polygonal mesh or point cloud replaces every cluster of points connected by steps no longer than the tolerance by its mean and moves no other point. Every polygon that still has three distinct corners is kept in order with its corners mapped accordingly and consecutive duplicates removed, and its original index recorded; only polygons reduced to fewer corners disappear.",
 ["inputs"], "every polygon mesh, cluster layout (chains, merging clusters) and tolerance",
 "Tests have one pair of close points.",
 [UT+"_misc.py"], [("cluster merging", UT+"_misc.py:average_points")], ["result of average_points"])
prop("C20", "Ray casting finds every crossed face at the true crossing point",
 "Casting a ray between two points on a mesh reports exactly the edges (2D) or faces (3D or surface meshes) that the segment crosses, each with its owner cells and the crossing point, which lies on the segment and on the reported edge or face; nothing is reported when nothing is crossed. Faces whose normal makes an angle with the ray of at least the given maximum are left out, and no other, perpendicular incidence included.",
 ["inputs", "configurations"], "every mesh and segment in general position, any scale and direction",
 "Tests compare coordinate sums of four casts.",
 [UT+"_misc.py"], [("ray_cast", UT+"_misc.py")], ["result of ray_cast"])
prop("C21", "Intersecting a polyline cuts it exactly at cell boundaries",
 "Intersecting a polyline with a mesh returns the line joining, in order, its first point, its vertices outside the mesh, every point where it enters, leaves or passes between cells, and its last point (vertices within a cell are not kept, so a straight line keeps its length). Each piece records the original segment its end lies on, with the line's data, and the cell that contains it, or -1 exactly when it is outside the mesh; pieces before entry or after exit are dropped only on request.",
 ["inputs", "configurations"], "every 2D or 3D mesh of convex cells and polyline entering it at most once, in general position (no crossing through edges of a volume or points, pieces longer than the minimum length)",
 "Tests run eight fixed lines on three meshes.",
 [UT+"_misc.py"], [("cell walk", UT+"_misc.py:intersect_polyline")], ["result of intersect_polyline"])
prop("C22", "Remapping categories changes exactly the mapped values and keeps names true",
 "Remapping categorical cell or point data changes exactly the entries whose old value (given by number or name) is in the mapping to the mapped value, all at once so that swaps work, in place or on an independent copy as asked. After it every entry still in use keeps its name, names whose entries are gone are dropped, names are ordered by value, and, for mappings that merge no categories, the group names read back per cell are those of the original entries.",
 ["inputs", "configurations"], "every integer data array, name table and mapping",
 "Tests check that target values appear in the data.",
 [UT+"_misc.py", UT+"_properties.py"], [("remap_categorical_data", UT+"_misc.py"), ("get_cell_group", UT+"_properties.py")], ["data, name table and get_cell_group before and after"])
prop("C23", "Offsetting polygons and quadratic conversion are geometrically exact",
 "Offsetting a planar polygon by a distance moves every edge parallel to itself by that distance, outwards if positive and inwards if negative, whatever its orientation, position, plane (which is kept) and starting vertex, polygon by polygon. Quadratic conversion keeps every triangle or quad in order with its corners, and adds the midpoint of each edge in edge order.",
 ["inputs"], "every simple polygon in an axis-aligned plane and distance small enough not to collapse edges; every triangle/quad mesh",
 "Tests offset one square at the origin and check only that the area grows or shrinks.",
 [UT+"_misc.py"], [("offset_polygon, quadraticize", UT+"_misc.py")], ["results of both functions"])
prop("C24", "Interactive selection returns exactly what the user picked",
 "Lasso selection returns exactly the indices of the cells (by centre) or points that project inside the drawn polygon in the chosen view, and the polygon itself if asked. Picking returns exactly the cells or points picked an odd number of times, in picking order; any sequence of picks and un-picks is allowed.",
 ["inputs", "histories", "configurations"], "every mesh, view, lasso polygon and click history",
 "The only test makes no click at all.",
 [UT+"_interactive.py"], [("click callbacks", UT+"_interactive.py")], ["return value under a scripted plotter replaying click histories"])
prop("C25", "No call modifies the meshes or arrays passed to it",
 "Every public function, constructor and builder method leaves its input meshes (points, cells, data arrays, field data, hidden flags) and input arrays exactly as they were, whether it succeeds or raises, unless asked to work in place. Later changes by the caller to a mesh or coordinate array passed to a stack or Voronoi builder do not change what that builder generates.",
 ["inputs", "histories", "fault_sequences"], "every public call, valid or failing, with every input type",
 "Tests compare outputs only; one checks that hidden flags survive one call.",
 ["pvgridder/core", "pvgridder/utils"], [("copies on entry", CORE+"*.py"), ("temporary removal and restoration of hidden flags", UT+"_misc.py:extract_cells, "+UT+"_properties.py:get_cell_centers")],
 ["digest of every argument before and after every observed public call, nested ones included"])
prop("C26", "Building is repeatable and deterministic",
 "Generating a mesh twice from the same builder gives the same mesh, even if the caller modified the first one, and adding further items after a generation gives the same mesh as adding them all before generating once. The same call history gives the same mesh in another process, whatever its hash seed.",
 ["histories", "configurations", "programs"], "every builder history with generations interleaved at any point; every process",
 "Tests generate once per builder.",
 [CORE+"_base.py", CORE+"merge.py", CORE+"stack.py", CORE+"extrude.py", CORE+"voronoi.py"], [("item state kept between calls", CORE+"_base.py")],
 ["meshes generated at different points of a history and in different processes"])
prop("C27", "Impossible requests are refused instead of yielding a bad mesh",
 "Requests that cannot be honoured raise an error and return no mesh: lines or surfaces with different numbers of points, dimensions, cells or cell types, bases of the wrong dimension or axis, too few items to stack, extrude or merge, invalid radii, planes, methods, vectors, point arrays or cell types, datasets not covering the base mesh, unknown category names or non-categorical data. A builder that refused an addition still generates the same mesh as if the request had never been made.",
 ["inputs", "histories", "fault_sequences"], "every invalid request, at any point of a valid history",
 "One invalid call is tested.",
 [CORE+"*.py", UT+"*.py"], [("argument validation", CORE+"*.py, "+UT+"*.py")], ["exceptions raised and meshes generated afterwards"])

prop("C28", "Transitions join two discretisations without gap or overlap",
 "A transition item of a 2D stack (given by a function, dataset or point array after setting a new base line by number of segments or mesh) fills exactly the zone between the previous item's line and its own line on the new base with non-overlapping triangles that have every segment of both lines as an edge, so that the mesh is conforming and shares its points with the items before and after. The triangles form one layer with column number -1, the item's number and the item's group (or the default); resolution, priority and thickness have no effect on it; every other item is swept as usual on the base line in force when it was added.",
 ["inputs", "histories"], "every 2D stack history with transitions, whatever the two discretisations, extents, axis and direction",
 "No test sets a transition.",
 [CORE+"stack.py", CORE+"_base.py", CORE+"geometric_objects.py"], [("transition items", CORE+"stack.py")], ["meshes generated from histories with transitions"])

prop("C29", "Meshes chained from builder to builder fill their domain and conform",
 "Along any chain of the library's calls meshes stay consistent: primitives, stacks, polygons or merges give a plane mesh covering its domain exactly once, every edge shared by two cells or on the domain's boundary. Its Voronoi mesh has one cell per plane cell with that cell's groups and the same total area, and fusing two cells, extracting or remapping cells keeps the remaining area, edges and groups. Stacking or extruding the result, whole or in parts merged back with a tolerance covering single-precision round-off, gives one cell per plane cell and layer, of volume area times thickness and with the column's or layer's group; cells share a face exactly where plane cells share an edge or layers meet, the other faces form the outer boundary, and the reported connectivity is exactly the pairs sharing a face.",
 ["inputs", "histories", "programs"], "every chain of builders and utilities as in the documented workflows, any dimensions, groups and resolutions",
 "Tests run each function alone on fixed meshes and compare sums; the examples check nothing.",
 ["pvgridder/core", "pvgridder/utils"], [("builders", CORE+"*.py"), ("fuse_cells, extract_cells, merge, remap_categorical_data", UT+"_misc.py"), ("get_connectivity", UT+"_connectivity.py")], ["the mesh after each step of a chain"])

prop("C30", "Example meshes follow their recipes on every call",
 "Every example loader returns, whatever was done to earlier results, a fresh and identical mesh: the anticlines are five groups of layers between 0 and 3.4 following their formulas, pinched-out cells hidden; the L-shaped and half-stadium polyhedra are closed, oriented outwards and of exact volume for every resolution. The well meshes cover their square once with each group filling its rings (one cell per original cell as Voronoi mesh), extruded 30 down and, for core and casing only, 3 up. The terrain mesh has ten logarithmic sublayers between zero and the height of the downloaded map at every kept pixel, cells without height hidden.",
 ["inputs", "histories"], "every loader, resolution, option and order of calls; every height map",
 "Tests use the examples as inputs without checking them; the terrain cannot be downloaded where tests run offline.",
 ["pvgridder/examples/examples.py"], [("loaders", "pvgridder/examples/examples.py")], ["meshes returned by the loaders, with the download replaced by generated height maps"])

for p in P:
    assert len(p["title"]) <= 80, p["title"]
open("/verif/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
