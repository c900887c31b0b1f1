"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
G="SeismicMesh/geometry/signed_distance_functions.py"; U="SeismicMesh/geometry/utils.py"
FG="SeismicMesh/geometry/cpp/fast_geometry.cpp"; MG="SeismicMesh/generation/mesh_generator.py"
GU="SeismicMesh/generation/utils.py"; SZ="SeismicMesh/sizing/mesh_size_function.py"
HJ="SeismicMesh/sizing/cpp/FastHJ.cpp"; MI="SeismicMesh/migration/migration.py"
CU="SeismicMesh/migration/cpp/cpputils.cpp"; BL="SeismicMesh/decomp/blocker.py"
D2="SeismicMesh/generation/cpp/delaunay_class.cpp"; D3="SeismicMesh/generation/cpp/delaunay_class3.cpp"
DE="SeismicMesh/generation/cpp/delaunay.cpp"
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

prop("C01","Primitive shapes: correct signed distance under any rotation/stretch/move",
 "For every primitive shape (disk, rectangle, ball, cube, torus, prism, cylinder) and every rotation, stretch and translation, the shape's field is negative inside, positive outside and zero on the boundary of the solid obtained by stretching the untransformed solid along the given vector, then rotating it (about z, then y, then x), then translating it. Under any transformation the value equals the untransformed shape's field at the pulled-back point. Without a stretch the field is 1-Lipschitz and never overstates the distance to the boundary, and for disks, balls, tori and cylinders it equals that distance.",
 ["inputs"],"all shape parameters, rotations (all axes, composed), stretch vectors, translations and query points in 2D and 3D",
 "The tests only check that meshing a handful of rotated shapes does not raise; no test looks at the field of a transformed shape at all.",
 [G,FG],[("_manipulate / _scale_back / _rotate_back / _translate_back",G),("shape eval methods",G),("drectangle_fast, dblock_fast",FG)],["Shape.eval"])
prop("C02","Shape bounding boxes contain the shape; corners are its real corners",
 "For every primitive shape under any transformation and every union, intersection, difference or repetition of shapes, each point where the field is negative lies inside the shape's bounding box (up to the bulge, at most a quarter of the smoothness per blend, that a smoothed union adds). The corner points reported by a transformed rectangle or cube are exactly its transformed corners and lie on its boundary, and the corners of a set operation are those of its operands.",
 ["inputs"],"all shape parameters, transformations, and nested set operations",
 "The tests build rotated/stretched shapes but never compare the bounding box or the corners with the actual solid; a box that cuts the solid silently truncates meshes only for particular angles.",
 [G],[("_build_stretch/_build_rotation/_build_translation",G),("Union/Intersection/Difference bbox and _gather_corners",G)],["Shape.bbox","Shape.corners"])
prop("C03","Set operations on shapes obey Boolean algebra, sharp or smoothed",
 "For any number of operands (two or more), union, intersection and difference give exactly the minimum, the maximum, and the maximum of the first with the negated rest of their operands' fields; difference removes every operand after the first. With a smoothness radius k the value moves only in the rounding direction (union down, intersection and difference up), by at most k/4 per binary blend and by exactly k/4 where two blended fields are equal, and not at all where the blended fields differ by k or more; a repeated shape is periodic in its period and cropped to its box.",
 ["inputs"],"all operand lists (1..5, nested, 2D and 3D), smoothness radii and query points",
 "The tests mesh four fixed combinations and compare volumes loosely; operand order, operand counts above two with smoothing, and the blend bounds are never checked.",
 [G],[("Union/Intersection/Difference eval, _smooth_*, _loop_call",G),("Repeat.eval",G)],["eval of composite shapes"])
prop("C04","Serial meshing returns a valid conforming simplicial mesh",
 "Every mesh that serial mesh generation returns, in 2D or 3D, for any supported domain resolved by the edge length, any sizing, seed, option set and number of iterations (two or more), has finite vertices of the right dimension, in-range connectivity, no duplicated vertices or cells, no cell repeating a vertex, no unused vertex, and every edge (2D) or facet (3D) shared by at most two cells (if a 3D mesh is linted: from ten iterations on). No 2D cell is negatively oriented and, once the mesh has had time to relax (twenty iterations), every 2D cell has strictly positive area and no two overlap.",
 ["inputs","configurations"],"all supported domains (primitives, transforms, set operations, callables), constant and variable sizing, seeds, iteration counts, improvement/check options",
 "The tests only compare total volumes or vertex counts of a dozen fixed domains at fixed settings; an orphan vertex, an inverted or overlapping cell in other inputs passes unnoticed.",
 [MG,U,D2,D3],[("generate_mesh main loop and _termination",MG),("fix_mesh, delete_boundary_entities, laplacian2_fixed_point",U),("_remove_triangles_outside",MG)],["generate_mesh return value"])
prop("C05","The mesh conforms to the domain's boundary and fills it",
 "For a domain resolved by the requested edge length and ten or more iterations, every vertex of the returned mesh lies inside the domain or on its boundary up to a small fraction of the edge length, boundary vertices of the mesh lie on the domain boundary, and the cells cover the domain: their total measure equals the domain's up to the discretisation error of the edge length. With immersed subdomains the cells on either side of each subdomain boundary measure that subdomain likewise, and with a padded sizing function the mesh fills the extended box.",
 ["inputs","configurations"],"all resolved domains, edge lengths, transformations, subdomains, padding",
 "Tests compare a few volumes at fixed parameters; they cannot show that rotated, translated, stretched or composite domains are filled and bounded correctly.",
 [MG,G,U],[("_remove_triangles_outside / _project_points_back_newton / _improve_level_set_newton",MG),("bbox handling (_unpack_domain, _minmax)",MG)],["generate_mesh return value"])
prop("C06","Cell sizes follow the requested edge-length function",
 "After enough iterations the edges of the mesh have the requested local length: up to a factor near one on average and a bounded factor individually, everywhere in the domain, for constant and variable edge-length functions (grid based, callable or scalar), in 2D and 3D, on one process or several. Halving the requested length everywhere refines the mesh accordingly, scaling or translating the whole problem scales or translates the mesh statistics with it, a parallel run matches the serial one statistically, and 2D cells are well shaped.",
 ["inputs"],"all resolved domains, all smooth edge-length functions, all scales and offsets",
 "Tests pin vertex counts of fixed models only in wide intervals; they never relate the local size of cells to the local value of the sizing function.",
 [MG,GU,SZ],[("_compute_forces (force law, L0mult)",MG),("_generate_initial_points (rejection with r0m)",MG),("create_staggered_grid",GU)],["generate_mesh return value"])
prop("C07","Meshing is deterministic, independent of verbosity, and input-preserving",
 "Calling mesh generation or sliver removal twice with equal arguments and the same seed gives bit-identical vertices and cells, whatever random numbers were drawn in between, whatever was meshed before, and whatever verbosity is selected; a different seed is honoured for variable sizing. Giving an option at its documented default is the same as omitting it. No call modifies the arrays, options, shapes or sizing objects passed to it, and zero verbosity prints nothing.",
 ["inputs","histories"],"all domains, sizings, options and seeds; all sequences of meshing calls and random draws in one process",
 "Tests run each configuration once, so neither repeatability, nor leakage between calls, nor mutation of inputs is observable to them.",
 [MG,U,GU],[("np.random.seed(opts['seed'])",MG),("verbosity decorators",MG),("copies of points/pfix/bbox",MG)],["generate_mesh/sliver_removal return values and arguments"])
prop("C08","Fixed points and domain corners are vertices of the final mesh",
 "In a serial run without user-supplied initial points, a fixed point in the interior (fixed points being about two edge lengths or more apart) is a vertex of the returned mesh at its given position up to rounding for every seed, iteration count and option setting, with or without mesh improvement and subdomains. Once the mesh has relaxed (ten iterations, in 3D twenty), so are the fixed points on or near the boundary and every corner of a rectangle of any size or a cube of constant size, apart from rare transient coverings by a free vertex.",
 ["inputs","configurations"],"all domains with corners, all sets of separated fixed points, all options",
 "One test pins boundary points of one 3D cube; interior points, 2D improvement and transformed rectangles are never exercised.",
 [MG,U],[("_unpack_pfix, ifix bookkeeping, Ftot[ifix]=0",MG),("corners filter",MG),("laplacian2_fixed_point",U)],["generate_mesh return value"])
prop("C09","Sliver removal bounds dihedral angles or reports failure, keeping a valid mesh",
 "When sliver removal announces success, every dihedral angle of every returned tetrahedron lies within the requested minimum and maximum bounds; otherwise it announces failure after exactly the allowed number of iterations. In both cases the returned mesh is a valid conforming tetrahedral mesh of the same domain, with no unused vertex, covering it as the input mesh did, and the caller's points are not modified. A step moves vertices of slivers only; when the boundary is to be preserved, the vertices on the boundary of the triangulation before a step lie on the domain's boundary after it.",
 ["inputs","configurations"],"all input point sets (meshes, perturbed grids with slivers), bounds, iteration limits and options",
 "Tests run it on three fixed meshes with one bound; early termination, failure reporting, maximum bound and flat tetrahedra are never examined.",
 [MG,FG],[("sliver_removal loop",MG),("_calc_dihedral_angles",MG),("calc_dihedral_angles, calc_circumsphere_grad",FG),("DelaunayTriangulation3.move",D3)],["sliver_removal return value and messages"])
prop("C10","Parallel meshing yields one valid mesh of the whole domain on rank 0",
 "For every number of ranks, decomposition axis and initial point source (generated or user supplied), with slabs several edge lengths wide, parallel mesh generation terminates without deadlock or leftover messages and returns on rank 0 a mesh with no duplicated or unused vertices, every edge or facet shared by at most two cells, and covering the domain without gaps or overlaps, and resolving immersed subdomains, up to the tolerance of the serial mesh. Other ranks return flags only. A sizing function built from a velocity model on the communicator has the serial box and minimum edge length on every rank, the serial sizes on rank 0, and is meshed likewise.",
 ["schedules","configurations","inputs"],"all rank counts, axes, domains, sizing functions, and message schedules",
 "The stable tests run in serial only; parallel tests need mpiexec and fix one domain, two ranks and one axis, with whatever message timing the machine happens to give.",
 [MG,MI,CU,BL,GU],[("_add_ghost_vertices",MG),("make_init_points, _form_extents",GU),("enqueue/exchange/aggregate",MI),("where_to2/where_to3",CU)],["generate_mesh(comm=...) on each rank"])
prop("C11","Domain decomposition partitions the points and localises the sizing faithfully",
 "Splitting a point set into blocks puts every point into exactly one block, in slabs of equal width ordered along the chosen axis with disjoint interiors, one per rank, whose reported extents are the tight boxes of their points; distributing them delivers each rank its own block and all ranks the same extents. Point sets that leave a slab empty are rejected. Each rank's localised sizing function agrees with the global one at every query point of its slab, up to the interpolation error of a grid of the minimum size.",
 ["inputs","schedules"],"all point sets (random, gridded, with ties on block borders), rank counts and axes in 2D and 3D",
 "No stable test calls the decomposition; ties on block borders and non-default axes need particular coordinates.",
 [BL,MI],[("blocker",BL),("localize_points, localize_sizing_function",MI)],["decomp.blocker, migration.localize_*"])
prop("C12","Ghost exchange delivers exactly the exported points, without deadlock",
 "For every number of ranks and every combination of empty and non-empty exports, the neighbour exchange terminates on all ranks under every message schedule and send mode, and each rank receives exactly the points its lower and upper neighbours exported to it, unchanged, and nothing else. The points selected for export to a neighbour are exactly vertices of the local mesh, listed once, and include every vertex of every cell whose circumball and bounding box reach into that neighbour's box.",
 ["schedules","inputs"],"all rank counts, export sets (empty in one or both directions), interleavings and blocking/non-blocking send modes",
 "MPI timing on one machine samples a single schedule; one-sided empty exports need a particular point distribution.",
 [MI,CU],[("exchange",MI),("enqueue",MI),("c_where_to2/c_where_to3",CU)],["migration.exchange/enqueue"])
prop("C13","Aggregation assembles all ranks' cells with correct vertex numbering",
 "Gathering the ranks' local triangulations onto rank 0 yields every local cell exactly once per owning rank with its vertices at their original coordinates, for any number of ranks and any local vertex and cell counts (duplicate, unused vertices included). Non-root ranks receive no mesh, and no message is left behind.",
 ["inputs","schedules"],"all rank counts, local meshes in 2D and 3D, message schedules",
 "No stable test runs it with more than one rank; wrong offsets show only with three or more ranks of unequal sizes.",
 [MI,U],[("aggregate",MI),("fix_mesh",U)],["migration.aggregate"])
prop("C14","Sizing functions equal the documented combination of the velocity model",
 "Without gradation, CFL or padding, the mesh size at every grid node equals the smaller of velocity/(wavelength count x frequency) and the gradient-based size (grad/(0.1+s), s the local velocity variance over the stencil divided by its maximum and shifted to a minimum of 0), clipped to the minimum and maximum edge lengths, with velocities converted from the stated units and non-positive (water) velocities replaced by the given water speed wherever they occur. Between nodes the size is the multilinear interpolant, corners of the box map to corners of the grid, and the caller's velocity array is not modified.",
 ["inputs","configurations"],"all 2D and 3D velocity models (including constant ones and ones with water cells anywhere), units, bounds, wavelength, frequency, gradient and stencil settings",
 "Tests use one or two SEG-Y files and pin summary ranges, so units, isolated water cells, constant velocity or array reuse are never exercised.",
 [SZ],[("get_sizing_function_from_segy",SZ),("_wavelength_sizing/_gradient_sizing",SZ),("_build_sizing_function",SZ)],["SizeFunction.eval at grid nodes"])
prop("C15","The CFL option guarantees the requested time step",
 "When a time step, Courant limit and polynomial order are given and no gradation is applied, at every grid node velocity x time step / mesh size is at most the Courant limit divided by the polynomial order. Nodes that already satisfied the limit keep their size, violating nodes get exactly the smallest size that satisfies it, and disabling any of the three settings leaves the size unchanged.",
 ["inputs","configurations"],"all velocity models, size bounds, time steps, Courant limits and polynomial orders in 2D and 3D",
 "No stable test passes a time step, so the CFL bound is never evaluated.",
 [SZ],[("_enforce_courant_sizing",SZ)],["SizeFunction.eval at grid nodes"])
prop("C16","Gradation limits the growth of mesh sizes and changes nothing else",
 "With gradation g, mesh sizes at grid neighbours differ by at most g times the grid spacing between them (the axis's extent divided by its number of grid points) along every axis (also when spacings differ per axis), up to the solver tolerance. The limited field never exceeds the original, is the largest such field (equal to the minimum over all nodes of original value plus g times grid path length), keeps the global minimum and every already admissible value, and limiting it again changes nothing.",
 ["inputs"],"all 2D and 3D size fields, grid shapes (including thin and anisotropic grids) and gradation rates",
 "No stable test compares neighbouring values of the limited field; axis-dependent spacing and long-range propagation need generated fields.",
 [SZ,HJ],[("_enforce_gradation_sizing",SZ),("c_limgrad",HJ)],["SizeFunction.eval, _FastHJ.limgrad"])
prop("C17","Domain padding extends every side except the top and leaves the interior intact",
 "A padded sizing function's box is the original one extended by the pad width on the bottom and all lateral sides but not at the top, mesh sizes inside the original box change only by the one-cell regridding displacement, and outside it they follow the chosen style: equal to the nearest edge value, ramping monotonically from the edge value to the maximum, or constant at the maximum. Padded sizes never leave the range of the unpadded ones, and unknown styles or negative widths are rejected.",
 ["inputs","configurations"],"all 2D and 3D models, pad widths, styles",
 "Tests check only mesh volumes for a single pad width per style.",
 [SZ],[("_build_domain_pad, _pad_it",SZ)],["SizeFunction.bbox, SizeFunction.eval"])
prop("C18","Velocity model files are read and written faithfully",
 "Reading a binary velocity model written with any axis order (naming the file axes that z, x and y run along), byte order, sample type and storage order returns every sample at its (z,x,y) position with the depth axis flipped, and reading a SEG-Y file returns trace j's samples as column j likewise. Writing a model to HDF5 stores the values read (to single precision) with matching shape attribute, including padding when requested, the same file on one process or several; missing dimensions or unknown byte orders are rejected.",
 ["inputs","configurations"],"all grid shapes, axis permutations, byte orders, sample types, storage orders and values",
 "Stable tests read fixed SEG-Y files; binary models in tests need data that is not in the repository.",
 [SZ],[("_read_bin, _read_segy, write_velocity_model",SZ)],["read_velocity_model, write_velocity_model"])
prop("C19","Incremental triangulation stays Delaunay and consistent under any history",
 "After any sequence of insertions, moves and removals (including duplicates, cospherical and collinear points), the triangulation's vertex list is exactly the current point set, its cells index into that list, satisfy the empty-circumball property, have positive orientation and cover the convex hull, and its counts agree with the lists. The one-shot triangulations agree with it.",
 ["histories","inputs"],"all operation sequences on the 2D and 3D triangulation objects and all point sets",
 "Tests only ever insert once or move inside sliver removal; index bookkeeping after mixed histories is not observable there.",
 [D2,D3,DE],[("insert/move/remove/get_finite_vertices/get_finite_cells/get_edges",D2),("same in 3D",D3),("delaunay2/delaunay3",DE)],["DelaunayTriangulation(3), _delaunay2/3"])
prop("C20","Mesh clean-up canonicalises without changing the geometry",
 "Cleaning up a mesh merges vertices that coincide within tolerance (are equal after rounding to the tolerance times the mesh's extent) and nothing else, removes repeated cells and cells that this merging collapsed, optionally drops unused vertices, and orients every cell positively, so that the set of (uncollapsed) cells as point sets is unchanged. Applying it again changes nothing but order, the result does not depend on how vertices or cells were numbered, and, when unused vertices are kept, the returned index map relates old and new vertices.",
 ["inputs"],"all 2D and 3D meshes with duplicated, unused, signed-zero and near-coincident vertices, repeated and inverted cells",
 "Tests call it on meshes that need no clean-up.",
 [U],[("fix_mesh, unique_rows, unique_row_view, simp_vol",U)],["geometry.fix_mesh, geometry.unique_rows"])
prop("C21","Boundary and adjacency queries agree with the mesh's definition",
 "For every 2D or 3D mesh, the reported boundary edges, facets and vertices are exactly those belonging to a single cell, boundary cells are exactly the cells touching a boundary vertex, unique edges are exactly the distinct vertex pairs, and the vertex-to-cell map lists for every vertex (used or not) exactly the cells containing it. The ordered boundary of a 2D mesh is a permutation of its boundary edges in which consecutive edges of a loop share a vertex, for boundaries of one or several loops; it counts as manifold exactly if every boundary vertex lies on two boundary edges.",
 ["inputs"],"all 2D and 3D meshes, including holes, several components, and unused vertices",
 "The tests check a two-triangle or single-domain mesh only.",
 [U,FG],[("get_boundary_*, get_winded_boundary_edges, vertex_to_entities",U),("unique_edges",FG)],["geometry topology functions"])
prop("C22","Cell metrics equal their geometric definitions",
 "For every simplex the signed volume, 2D quality, radius-to-edge ratio, dihedral angles, determinants, circumballs, and the gradients of volume and of the squared circumradius (with respect to one vertex) equal their textbook definitions to rounding, for any number of cells, and are invariant (or equivariant) under translation, rotation, scaling and vertex permutation. Dihedral angles are finite and within [0, pi] even for flat tetrahedra, and the compiled box distances equal the plain ones.",
 ["inputs"],"all simplices from well shaped to nearly flat, any number of them",
 "Tests check two or three hand-made cells.",
 [U,FG,DE],[("simp_vol, simp_qual, calc_re_ratios",U),("calc_dihedral_angles, calc_volume_grad, calc_circumsphere_grad, determinants",FG),("circumballs2/3",DE)],["geometry metric functions"])
prop("C23","Laplacian smoothing keeps topology, boundary and fixed points, and converges",
 "Smoothing a 2D mesh leaves the connectivity unchanged and every boundary vertex and given fixed point where it was. The one-shot variant places every interior vertex at the average of its neighbours up to its solver tolerance (well below a hundredth of the mesh extent), and each variant keeps every vertex within the range of the boundary coordinates and commutes with translation and scaling.",
 ["inputs"],"all valid 2D meshes",
 "Tests only compare a final minimum quality on one domain.",
 [U],[("laplacian2, laplacian2_fixed_point",U)],["geometry.laplacian2, geometry.laplacian2_fixed_point"])
prop("C24","Overlap detection, linting and boundary clean-up remove exactly the bad cells",
 "Overlap detection reports exactly the pairs of cells sharing a vertex where the first cell's centroid lies inside the second, so a valid mesh yields none; point-in-triangle and point-in-tetrahedron answers agree with barycentric coordinates. Linting removes the worse cell of each reported pair and poor boundary cells only, leaving valid meshes of good quality unchanged up to numbering; boundary clean-up deletes exactly the boundary cells below the quality threshold.",
 ["inputs"],"all 2D and 3D meshes with injected overlapping or poor cells",
 "Tests lint meshes without defects or compare one pair.",
 [U],[("do_any_overlap, vertex_in_entity2/3",U),("linter, delete_boundary_entities",U)],["geometry.do_any_overlap, linter, delete_boundary_entities, vertex_in_entity3"])
prop("C25","Unsupported options and arguments are rejected, never ignored or endless",
 "Unknown option names, verbosity levels, non-positive iteration counts or edge lengths, malformed boxes, unsupported domains or sizings, and non-physical sizing parameters raise an error from mesh generation, sliver removal and the sizing function before any meshing is done. Every supported option combination terminates and returns vertices and cells after exactly the requested number of iterations (a count that is not whole is rounded up).",
 ["inputs","configurations"],"all option dictionaries (valid, misspelled, out of range)",
 "Tests pass valid options only.",
 [MG,SZ],[("_parse_kwargs, _select_verbosity, _check_bbox, range checks",MG),("key checks",SZ)],["generate_mesh, sliver_removal, get_sizing_function_from_segy"])
prop("C26","Native kernels never read or write outside their buffers",
 "For every valid mesh, point set, partition or field, of any size down to empty where allowed, the compiled kernels complete without out-of-bounds access, uninitialised results or crash, and their results do not depend on the memory layout (C or Fortran order, strides, integer width, list or array) of the arguments.",
 ["inputs"],"all sizes, layouts and dtypes of valid arguments to the compiled kernels; export sets up to all vertices",
 "An overrun of a few bytes is silent in an ordinary run; tests pass contiguous arrays of one dtype.",
 [FG,CU,DE,D2,D3,HJ],[("numpy/C++ buffer copies",FG),("pointsToMigrate buffer",CU),("circumballs buffers",DE)],["kernels built with container bounds checks / sanitizers"])
prop("C27","Pictures of shapes and sizing functions show what they claim to show",
 "Showing a shape draws, of the asked number of random samples in its bounding box (widened by 0.01), exactly those within 0.01 of its zero level set, coloured by signed distance, for every primitive and combined shape. Plotting a 2D sizing function shows, at every plotted place of its whole box, the size it has there. Either is saved to the given file name, else shown. On several ranks the first draws and the others return quietly; 3D or other arguments raise a ValueError.",
 ["inputs","configurations"],"all shapes, sample numbers, sizing functions, strides and rank counts",
 "Tests only call the plotting functions (switched off by default) and look at nothing; a wrong picture hides a wrong geometry.",
 ["SeismicMesh/geometry/signed_distance_functions.py","SeismicMesh/sizing/mesh_size_function.py"],[("_show, _generate_samples, show","SeismicMesh/geometry/signed_distance_functions.py"),("plot_sizing_function","SeismicMesh/sizing/mesh_size_function.py")],["the figure when it is shown or saved, and the file"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
