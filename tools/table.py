T = "TLA+ specification model checked with TLC; "
SH = "python/qugar/dolfinx/_shim/__init__.py"
SC = "python/qugar/dolfinx/_shim/qugar_basix_shim.cpp"
D = "python/qugar/dolfinx/"
M = "python/qugar/mesh/"

P("C01", "The shim library is published atomically",
  "Whoever is handed the compiled tabulation library by the build-and-cache entry point finds a complete library file, whatever processes and threads race on the same cache directory and wherever any of them, or a compiler they started, fails or is killed. Once the library has been handed to anybody, the file at that place stays complete.",
  ["schedules", "crash_points", "histories"],
  "every interleaving of calls by several processes and threads sharing a cache directory, source edits, compiler failures (with and without partial output), kills of a process with or without the compiler it started",
  "The one parallel test races eight processes once, on an empty cache, with no kill, failure or source edit.",
  [SH], [("lock-free freshness look, file lock, build, publication", SH)],
  [("library file", "absent / partial / complete, and the source version it was built from", SH)],
  ["return of ensure_built", "content of the library file"],
  technique=T + "recordings of the real builder under TLC-generated scripts (controlled compiler, kills, edits) accepted by a TLA+ acceptor",
  note="exhaustive for the abstract protocol (2 processes x 2 threads); the real code is driven through sampled scripts; trusts POSIX rename/flock and the stand-in compiler")

P("C02", "The shim cache is never stale, builds once, and recovers",
  "A call never returns a library older than the sources (shim or builder) were when the call began, at most one build runs at a time, and each source version is built once unless a build failed or was killed. A failed build raises in its caller, leaves a previous library as it was and lets the next caller build; every call ends.",
  ["schedules", "crash_points", "histories"],
  "the same histories as C01",
  "The test only counts that eight racing processes all succeed; edits during a build, failed builds, dead lock holders and orphaned compilers never occur in it.",
  [SH], [("time-stamp comparison with shim source and builder", SH), ("thread lock and file lock with second look", SH)],
  [("time stamp of the library", "which source version it vouches for", SH)],
  ["return or exception of ensure_built", "starts and ends of compiler processes"],
  technique=T + "trace validation of recordings of the real builder against the same specification",
  note="exhaustive for the abstract protocol (safety; liveness in thorough); real code through sampled scripts; a call still unfinished after 20 s of no possible progress counts as hanging")

P("C03", "Element registry: one element per parameter set, stable handles",
  "Registering an element with a given real type, family, cell, degree, variants and continuity answers the same non-negative handle every time and different ones for different parameters, handles are dense, independent per real type and denote that very element until a reset empties both registries. Invalid parameters answer a negative code and leave the registry unchanged, so a later valid registration behaves as if they had never been given.",
  ["histories", "inputs"],
  "every sequence of registrations (valid and invalid), tabulations, size queries and resets over both real types",
  "Tests register a handful of elements once each; aliasing of handles needs particular pairs of parameter sets and orders.",
  [SC], [("registration with lookup by parameter tuple", SC), ("reset", SC)],
  [("registry per real type", "elements in order of creation", SC), ("index", "parameter tuple to handle", SC)],
  ["return codes and tabulated values of the extern C functions"],
  technique=T + "replay of TLC-generated operation sequences on the compiled shim, answers validated against the specification",
  note="exhaustive for the abstract registry up to 7 operations; the shim through sampled walks and all ordered pairs of 14 parameter sets; single-threaded use")

P("C04", "Tabulation through the C interface is faithful and contained",
  "For a valid handle and a large enough buffer, tabulation writes exactly what basix tabulates for that element at those points, in the announced shape and nothing beyond it; for an invalid handle, a too small buffer or points of the wrong dimension it answers a negative code, without writing to the buffer in the first two cases, and no exception or crash ever crosses the interface. Scratch memory is at least as large as requested, never shared by two threads or the two real types, and an unsatisfiable request yields a null pointer.",
  ["inputs", "histories", "schedules"],
  "every supported element, derivative order, number of points, buffer size, handle and real type; every sequence of scratch requests from several threads",
  "Tests compare a few elements at a few points with generous buffers from one thread.",
  [SC], [("shape and tabulation entry points with capacity guard", SC), ("thread-local scratch vectors", SC)],
  (), ["return codes, output buffer with guard words, scratch addresses"],
  technique=T + "TLC-enumerated call space replayed on the compiled shim and judged by TLC",
  note="call space enumerated for 26 elements, orders 0-3, 1-4 points, 4 capacities, 4 handle kinds; numerical agreement up to rounding; reference is basix's Python interface")

JD = T + "TLC-specified answers compared with those of the real code, record by record"
ST = "the FEniCSx packages are not installed: DOLFINx meshes are replaced by a faithful stand-in with harness-chosen renumbering and distribution"

P("C10", "Entity and node numberings convert correctly between conventions",
  "The maps between lexicographical, DOLFINx and VTK numbering of nodes (any dimension and degree), faces and edges send every entity to the geometrically same one (a face or edge to the one with the same vertices, a node to the one at the same place), and each pair of opposite maps is mutually inverse. The lexicographical face id 2*d+s denotes the side s of direction d; the VTK face maps of hexahedra are only promised to be mutually inverse.",
  ["inputs"], "dimensions 1-3, every degree >= 1, every entity",
  "No test covers these tables without FEniCSx, and an error moves only some entities of some degrees.",
  [M + "utils.py"], [("node orderings built entity by entity", M + "utils.py"), ("face and edge permutation tables", M + "utils.py")],
  (), ["returned permutation arrays"], technique=JD,
  note="degrees up to 12/7/4 (1D/2D/3D; thorough 20/12/6); the specified DOLFINx order is checked against basix's own points")

P("C11", "Tensor-product index sets are the geometric ones",
  "For every shape of a tensor-product index space, flat and tensor indices are mutually inverse with direction 0 fastest, and the corner, face, edge, boundary and internal index sets are exactly the indices lying on that entity, sorted and without repetition (the sets of all corners, faces or internal indices assume at least two indices per direction). Faces and edges may be named in lexicographical or DOLFINx numbering.",
  ["inputs"], "every shape in 1D, 2D and 3D, also with more indices than 32 bits hold, every local entity id in both numberings",
  "No test covers the class without FEniCSx; mistakes show only for lopsided shapes or particular entities.",
  [M + "tp_index.py"], [("index arithmetic per entity", M + "tp_index.py")],
  (), ["returned index arrays"], technique=JD,
  note="all shapes up to 9 / 6x6 / 4x4x4 (thorough 30/11/6) plus random lopsided and huge ones; all edges at once in 3D are documented as not implemented")

P("C12", "Facet sets behave as sets and keep naming the same facets",
  "Facet sets combine as sets of (cell, local facet) pairs: union by concatenation, intersection, difference, removal of repetitions and look-up answer what set algebra says and never change their operands. The facets taken from a mesh (all, exterior, interior, or given ids) are exactly the local sides of the facets of the process, one per interior facet if so requested; converting between DOLFINx and original numbering keeps naming the same side of the same cell.",
  ["inputs", "histories"], "every sequence of operations on facet sets of both index types; every mesh shape, renumbering, distribution over processes and ghost layer",
  "No test covers this without FEniCSx, and serial tests cannot show errors of distributed meshes.",
  [M + "mesh_facets.py"], [("structured-array set operations", M + "mesh_facets.py"), ("extraction from mesh connectivity", M + "mesh_facets.py"), ("numbering conversion", M + "mesh_facets.py")],
  [("facet set", "sequence of (cell, local facet)", M + "mesh_facets.py")], ["contents of the facet sets after every operation"],
  technique=T + "TLC-generated operation sequences replayed on the real objects, recordings accepted by a TLA+ acceptor; mesh facets judged by TLC",
  note="algebra exhaustive for tiny sets, sampled walks up to 30 operations on the code; " + ST)

P("C13", "Cell and node ids survive renumbering, partition and merging",
  "Original, local and global ids of cells and nodes convert into each other consistently on every process: a round trip gives back the same entity, an entity that is inactive or not on the process is reported as -1, every active cell is owned by exactly one process, and merging nodes identifies exactly the coincident ones with dense new ids known to every process.",
  ["inputs", "schedules"], "every mesh size and degree, choice and order of active cells, renumbering, distribution, ghost layer, and pattern of coincident nodes",
  "No test runs these maps here, and serial or identity-numbered meshes hide most mistakes.",
  [M + "mesh.py"], [("search of ids in the stored maps", M + "mesh.py"), ("merging of coincident nodes", M + "mesh.py")],
  [("original cell index of DOLFINx", "row of the connectivity per local cell"), ("merged nodes map", "old to new node ids", M + "mesh.py"), ("active cells", "ids of the rows of the connectivity", M + "mesh.py")],
  ["arrays returned by the id getters"], technique=T + "exhaustive model of activation, merging and distribution; answers of the real class judged by TLC",
  note="model exhaustive for 4 cells, 4 nodes, 2 processes; real class on sampled meshes; coincident nodes are clusters far apart; " + ST)

P("C14", "Tensor-product meshes are built and tagged as documented",
  "A tensor-product mesh hands DOLFINx exactly the active cells, each with the nodes of its lattice cell in DOLFINx order and every node at its lattice position (equispaced inside cells), from process 0 only and with the requested ghost mode and type. Cell tensor indices, bounding boxes, the cells and facets of each boundary face and the boundary tags (umin 0, umax 1, ...) refer to that lattice, whatever the renumbering, distribution or set of active cells.",
  ["inputs", "schedules"], "every dimension, degree, number of cells, breaks, bounding box, floating type, set of active cells, renumbering, distribution and ghost layer",
  "No test builds these meshes here; wrong columns or neighbours show only for some degrees, shapes and faces.",
  [M + "tp_mesh.py", M + "mesh.py"], [("connectivity and node coordinates by broadcasting", M + "tp_mesh.py"), ("boundary cells, facets and tags", M + "tp_mesh.py")],
  [("cell breaks", "coordinates of the cell limits per direction", M + "tp_mesh.py")], ["arrays handed to dolfinx's create_mesh; public getters; facet tags"],
  technique=T + "lattice laws model checked; the data handed to DOLFINx and the getters' answers judged by TLC",
  note="laws exhaustive for shapes up to 3x3 / 2x2x2 and degree 3; code on sampled meshes up to 5x5 / 3x3x3 cells; " + ST)

P("C15", "Cells of an unfitted mesh are split as the geometry says",
  "On every process, the cut, full and empty cells of an unfitted mesh are exactly the owned cells whose cell of the background grid has that status, sorted, whatever the renumbering, distribution and excluded cells. A mesh that excludes empty cells holds exactly the full and cut ones, and a cell tag is put on exactly the cells of the asked kinds. Meshes built from an implicit function use the asked bounding box, number of cells, degree and type.",
  ["inputs", "schedules"], "every mesh size, status of its cells, renumbering, distribution, ghost layer, choice to exclude empty cells, set of tags and order of queries",
  "No test builds an unfitted mesh here; mistakes in translating ids show only on renumbered, distributed or partially active meshes.",
  [M + "unfitted_domain.py", M + "unfitted_domain_abc.py", M + "unfitted_cart_mesh.py"],
  [("cells of the C++ domain translated to DOLFINx", M + "unfitted_domain.py"), ("active cells", M + "unfitted_cart_mesh.py"), ("cell tags", M + "unfitted_domain_abc.py")],
  [("cached cell lists", "computed at the first query", M + "unfitted_domain.py")], ["get_{cut,full,empty}_cells, create_cell_meshtags, original ids of the mesh"],
  technique=JD, note="sampled meshes up to 5x5 / 3x3x3 cells; the C++ domain is replaced by a stand-in with drawn statuses; " + ST)

P("C16", "Facets for exterior and interior integrals are selected correctly",
  "For interior integrals, every interior facet of the process (both its sides) is in exactly one of the cut, full and empty lists, according to how much of it lies inside the domain. For exterior integrals, every facet of the mesh boundary and every side holding unfitted boundary is in exactly one of them: full when it is wholly boundary, cut when partly, empty otherwise; the two kinds of all-facets lists are complementary, and facet tags list exactly the asked kinds. No query changes what a later one answers.",
  ["inputs", "histories"], "every assignment of facet statuses, mesh, renumbering, distribution, excluded cells, and order of queries",
  "No test runs these queries here; facets with partial unfitted boundary and repeated queries are rare in real geometries.",
  [M + "unfitted_domain.py", M + "unfitted_domain_abc.py"], [("selection of facets per kind of integral, with caches", M + "unfitted_domain.py"), ("facet tags and all facets", M + "unfitted_domain_abc.py")],
  [("cached facet lists", "computed at the first query", M + "unfitted_domain.py")], ["get_{cut,full,empty,all}_facets, create_facet_tags"],
  technique=T + "laws of the selections model checked over all statuses; answers of the real class judged by TLC",
  note="laws exhaustive; class on sampled meshes up to 5x5 / 3x3x3 cells with drawn statuses; the C++ domain is a stand-in; " + ST)

P("C26", "Custom quadratures are computed for the entities asked for",
  "Asking an unfitted mesh for the quadratures of DOLFINx cells or facets computes them for the same entities of the background grid, in the same order, with enough Gauss points for the degree, by the generator meant for that kind of integral (the unfitted boundary one leaves out parts lying on facets), and hands over exactly the computed points, weights and normals together with the asked entities.",
  ["inputs", "schedules"], "every degree, list of cells or facets in any order, mesh, renumbering, distribution and excluded cells",
  "No test reaches these calls here; a wrong translation gives plausible quadratures of another cell.",
  [M + "unfitted_domain.py", "python/qugar/quad/custom_quad.py"], [("translation of entities and degree, choice of generator", M + "unfitted_domain.py")],
  (), ["arguments of the generators of qugar.cpp", "returned quadrature objects"],
  technique=JD, note="sampled meshes and queries; the C++ generators are stand-ins that record their arguments; " + ST)

P("C25", "The FEniCSx interface is offered exactly for supported versions",
  "Versions are compared lexicographically by major, minor and micro number, suffixes of post-releases not counting; the FEniCSx parts of the package are offered exactly when DOLFINx, Basix, FFCx and UFL are all installed within their supported ranges, and the solvers also need PETSc; without them the remaining parts still import. With DOLFINx 0.10, assembling a scalar uses the coefficients and constants it is given.",
  ["inputs"], "every combination of installed, absent and differently versioned packages",
  "A test run sees only the versions installed.",
  ["python/qugar/utils.py", "python/qugar/__init__.py", "python/qugar/dolfinx/_dolfinx_patches.py", "python/qugar/dolfinx/__init__.py"],
  [("comparison of versions", "python/qugar/utils.py"), ("conditional imports", "python/qugar/__init__.py"), ("patch of assemble_scalar", "python/qugar/dolfinx/_dolfinx_patches.py")],
  (), ["check_version_in_range, has_FEniCSx, contents of the package, assemble_scalar"],
  technique=JD, note="order laws exhaustive for small numbers; sampled worlds; the packages are stand-ins; pre-releases are not considered")

CC = D + "custom_coefficients.py"
KW = "sampled forms and entities over skeletons enumerated by TLC; FFCx, UFL and DOLFINx are replaced by stand-ins and the unfitted domain answers with quadratures of small integers"

P("C05", "Packed coefficients follow the documented layout",
  "For every integral of a form, the packed coefficients keep the standard coefficients of each entity where DOLFINx puts them (both sides of interior facets included) and add one offset per entity: negative for full entities, zero for empty ones, and for cut ones the start of their custom data, which lie inside the array, do not overlap those of other entities, and hold for each quadrature of the integral the number of points, the points in the cell (of both sides on interior facets), the facet points in mixed dimensions, the weights, and the normals on unfitted boundaries, as given by the domain. The domain is asked for exactly the cut entities of each integral, with the highest degree requested for that rule in the form.",
  ["inputs"], "every mix of cell, exterior, interior, mixed-dimensional and unfitted-boundary integrals, statuses of their entities, numbers of points per entity, scalar types and subdomain ids",
  "The Python tests need FEniCSx and are not run here; they only compare integrals over a few geometries, where misplaced data of rarely cut entities average out.",
  [CC, D + "integral_data.py"], [("offsets and row layout", CC), ("copy of quadrature data behind the rows", CC), ("copy of the standard coefficients", CC)],
  [("packed array", "rows of standard values and offset, then custom data", CC)], ["arrays returned by pack_coefficients", "quadratures requested of the unfitted domain"],
  technique=T + "layout laws model checked; arrays of the real packer judged by TLC against the layout specification", note=KW)

P("C06", "Each entity is integrated by the rule its kind calls for",
  "The kernels generated for an integral add to the element tensor the standard integral on full entities, the custom one on cut entities and nothing on empty ones, whatever the tensor held before, for all integrands, coefficients, constants, numbers of rules and kinds of integral of the form; integrands over the unfitted boundary contribute on cut entities only, using the custom normals. They never write outside the tensor nor read data of another entity.",
  ["inputs"], "every form (real or complex, single or double precision, several rules and integrands, mixed dimensions) and entity of any status",
  "The Python tests need FEniCSx and are not run here; each of them exercises one form over one geometry.",
  [D + "_kernel_body.py", D + "codegeneration.py", D + "parsing_utils.py"],
  [("wrapper choosing standard or custom kernel by offset", D + "codegeneration.py"), ("rewriting of the loops of the standard kernel", D + "_kernel_body.py")],
  (), ["element tensors computed by the compiled kernels"],
  technique=T + "the meaning of the forms is a TLA+ specification; tensors of the compiled generated kernels judged by TLC", note=KW)

P("C07", "Custom kernels evaluate the form at the entity's own points",
  "On cut entities, the generated kernels evaluate basis functions, their derivatives and components, coordinates, coefficients and constants at the points stored for that entity, for every supported element (blocked, symmetric, mixed, vector-valued, all variants, discontinuous), for both sides of interior facets and facet functions of mixed-dimensional forms, and with any number of points, zero included. Tables that are constant or shared for the static rule of the form are never assumed to be so at the custom points. Elements that cannot be created again from their parameters are refused when the code is generated. So are integrals over other entities than cells and facets, and sum-factorized ones.",
  ["inputs"], "every element, derivative, component, table sharing pattern, quadrature rule (single-point ones included) and number of custom points",
  "The Python tests need FEniCSx and are not run here; a mixed-up table shows only for particular combinations of elements and rules.",
  [D + "fe_table.py", D + "codegeneration.py", D + "_kernel_body.py", D + "quadrature_data.py", D + "compiler.py"],
  [("tables evaluated on the fly through the shim", D + "fe_table.py"), ("element identification", D + "fe_table.py")],
  (), ["element tensors computed by the compiled kernels", "exceptions of the code generator"],
  technique=T + "the meaning of the forms is a TLA+ specification; tensors of the compiled kernels judged by TLC, exactly for integer-valued elements and up to rounding for the others",
  note=KW + "; tables that by coincidence are zero or one at a static rule of few points are dropped by FFCx itself and left out")

P("C08", "Assemblies always use the current coefficients",
  "Whatever the order of changes of the coefficient functions, packings, updates and solves, every assembly done by the linear and nonlinear problems, boundary lifting included, uses coefficients with the standard values at that moment and the custom data of a fresh packing; updating brings the given arrays to the current values for every integral of a form or of all the forms of a list (empty forms included), and arrays packed earlier by the user do not change until they are updated. Matrices and vectors are emptied before they are filled and boundary values are set after the contributions of other processes are in.",
  ["histories"], "every sequence of changes, packings, updates, linear solves, residuals and Jacobians over forms or lists of forms",
  "The Python tests need FEniCSx and are not run here; they update once and never interleave residuals, Jacobians and changes.",
  [D + "petsc.py", CC], [("pack the first time, update afterwards", D + "petsc.py"), ("update in place of the standard values", CC)],
  [("packed arrays kept by the nonlinear problem", "of the residual and of the Jacobian", D + "petsc.py")], ["arrays handed to the assemblers of dolfinx.fem.petsc and returned by pack/update"],
  technique=T + "TLC-generated histories replayed on the real classes, recordings accepted by a TLA+ acceptor",
  note="model exhaustive for 5 operations (6 in thorough); sampled walks of up to 16 operations on the code; PETSc and the assemblers are stand-ins that log; " + KW)

P("C09", "Both sides of a facet see the same physical points",
  "The points packed for a facet lie on that facet of the cell and, on interior facets, those of the two sides are one and the same place of the mesh as the point of the rule seen from the first cell, for every pair of local facets of the two cells and every way they number the facet's vertices; in mixed dimensions the points given in the facet's own frame are also at that place.",
  ["inputs"], "every cell type, pair of local facets, global numbering and relative orientation of the shared facet, and points",
  "The Python tests need FEniCSx and are not run here; structured meshes show only a few of the orientations.",
  [D + "custom_quad_utils.py", CC], [("facet permutation operators", D + "custom_quad_utils.py"), ("map of facet points to the cells", D + "custom_quad_utils.py"), ("frames of the packed points", CC)],
  (), ["points in the packed arrays"],
  technique=T + "frame laws model checked; all facet pairs and numberings enumerated by TLC, packed points judged by the place they denote",
  note="enumeration complete for triangles, quadrilaterals and tetrahedra, half of the hexahedral pairs in quick; permutation numbers follow FFCx's convention; " + KW)

UM = "; UFL, FFCx and DOLFINx are replaced by stand-ins following their published behaviour"
P("C17", "Compiled custom forms integrate each integrand over the domain it names",
  "Every integral of a form reaches the compiler with its type, integrand and metadata, and DOLFINx, looking its subdomain id up, computes it over the entities marked with that id (by mesh tags or lists, with Python or NumPy integers); exterior-facet integrals over everywhere are computed over all the facets the unfitted domain gives for exterior integrals, whatever other ids the form or the subdomain data use. The form given is left as it was and may be compiled again, function spaces, coefficients, constants, entity maps, mesh and options reach the compiled form in the right order, empty forms become None, and nested lists a flat list in order.",
  ["inputs"], "every combination of integrals, subdomain ids, subdomain data, numbers of arguments and coefficients, lists of forms",
  "The Python tests need FEniCSx and are not run here; they never combine everywhere integrals with lists of subdomains.",
  [D + "forms.py"], [("ids for exterior-facet integrals over everywhere", D + "forms.py"), ("subdomain ids and domains handed to DOLFINx", D + "forms.py"), ("flattening of lists", D + "forms.py")],
  (), ["form handed to the compiler", "arguments of the C++ form", "value of form_custom"],
  technique=T + "TLC-enumerated forms compiled by the real code, what it hands to the compiler and to DOLFINx judged by TLC",
  note="up to 3 exterior, 2 cell and 2 interior integrals over 4 ids, three kinds of marks; sampled arguments, coefficients and options" + UM)

P("C18", "Measures over unfitted boundaries keep the surface element and their settings",
  "An integrand times a measure over the unfitted boundary gives one cell integral per subdomain id, each with the surface factor of Nanson's formula exactly once, for the mesh of the measure, and with the settings (id, requested degree, metadata, subdomain data, mesh) that the sequence of calls and reconstructions leads to; metadata given by the caller are not modified and earlier measures keep their own. These integrals always carry the custom rule and flag by which the code generator knows them. The mapped normal is the reference normal under the inverse transposed Jacobian, or lies in the plane of the cell for meshes in a space of higher dimension, with unit length when asked. Measures compare equal only with the same settings.",
  ["inputs", "histories"], "every Jacobian and normal, every sequence of calls, sums and reconstructions of measures",
  "The Python tests need FEniCSx and are not run here; they integrate over a few geometries with one way of building the measure.",
  [D + "boundary.py"], [("measure rebuilt on every call", D + "boundary.py"), ("factor put into the integrand", D + "boundary.py"), ("normals in space", D + "boundary.py")],
  (), ["integrals of integrand * measure", "value of mapped_normal", "equality and hash of measures"],
  technique=T + "laws of the surface element model checked; TLC-enumerated operation sequences replayed on the real measure, judged by TLC with exact integer geometry",
  note="all sequences of 2 operations (3 in thorough, sampled), sampled integer Jacobians; expressions are evaluated by a stand-in of UFL" + UM)

P("C19", "Kernels compiled just in time are complete, compiled once and never stale",
  "Processes sharing a cache folder compile each form once: a call that finds somebody else at work waits, and returns the complete kernels or a time-out error, never half-written ones. A failure of any step (shim, code generation, compiler) is raised to its caller and lets the next call compile; every call ends. A call that returns gives the kernels of its form and the data of the integrals, whether they were compiled or found, with the shim they are linked to in place. The process is left as it was (standard output, handlers of the root logger, LDSHARED, the options given), and kernels are linked with the configured command, less repeated search paths. Kernels have the same name exactly if form, options, compiler arguments, place of the shim and version of QUGaR agree, and never the name of FFCx's own.",
  ["schedules", "crash_points", "histories", "inputs"], "every interleaving of calls of several processes for several forms, with failures and kills at any step; every combination of options and linker commands",
  "No test exercises the cache: it needs FFCx and CFFI, several processes, and failures at given points.",
  [D + "jit.py"], [("claim, build, publication and loading of kernels", D + "jit.py"), ("link command with fewer flags", D + "jit.py"), ("signature of the kernels", D + "jit.py")],
  [("cache folder", "per signature: claim, library (absent / partial / complete), ready mark")], ["return or exception of ffcx_jit", "files of the cache folder", "environment and loggers afterwards"],
  technique=T + "recordings of real processes under TLC-generated schedules (stopped at every step, failed and killed) accepted by a TLA+ acceptor; names and link commands judged by TLC",
  note="exhaustive for the abstract protocol (3 processes, 2 signatures, 2 failures, 1 kill; liveness too); the real jit module is driven with stand-ins of FFCx's module cache, CFFI and DOLFINx's decorator")

CX = "cpp/qugar/"
HX = "cpp/include/qugar/"
AL = "; Algoim is replaced by a stand-in (/verif/standin), the C++ sources are compiled with AddressSanitizer, UBSan and assertions on"
P("C20", "Tensor indices and ranges form an ordered index space",
  "Tensor indices and flat ids correspond one to one (first direction fastest) for index spaces of any size, indices are totally ordered in the order of their flat ids, and arithmetic is component-wise. A range visits exactly the indices between its bounds, once each and in that order (none if it is empty); its size, tests for membership and full extent agree with that, splitting a range gives two disjoint parts that together are the range, cut across its longest direction.",
  ["inputs"], "every index, size and range, in two and three dimensions",
  "The C++ sources are not compiled by the tests that run here; those upstream sample a few ranges.",
  [HX + "tensor_index_tp.hpp", CX + "tensor_index_tp.cpp"], [("order, arithmetic and conversion of indices", CX + "tensor_index_tp.cpp"), ("ranges, iterators and splits", CX + "tensor_index_tp.cpp")],
  (), ["values of the index and range classes"],
  technique=T + "laws of the index space model checked; TLC judges the answers of the compiled C++ classes",
  note="all ranges and sizes of a box exhaustively, sampled larger ones, ids of spaces of up to 10^18 elements" + AL)

P("C21", "Grids, boxes, points and tolerances answer as exact geometry does",
  "The cells of a Cartesian grid tile its domain; ids, tensor indices, cell domains, boundary facets, cells of a boundary side and subgrids agree with each other and with the breaks. A point in the grid belongs to a cell that contains it, the lowest one when it lies within the tolerance of several, and is reported at cell boundaries only when it lies within the tolerance of one. Subgrids split into two parts that cover them. Boxes extend, scale and map points to and from the unit box, and comparisons under a tolerance, relative ones too, form a trichotomy. Coincident points are merged into one of them, in order, and nothing else is.",
  ["inputs"], "every grid (with any number of cells), box, point, tolerance and list of points",
  "The C++ sources are not compiled by the tests that run here; points within the tolerance of several cells are never sampled.",
  [CX + "cart_grid_tp.cpp", CX + "bbox.cpp", CX + "tolerance.cpp", CX + "point.cpp"],
  [("cell of a point", CX + "cart_grid_tp.cpp"), ("subgrids", CX + "cart_grid_tp.cpp"), ("boxes", CX + "bbox.cpp"), ("coincident points", CX + "point.cpp")],
  (), ["values of the grid, box, tolerance and point functions"],
  technique=T + "laws of Cartesian grids model checked; TLC judges the answers of the compiled C++ classes on a dyadic lattice",
  note="sampled grids of up to 4 x 4 and 3 x 3 x 3 cells (and ids in grids of more than 2^31 cells) with points at and near breaks; coincidence judged where closeness is transitive" + AL)

P("C22", "Cells and facets of unfitted domains are classified as the geometry says",
  "For an unfitted domain in a Cartesian grid (the part of the grid where a function is negative, all cells or chosen ones), a cell is reported empty, full or cut exactly as the function says, and a facet as the half of it in the domain, on the unfitted boundary, or on the boundary of a neighbour: every facet is empty, full, cut, on the unfitted boundary, on an external boundary, or a union of those. Numbers and lists of cells and facets, predicates and statuses of single ones, and leaves of the space partition agree with each other; cells not asked for are not classified; boundary in a face shared by two cells belongs to the full one, once.",
  ["inputs"], "every grid, function and selection of cells in two and three dimensions",
  "The C++ sources are not compiled by the tests that run here; those upstream compare counts for a few shapes.",
  [CX + "impl_unfitted_domain.cpp", CX + "unfitted_domain.cpp", CX + "unfitted_domain_binary_part.cpp"],
  [("classification of cells and facets", CX + "impl_unfitted_domain.cpp"), ("queries", CX + "unfitted_domain.cpp"), ("space partition", CX + "unfitted_domain_binary_part.cpp")],
  (), ["statuses, predicates, lists and counts of the unfitted domain"],
  technique=T + "laws of the lattice geometry model checked; TLC judges every status and query of the compiled C++ classes on generated domains",
  note="sampled domains bounded by the lattice that halves the cells (general functions) and half-spaces and slabs (Bezier polynomials)" + AL)

P("C23", "Reparameterizations are meshes of the domain, its boundary and wires",
  "The reparameterization of an unfitted domain is a mesh of cells in the full and cut cells of the grid (those asked for) which together cover the part of these in the domain once, that of its boundary covers the boundary once with cells of codimension one, and the wires lie along the edges of cells in the domain and of the boundary. Cells are tensor grids of nodes, first direction fastest, positively oriented, with nodes that are equally spaced (or, from order 7, Chebyshev nodes stretched to the ends) and within the cell they come from. Meshes of boxes and Cartesian grids have exactly the nodes of their cells; merging, permuting, scaling and merging coincident points keep the cells and wires as sets of points, the latter leaving each point once; files written have these nodes in the order of VTK. The Lagrange polynomials used are those of the nodes used.",
  ["inputs"], "every domain, order, selection of cells and sequence of operations on meshes",
  "The C++ sources are not compiled by the tests that run here; those upstream compare areas for a few smooth shapes, and no test looks at connectivities, wires or files.",
  [CX + "reparam_mesh.cpp", CX + "impl_reparam_mesh.cpp", CX + "impl_reparam_general.cpp", CX + "impl_reparam.cpp", CX + "impl_reparam_bezier.cpp", CX + "lagrange_tp_utils.cpp", CX + "impl_utils.cpp"],
  [("meshes, merging of points, files", CX + "reparam_mesh.cpp"), ("levelset meshes", CX + "impl_reparam_mesh.cpp"), ("parametrization of cut cells", CX + "impl_reparam_general.cpp"), ("the same for Bezier polynomials", CX + "impl_reparam_bezier.cpp"), ("whole domains", CX + "impl_reparam.cpp")],
  (), ["nodes, connectivities, wires and files of reparameterizations"],
  technique=T + "laws of the mesh and half-space models checked; TLC judges meshes made by the compiled C++ code from generated operations and domains",
  note="half-spaces and slabs with planes at eighths, and ellipsoids, as general functions and as Bezier polynomials; curved boundaries are judged within percentages of the content that the unchanged code keeps with a margin, so coarsely" + AL)

P("C24", "Quadratures of unfitted domains cover the domain, its boundary and facets once",
  "The quadrature of a cut cell integrates over the part of the cell in the domain; that of a full cell is the plain rule, that of an empty one has no points. The quadratures of the unfitted boundary, over all cells, integrate over the whole boundary exactly once, with unit normals that point out of the domain (in the reference cell), pieces in faces of cells included if asked for. The quadratures of facets integrate over the part of the facet in the domain, with or without the pieces on the unfitted boundary as asked, and never those that belong to the neighbour. Points and weights are those of the reference cell or facet, in the order of the cells and facets asked for, and the counts add up.",
  ["inputs"], "every domain, list of cells and facets (repeated ones too), number of points and options",
  "The C++ sources are not compiled by the tests that run here; those upstream compare total volumes for a few smooth shapes, where no boundary lies in a face.",
  [CX + "impl_quadrature.cpp", CX + "cut_quadrature.cpp"],
  [("quadratures of cells, boundaries and facets", CX + "impl_quadrature.cpp"), ("dispatch and mapping to the reference", CX + "cut_quadrature.cpp")],
  (), ["points, weights, normals and counts of the quadratures"],
  technique=T + "laws of the lattice geometry model checked; TLC judges multilinear moments of the quadratures made by the compiled C++ code on generated domains",
  note="sampled domains bounded by the lattice that halves the cells; their pieces are told apart by multilinear moments. How exact Algoim is on curved boundaries is not judged" + AL)

P("C27", "Tabulated and tensor-product quadrature rules are the rules they are called",
  "The Gauss rule of n points (1 to 100) has n points in the open unit interval in increasing order, positive weights and is exact up to degree 2n - 1; the tanh-sinh rules are symmetric, sum to one and converge at their double-exponential rate. Rules in boxes of one to three dimensions, of any numbers of points per direction, are the tensor products of these mapped to the box: points in lexicographic order with the first direction fastest, weights the products scaled by the lengths, with the same result for each of the constructors, and scaling weights scales all of them.",
  ["inputs"], "every number of points, direction and box",
  "The tests that run here never compile the C++ sources; those upstream look at a few polynomials for small rules, and the 20200 tabulated numbers are not looked at one by one by anything.",
  [CX + "quadrature.cpp", CX + "quadrature_lib.cpp"],
  [("tables", CX + "quadrature_lib.cpp"), ("tensor products", CX + "quadrature.cpp")],
  (), ["points and weights of the rules"],
  technique=T + "fixed-point arithmetic specification (Legendre recurrence, tensor products); TLC judges every tabulated rule and generated products",
  note="all 200 tabulated rules exhaustively (numbers to 1e-9), sampled boxes" + AL)

P("C28", "Polynomials are evaluated, derived and combined exactly",
  "Polynomials in Bernstein and monomial bases, of one to three variables and components and any orders, evaluate to what their coefficients (first direction fastest) define, as do their gradients and Hessians, and their evaluation with intervals encloses all values and gradients in the box. Sums, differences, products, compositions, order elevation, negation, restriction to a facet, derivatives and conversion from monomials to Bernstein are the polynomials of that name, of the documented orders; so are transformations of the coefficients and of the domain. A definite sign is reported only when all values in the unit box have it, and always when all coefficients do.",
  ["inputs"], "every basis, dimension, order, set of coefficients, operand and point",
  "The C++ sources are not compiled by the tests that run here; those upstream have none for monomial gradients, facets, products or compositions.",
  [CX + "bezier_tp.cpp", CX + "monomials_tp.cpp", CX + "polynomial_tp.cpp", CX + "bezier_tp_utils.cpp", CX + "bezier_tp_utils_composition.cpp"],
  [("Bezier polynomials", CX + "bezier_tp.cpp"), ("monomials", CX + "monomials_tp.cpp"), ("coefficients", CX + "polynomial_tp.cpp"), ("basis functions, products", CX + "bezier_tp_utils.cpp"), ("composition", CX + "bezier_tp_utils_composition.cpp")],
  (), ["values, derivatives and coefficients of polynomials"],
  technique=T + "laws of the exact polynomial model checked (partition of unity, difference formulas, conversions, Leibniz rule); TLC judges values computed by the compiled C++ code on generated operations",
  note="integer coefficients and dyadic points, where results are exact; orders to 7 in one variable, total degrees to 6 or so in more" + AL)

P("C29", "Implicit functions, affine maps and reference systems match their definitions",
  "Every function of the library (disk and sphere, ellipse and ellipsoid, annulus, cylinder, torus, constant, line and plane, dim-linear, square, the six triply periodic surfaces in two and three dimensions, and negation, sum, difference and affine transformation of functions) takes the value that its parameters define, in the Bezier and the plain variants; its gradient and Hessian are the derivatives of that value, and its evaluation with intervals encloses value and gradient everywhere in the box. Affine transformations map points as they were built (origin, axes, scales, coefficients, products) and are undone by their inverse, and a transformed function is the function at the preimage. Reference systems are orthonormal, aligned with the axes asked for, and say truly whether they are Cartesian-oriented. Getters return the given parameters.",
  ["inputs"], "every function, choice of parameters, constructor, composition, transformation, point and box",
  "The C++ sources are not compiled by the tests that run here; those upstream compare a few values of some functions and no Hessians against anything independent.",
  [CX + "primitive_funcs_lib.cpp", CX + "impl_funcs_lib.cpp", CX + "tpms_lib.cpp", CX + "affine_transf.cpp", CX + "ref_system.cpp"],
  [("primitive functions", CX + "primitive_funcs_lib.cpp"), ("compositions, dim-linear", CX + "impl_funcs_lib.cpp"), ("periodic surfaces", CX + "tpms_lib.cpp"), ("affine maps", CX + "affine_transf.cpp"), ("reference systems", CX + "ref_system.cpp")],
  (), ["values, derivatives, enclosures and getters of implicit functions"],
  technique=T + "the definitions in exact arithmetic (integers, Q(sqrt 3)) with derivatives by exact difference formulas, laws model checked; TLC judges the compiled C++ code on generated functions and points",
  note="integer parameters and points and rational axes (twelfths for periodic surfaces), magnitudes bounded; Bezier forms of degree four only near the unit box, away from which they lose digits" + AL)


P("C30", "The Python bindings hand over arguments and results unchanged",
  "What is created and queried through qugar.cpp and the creators of qugar.impl is what the C++ library defines for the same arguments: implicit functions (values, gradients, getters, class, documented defaults), bounding boxes, Cartesian grids, affine transformations, reference systems, Gauss rules, unfitted domains (cells and facets of every class, of all or of the given ones), quadratures of cells, unfitted boundaries and facets, meshes of qugar.mesh on top of them and reparameterizations, whose cells stay with the process that made them when they become DOLFINx meshes. This holds for any layout of the arrays given (contiguous or strided, float32 or float64 where accepted) and for empty and absent lists. Arrays and objects handed out stay valid and unchanged after the objects they came from are gone. Creators raise an AssertionError for exactly the arguments that they document as invalid.",
  ["inputs", "configurations"], "every binding, overload, argument, array layout and order of releasing objects",
  "The tests that run here use a substitute of the extension; the bindings are not compiled by them.",
  ["python/nanobind_wrappers/common.cpp", "python/nanobind_wrappers/impl_functions.cpp", "python/nanobind_wrappers/unf_domain.cpp", "python/nanobind_wrappers/cut_quad.cpp", "python/nanobind_wrappers/quad.cpp", "python/nanobind_wrappers/reparam.cpp", "python/qugar/impl/impl_function.py", "python/qugar/reparam/reparam.py"],
  [("boxes, grids, maps", "python/nanobind_wrappers/common.cpp"), ("implicit functions", "python/nanobind_wrappers/impl_functions.cpp"), ("unfitted domains", "python/nanobind_wrappers/unf_domain.cpp"), ("quadratures", "python/nanobind_wrappers/cut_quad.cpp"), ("reparameterizations", "python/nanobind_wrappers/reparam.cpp"), ("creators", "python/qugar/impl/impl_function.py")],
  (), ["what Python sees of the C++ library"],
  technique=T + "the laws of the models of implicit functions, grids and unfitted geometry (as in C16, C22, C29) are checked; TLC judges what the compiled bindings answer to generated calls from Python",
  note="nanobind is a stand-in (/verif/standin/nanobind) written after its documented rules for overloads, conversion, ownership and return policies; planes, boxes and combinations for domains, bounded grids" + AL)
P("C31", "Plots show the grid, domain, quadrature or surface they are of",
  "The PyVista structures built by qugar.plot show what they are asked for. Grids and meshes are shown with all (and only the present) cells at their place, with their lexicographical ids and, for meshes, the DOLFINx local and global ids of the same cells. Domains (C++ domains and unfitted meshes, with or without excluded empty cells) show exactly the cells, or facets, of the kinds asked for, each at its place with the right status and ids; facets are those the domain itself lists by default. Quadratures show the points, weights, normals and ids of the rules of cut cells, unfitted boundaries and cut or boundary facets at their place in space. Reparameterizations show each cell and wire with its nodes in VTK's order.",
  ["inputs", "configurations"], "every grid, domain, mesh numbering, choice of kinds, number of points and degree, on one process",
  "The tests of plotting need PyVista and FEniCSx, and compare hashes of a few examples; wrong ids or statuses show only when DOLFINx numbers cells otherwise.",
  ["python/qugar/plot/pyvista_tools.py", "python/qugar/mesh/utils.py", "python/qugar/reparam/reparam.py"],
  [("cells and facets of a domain", "python/qugar/plot/pyvista_tools.py"), ("quadrature points", "python/qugar/plot/pyvista_tools.py"), ("reparameterizations", "python/qugar/plot/pyvista_tools.py"), ("meshes of reparameterizations", "python/qugar/reparam/reparam.py")],
  (), ["the PyVista structures"],
  technique=T + "TLC judges the structures the real plotting functions build for generated domains and meshes against the models of unfitted geometry, grids and numberings (their laws are checked for C19, C22, C29)",
  note="PyVista is a stand-in (/verif/stubs/pyvista_mini.py) with VTK's order of cells, edges and faces; domains bounded by lattice planes; one process" + AL)
