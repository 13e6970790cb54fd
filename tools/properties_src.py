"""Source of properties.jsonl: run `python3 tools/properties_src.py` from /verif to rewrite it."""
import json, os

P = []
SRC = "src/hypervehicle/"


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": [SRC + f for f in files],
         "mechanism": [{"name": n, "where": SRC + w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": SRC + w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "Vectors behave as immutable-operand Euclidean 3-vectors",
     "Every vector operation (construction, sum, difference, negation, scaling, division, norm, unit, dot, cross, equality, approximate equality, change of frame) returns the value of ordinary three-dimensional Euclidean algebra for its operands. "
     "Only the operations documented as in-place (scaling/division in place, normalising, changing frame) modify a vector, and then only the vector they are called on; all others leave every operand untouched and return a new vector. "
     "Converting to a right-handed local frame at a point and back returns the original vector.",
     ["inputs", "histories"], "every triple of finite components (ints, floats, numpy floats, zero, negative, tiny, huge), every scalar, every orthonormal frame and origin, every sequence of operations on shared operands",
     "Two unit tests use one or two hand-picked vectors lying in simple planes; frames with a y component, in-place operators, numpy scalars and operand aliasing are never exercised.",
     ["geometry/vector.py"],
     [("vector operators and frame changes", "geometry/vector.py:Vector3"), ("cross product and approximate comparison", "geometry/vector.py:cross_product, approximately_equal_vectors")],
     ["return values and operand components after each public vector operation"])

prop("C02", "Every curve traces exactly its defining geometry",
     "A line, Bezier curve, polyline, spline, arc, quarter ellipse, offset, mean, sub-range, reversal, trailing-edge path or surface perimeter evaluated at any parameter in [0, 1] gives the point its mathematical definition prescribes: it starts and ends at its defining end points, passes through its interpolation points, and closed curves return to their start. "
     "A curve composed of others gives each part the share of the parameter range that its length earns, evaluates each part only inside that part's own parameter range, and skips parts of no length. "
     "Evaluating a curve changes neither the curve nor the points and curves it was built from, so repeated evaluation gives the same point.",
     ["inputs", "programs", "histories"], "all control points, planes, orientations and parameter values, all nestings of the path combinators, and all evaluation orders",
     "The existing tests evaluate one line, one polyline, one Bezier curve and one arc at a few parameters, and refuse one bad arc; closed, nested, spatial, degenerate and reversed paths are not reached.",
     ["geometry/path.py", "geometry/geometry.py"],
     [("path evaluation", "geometry/path.py:Line, Bezier, Polyline, Spline, Arc"), ("path combinators", "geometry/geometry.py:SubRangedPath, ReversedPath, ElipsePath, OffsetPathFunction, GeometricMeanPathFunction, TrailingEdgePath, SurfacePerimeter")],
     ["value of path(t) for t in [0, 1]"])

prop("C03", "Reported path lengths and arc-length parameterisation match the curve",
     "The length a path reports equals the length of the curve it traces between its two ends (exactly for straight pieces and circular arcs, within the discretisation error of the documented sampling for others), also for sub-ranges, reversals and compositions, and is unchanged by rigid motion and reversal. "
     "A path re-parameterised by arc length traces the same curve between the same end points, with equal parameter steps covering equal lengths to within its sampling step.",
     ["inputs", "programs"], "all path types, control points, sub-ranges (forward and reverse) and sample counts",
     "Tests state the length of one line and one straight polyline; sub-ranges and arc-length parameterisation are not tested at all.",
     ["geometry/path.py", "geometry/geometry.py"],
     [("length by sampling or closed form", "geometry/path.py:Path.length, Line.length, Polyline.length, Arc.length"), ("arc-length table", "geometry/path.py:ArcLengthParameterizedPath"), ("sub-range length", "geometry/geometry.py:SubRangedPath.length")],
     ["path.length() against the curve sampled through path(t)"])

prop("C04", "Clustering maps [0,1] monotonically onto [0,1] toward the requested ends",
     "Every clustering function maps 0 to 0 and 1 to 1, is strictly increasing in between, concentrates points at exactly the end or ends requested (more strongly as the stretching factor approaches 1), is symmetric when both ends are requested, mirrors when the ends are swapped, and is the identity when no end is requested or the factor is below one. "
     "Point distributions between two limits contain exactly the requested number of points, run from the first limit to the second, and follow the same function; scalar and array evaluation agree.",
     ["inputs", "configurations"], "all end flags, all stretching factors, all limits (also reversed and negative), all point counts",
     "No existing test evaluates any clustering function.",
     ["geometry/path.py"],
     [("Roberts stretching", "geometry/path.py:roberts, clustered_roberts, distribute_points"), ("cluster function objects", "geometry/path.py:LinearFunction, RobertsFunction")],
     ["returned parameter values"])

prop("C05", "A transfinite patch interpolates its four edges",
     "A patch built from four edges reproduces each edge exactly along the matching side of the unit square and blends them by transfinite interpolation inside; built from four corners it is the bilinear surface through them. "
     "Edges that do not meet at a corner are rejected when the patch is built, and edges that meet are accepted. "
     "Adding or subtracting a displacement returns a displaced copy and leaves the original, its edges and its displacement unchanged, however many copies are chained.",
     ["inputs", "histories"], "all four-sided loops of curves of any type, all parameters, all chains of displaced copies, later changes to the curves used to build it",
     "One test checks a few points of one planar patch.",
     ["geometry/surface.py"],
     [("transfinite interpolation", "geometry/surface.py:CoonsPatch.__call__"), ("corner consistency test", "geometry/surface.py:CoonsPatch.__init__"), ("displaced copies", "geometry/surface.py:CoonsPatch.__add__, __sub__")],
     ["patch(r, s) and constructor exceptions"])

prop("C06", "Analytic and swept surfaces lie exactly on the solids they describe",
     "Every point of a revolved, conical, cubic, spherical, circular or swept surface lies on the stated solid: at the generator's distance from the axis and inside the stated angular range, between the two rings, on the face at the given half-length, at the given radius from the centre, and on the straight blend between neighbouring cross sections at the position along the sweep. "
     "The unit square covers the whole of the stated face, ring, quadrant or sweep, reaching every bounding section exactly, and all faces of a cube or sphere face outwards.",
     ["inputs", "configurations"], "all generators, radii, centres, angle ranges, faces, numbers and placements of cross sections, sweep axes and parameter values",
     "Only one swept patch with aligned sections is tested; the revolved surfaces are seen only through fixed vehicles, cubes, spheres, cones and circles not at all.",
     ["geometry/geometry.py", "components/common.py"],
     [("surfaces of revolution", "geometry/geometry.py:RevolvedPatch, ConePatch"), ("cube and sphere faces", "geometry/geometry.py:CubePatch, SpherePatch"), ("sweeps", "geometry/geometry.py:SweptPatch, SweptPatchfromEdges"), ("circle", "components/common.py:circle_patch")],
     ["surface(r, s)"])

prop("C07", "Rotations, translations and mirrors move geometry by exact isometries",
     "Rotating by an angle about a coordinate axis (through any point) moves every point by the right-handed rotation of that angle, translating adds the given offset, and mirroring negates exactly one coordinate; the order in which motions are listed is the order in which they are applied. "
     "This holds alike for single surfaces, components and whole vehicles, for axis names in either case, angles in degrees of any size and sign, and offsets given as a vector or as a function of position. "
     "Distances are preserved, applying a motion and its inverse restores the geometry, and any number of motions can follow one another.",
     ["inputs", "programs", "configurations"], "all chains of motions with any axes, angles, points and offsets, over every kind of surface, component and vehicle",
     "The vehicles in the tests use a few fixed transformations and compare only with stored meshes.",
     ["geometry/geometry.py", "components/component.py", "vehicle.py", "transformations.py"],
     [("surface motions", "geometry/geometry.py:RotatedPatch, MirroredPatch, OffsetPatchFunction"), ("component motions", "components/component.py:rotate, translate, transform"), ("vehicle motions", "vehicle.py:Vehicle.transform, add_vehicle_transformations")],
     ["surface points and mesh vertices before and after the motion"])

prop("C08", "Offset, modifier and curvature functions displace every point exactly",
     "A user offset or modifier function is evaluated at each point's own coordinates and its result added to that point. "
     "A curvature in the x or y direction places a point at the user's curve height for its position, with its height above the plane turned to stand normal to the curve of the given slope; several curvatures act in the order listed, each on the result of the one before. "
     "Leading- and trailing-edge surfaces join the upper and lower edge lines they are built on, have the given width at the nose line and the given length and angle at the flap, with elliptic sections perpendicular to the edge line.",
     ["inputs", "programs"], "all user functions, surfaces, directions, chains and parameter values",
     "Tests see a handful of fixed functions through stored meshes only.",
     ["geometry/geometry.py", "components/component.py"],
     [("offsets", "geometry/geometry.py:OffsetPatchFunction, OffsetPathFunction"), ("curvature", "geometry/geometry.py:CurvedPatch; components/component.py:curve"), ("edges", "geometry/geometry.py:LeadingEdgePatchFunction, MeanLeadingEdgePatchFunction, FlatLeadingEdgePatchFunction, TrailingEdgePatch, MeanTrailingEdgePatch")],
     ["surface(r, s) and arguments seen by the user functions"])

prop("C09", "A mesh samples its surface completely and faithfully",
     "Meshing a surface with nr by ns cells yields exactly four triangles per cell, sharing the mean of the cell's corners, with every cell corner equal to the surface evaluated at the requested parameters (to single precision) and with neighbouring triangles wound the same way. "
     "The parameters run over the whole closed range from 0 to 1 in each direction, spaced evenly, by the given power, or by the given clustering function of that direction, independently for the two directions. "
     "Every part of the surface is covered exactly once, for every resolution including one cell and unequal resolutions, and mirroring about the x-z plane on request changes only the sign of y.",
     ["inputs", "configurations"], "all surfaces, resolutions from 1 up (equal or not), spacings, clustering functions and mirror flag",
     "Stored meshes use a few equal resolutions without clustering in the second direction.",
     ["utilities.py", "components/component.py"],
     [("surface triangulation", "utilities.py:surfce_to_stl"), ("parameter spacing", "utilities.py:default_vertex_func"), ("resolution and clustering choice", "components/component.py:surface, add_clustering_options")],
     ["triangles returned, and the parameter pairs at which the surface was evaluated"])

prop("C10", "Concurrent meshing equals serial meshing and never loses a failure",
     "The mesh of a component is the same, triangle for triangle and in patch order, whether its surfaces are meshed one after another or by any number of concurrent workers, whatever the relative speed of the workers. "
     "If meshing any surface fails, the failure reaches the caller and no incomplete or mixed mesh is ever visible afterwards; once the cause is removed, meshing again gives the complete mesh. "
     "No worker process outlives the meshing that started it.",
     ["schedules", "fault_sequences", "histories"], "all assignments of surfaces to workers, all worker delays, every choice of failing surface and exception, repeated attempts, all component types",
     "The tests mesh once on the default pool, with no faults, and cannot choose which worker finishes first.",
     ["components/component.py"],
     [("pool dispatch and collection", "components/component.py:surface"), ("mesh assembly and cache", "components/component.py:mesh")],
     ["component.surfaces, component.mesh, exceptions, child processes"],
     [("surfaces", "per-patch meshes", "components/component.py:Component.surfaces"), ("mesh cache", "assembled mesh", "components/component.py:Component._mesh")])

prop("C11", "A wing is a gap-free shell matching its planform and thickness",
     "A generated wing's upper and lower surfaces are its planform displaced by the upper and lower thickness functions, its leading edge joins them all along the given leading-edge curve with the given width profile (or flat), split at the stated or implied parameter values, and its trailing flap has the given length and angle. "
     "All its surfaces meet edge to edge without gaps or overlaps, so a wing closed on its inner side is a watertight, consistently outward-facing solid, and an open wing is open only on its inner side.",
     ["inputs", "configurations"], "all planforms, thickness and width functions, split values, flap lengths and angles, leading-edge types, open or closed, resolutions",
     "One wing is compared at a 68 per cent match and a few fixed vehicles use default splits.",
     ["components/wing.py", "geometry/geometry.py"],
     [("planform, leading edge, trailing edge, closure", "components/wing.py:_create_planform_patches, _create_leading_edge, _create_trailing_edge, _close_wing")],
     ["component.patches and component.mesh"])

prop("C12", "A fin is a watertight solid matching its planform, thickness and placement",
     "A generated fin is the solid over its four-point planform bounded by the two thickness functions, with an elliptic leading edge of the given width profile along its outer edges and a flat or sharp trailing edge with the given rudder length and angle. "
     "Its surfaces meet edge to edge without gaps or overlaps and face outwards for every combination of options. "
     "The whole fin is pivoted by the pivot angle about the lateral axis through the pivot point, then turned about the x axis by the fin angle, then offset by the offset function, each acting on all of its surfaces alike.",
     ["inputs", "configurations"], "all planforms, thicknesses, width profiles, rudder types, lengths and angles, pivot angles and points, fin angles, offsets and resolutions",
     "Fixed vehicles use one or two option combinations at default resolution.",
     ["components/fin.py", "geometry/geometry.py"],
     [("fin construction and placement", "components/fin.py:generate_patches")],
     ["component.patches and component.mesh"])

prop("C13", "Swept, revolved, cube, sphere and ogive bodies are closed with the right volume",
     "A body swept through closed cross sections with closed ends, a body revolved from a profile that meets the axis, a cube, a sphere and an ogive nose each give a watertight, consistently oriented mesh whose enclosed volume approaches the exact volume as the resolution grows. "
     "Cross sections that are not closed loops, differ in number of edges, or ask for unsupported ends or incompatible edge resolutions are rejected when the component is built. "
     "Resolutions given per edge are honoured, each edge and the sweep direction getting exactly its own number of cells, including on reflected copies.",
     ["inputs", "configurations"], "all cross-section loops, numbers of sections and edges, profiles, sizes, centres, integer and per-edge resolutions",
     "Stored meshes cover fixed bodies with one integer resolution; volumes, closure and per-edge resolutions are not tested.",
     ["components/swept.py", "components/revolved.py", "components/polygon.py", "components/common.py", "components/component.py"],
     [("sweep construction and validation", "components/swept.py"), ("revolution", "components/revolved.py"), ("cube and sphere", "components/polygon.py"), ("ogive", "components/common.py:OgiveNose")],
     ["component.mesh, component.surfaces, constructor exceptions"])

prop("C14", "Reflection yields the exact mirror image, appended or replacing",
     "A component with a reflection axis becomes, when the reflection is appended, the union of its own surfaces and the mirror image of every one of them about the plane normal to that axis, and otherwise the mirror image alone. "
     "The mirror image has the same resolution and parameterisation as the original, the originals are untouched, a component without a reflection axis is unchanged, and a further reflection mirrors all that is there. "
     "The reflection acts after modifiers, curvature and the vehicle angle offset and before the component's own transformations.",
     ["inputs", "configurations"], "all component types, axes in either case, append or replace, with and without the other options",
     "The vehicles in the tests reflect about y only.",
     ["components/component.py", "geometry/geometry.py", "vehicle.py"],
     [("reflection", "components/component.py:reflect"), ("mirror surface", "geometry/geometry.py:MirroredPatch")],
     ["component.patches and component.mesh"])

prop("C15", "A composite is the union of its children, each with its own options",
     "A composite component consists of exactly the surfaces of all of its children, in the order added, each child first given its own curvature, reflection and transformations. "
     "All of them are meshed at the composite's resolution, and options set on the composite or its vehicle then act on the whole. "
     "Children of the same type, or sharing surface names, never replace or alter one another, and unsupported children are rejected.",
     ["inputs", "configurations", "histories"], "all multisets and orders of children of every allowed type, with any options, nested in any vehicle options, generated any number of times",
     "Two stored vehicles use composites of plain revolved children only.",
     ["components/composite.py"],
     [("child registration and merging", "components/composite.py:add_component, generate_patches")],
     ["composite.patches and composite.mesh"])

prop("C16", "Vehicle generation applies every option in the fixed order, whatever the history",
     "Generating a vehicle gives each component its own patches, then its modifier, curvatures, the vehicle angle offset, reflection and own transformations, in that order, followed by the vehicle transformations in the order added; options of one component never affect another. "
     "The result depends only on the components and options, not on what was done before: generating again, reading or writing meshes in between, or transforming after meshes were built gives the geometry obtained by a fresh vehicle. "
     "Meshes always reflect the current patches, and transforming before generating, or adding an unsupported component, is refused.",
     ["inputs", "histories", "configurations"], "all sequences of add, generate, mesh, write, analyse and transform operations over all component mixes and options",
     "Tests generate each vehicle once and read its mesh once.",
     ["vehicle.py", "components/component.py"],
     [("generation pipeline", "vehicle.py:Vehicle.generate"), ("vehicle transformations", "vehicle.py:Vehicle.transform"), ("mesh cache", "components/component.py:mesh")],
     ["component.patches, component.mesh after every operation"],
     [("generated flag, options", "what has been requested so far", "vehicle.py:Vehicle")])

prop("C17", "STL and property files hold exactly the vehicle, under predictable names",
     "Writing a vehicle produces exactly one STL file per component that is not a ghost, named from the prefix, the component's name or type and number, and the vehicle name by the documented precedence, each holding the component's mesh triangle for triangle; nothing is written for ghosts, and no other file is touched. "
     "When analysis results or user properties exist they are written to the properties directory for the prefix or vehicle name and read back as the values held by the vehicle. "
     "Merging reads exactly the files just written.",
     ["inputs", "configurations", "histories"], "all mixes of named, unnamed and ghost components, prefixes (with and without directories), vehicle names, presence of results, repeated writes, merging",
     "No test writes any file.",
     ["vehicle.py", "components/component.py", "utilities.py"],
     [("file naming and writing", "vehicle.py:Vehicle.to_stl"), ("component writing", "components/component.py:to_stl"), ("merging", "utilities.py:merge_stls")],
     ["files created, opened and read back in a scratch directory"])

prop("C18", "Inertial analysis is exact for the meshed solids",
     "For each component the reported volume, mass, centre of gravity, inertia and area are those of the solid bounded by its mesh at its density, and for the vehicle they are the sums, mass-weighted mean, and parallel-axis sum over all components, ghosts included. "
     "They scale with density, follow rigid motions of the vehicle (volume, mass and area unchanged, centre moved along, inertia rotated), and do not depend on the order of the components. "
     "The per-component and vehicle tables agree with the returned values, and analysing on generation gives the same values as analysing afterwards.",
     ["inputs", "histories", "configurations"], "all component mixes, placements, densities, motions and orders of operations",
     "No test runs an analysis.",
     ["utilities.py", "vehicle.py"],
     [("mass properties and composition", "utilities.py:assess_inertial_properties"), ("vehicle summary", "vehicle.py:Vehicle.analyse, analyse_after_generating")],
     ["returned tuple, vehicle attributes, property tables"])

prop("C19", "Sensitivities are the finite differences of the real geometry",
     "For every parameter, component and mesh vertex the reported sensitivity equals the difference between the vehicle generated with that parameter alone perturbed by the given percentage and the nominal one, divided by the change in the parameter; likewise for analysis results and user properties. "
     "The combined table of each component lists every distinct nominal vertex with the sensitivities to all parameters aligned on the same row and no missing entries, and the files written hold the same numbers. "
     "The user's parameter and override dictionaries are not modified and the nominal vehicle is the unperturbed one.",
     ["inputs", "configurations"], "all generators, parameter sets and non-zero nominal values (also negative and integer), overrides, perturbations of either sign, vehicles with several and ghost components",
     "No test runs a sensitivity study.",
     ["utilities.py", "generator.py"],
     [("finite differencing", "utilities.py:SensitivityStudy.dvdp, _compare_meshes"), ("combination and files", "utilities.py:SensitivityStudy._combine, to_csv")],
     ["returned dictionaries, study attributes, CSV and text files"])

prop("C20", "Surface points receive the sensitivities of the matching vertex",
     "Appending sensitivities to a surface file gives every point, in file order, the sensitivities of a tabulated vertex lying within the matching tolerance of it in each coordinate, values below the rounding tolerance becoming zero, and zeros when no vertex matches; the returned fraction is the share of points matched. "
     "One data block per parameter is added under that parameter's name, and the combined table written agrees with it. "
     "Everything else in the surface file, the input tables and the caller's list of files is left unchanged.",
     ["inputs", "configurations"], "all point sets, partitions of vertices over files, numbers and names of parameters, tolerances, unmatched points, presence of the previous combined file in the list",
     "No test calls it.",
     ["utilities.py"],
     [("point matching and annotation", "utilities.py:append_sensitivities_to_tri")],
     ["annotated file, combined CSV, return value, arguments after the call"])

prop("C21", "The mesh check accepts exactly closed meshes and repair only joins near vertices",
     "The mesh check passes exactly when every edge of the mesh is shared by two oppositely directed triangles and (if requested) the face areas balance, for each combination of the requested tests; it never alters the mesh. "
     "Repair moves no vertex by more than the given distance in any coordinate, makes clusters of vertices closer than that distance and separated from all others coincide, leaves a mesh without such clusters unchanged, and keeps number and order of triangles. "
     "A mesh whose only flaw is such scatter passes the edge test after repair.",
     ["inputs", "histories"], "all closed, open, flipped and duplicated meshes, all scatter patterns within and beyond the tolerance, all option combinations",
     "No test calls the check or the repair.",
     ["components/component.py"],
     [("mesh check", "components/component.py:stl_check"), ("mesh repair", "components/component.py:stl_repair")],
     ["returned flag and mesh vertices"])

prop("C22", "Parametric vehicles depend on their parameters and nothing else",
     "A parametric generator builds the same geometry, vertex for vertex, every time it is given the same parameters, whatever other vehicles were built before, after or from the same process, and whatever was done to them. "
     "Every given parameter replaces the default of that name for that instance only, and giving a parameter its default value changes nothing. "
     "The vehicles of the library keep their component structure and finite geometry when continuous parameters vary moderately around their defaults.",
     ["inputs", "histories", "configurations"], "all library vehicles, all parameter overrides in a range about the defaults, all interleavings of building several instances",
     "Tests build each vehicle once with default parameters in one process.",
     ["generator.py", "hangar/", "vehicle.py", "components/component.py"],
     [("parameter overrides", "generator.py:Generator"), ("library vehicles", "hangar/")],
     ["component names, types, patches and meshes of the vehicles built"])

prop("C23", "Building and meshing never changes what the user passed in",
     "Points, curves, cross sections, functions, option lists and dictionaries handed to constructors, components and vehicles have the same values after any sequence of generating, meshing, transforming, analysing and writing as before, so they can be reused. "
     "Deep copies of components and vehicles are independent: nothing done to the copy shows in the original or the other way round. "
     "Components and vehicles built with default options share no state with one another.",
     ["inputs", "histories"], "all constructors and options with shared arguments, all operation sequences, copies taken at any moment",
     "One library vehicle copies a fin, seen only through its stored meshes; no test looks at an argument again after generation or changes one side of a copy.",
     ["geometry/", "components/", "vehicle.py"],
     [("copies of points and edges", "geometry/path.py, geometry/surface.py"), ("component copies", "components/component.py:__copy__, __deepcopy__"), ("option storage", "vehicle.py:add_component, components/composite.py:add_component")],
     ["deep fingerprint of every argument before and after; geometry of original and copy"])

prop("C24", "A structured grid samples its surface with the requested edge clustering",
     "A structured grid of a surface has exactly the requested numbers of points in the two directions, with the point at each index equal to the surface evaluated at parameters blended between the clustering functions of the four edges, so that its border lies on the surface's border with each edge following its own clustering. "
     "A sub-grid contains exactly the points of the requested index ranges as an independent copy. "
     "Counts below two points and objects that are not surfaces are refused.",
     ["inputs", "configurations"], "all surfaces that accept arrays of parameters, all counts, all combinations of clustering functions on the four edges, all sub-ranges",
     "No test builds a grid.",
     ["geometry/surface.py", "geometry/vector.py", "geometry/path.py"],
     [("grid generation", "geometry/surface.py:StructuredGrid.generate"), ("sub-grid", "geometry/surface.py:StructuredGrid.subgrid")],
     ["grid vertices, counts, labels and exceptions"])

prop("C25", "Output level changes nothing but the output, and level zero is silent",
     "The output level of vehicles, components, studies, surface-file matching and merging never changes any geometry, mesh, number, return value or written file. "
     "A vehicle, study or file operation asked for no output prints nothing, whatever level its components were made with.",
     ["inputs", "configurations", "histories"], "all output levels of vehicle and components, all operation sequences, studies and file operations",
     "Tests run at one output level and never look at what is printed.",
     ["vehicle.py", "components/", "utilities.py"],
     [("levels of added components", "vehicle.py:add_component, components/composite.py:add_component"), ("guarded printing", "vehicle.py:generate, to_stl; utilities.py:SensitivityStudy.dvdp, append_sensitivities_to_tri, merge_stls")],
     ["standard output of the process, results and files at each level"])

prop("C26", "Geometry does not depend on the unit of length",
     "Multiplying every length a user gives by one positive factor multiplies every point of the resulting curves, surfaces, components and meshes by that factor. "
     "Areas, volumes, masses and inertias follow with the second, third, third and fifth power. "
     "No well-formed definition is refused, and nothing is dropped or rounded, because of the unit.",
     ["inputs", "configurations"], "all curves, surfaces, components, options and vehicles, factors of the size of unit conversions",
     "Tests use one scale; a tolerance or rounding in absolute length shows only at another.",
     ["geometry/", "components/", "vehicle.py", "utilities.py"],
     [("tolerances", "geometry/path.py:Arc, Polyline, Spline; geometry/surface.py:CoonsPatch; components/swept.py"), ("parameters found by root finding", "components/wing.py, components/common.py:OgiveNose"), ("totals", "utilities.py:assess_inertial_properties")],
     ["points, meshes and totals of the same object at two scales"])

prop("C27", "Options left out take their documented values",
     "Leaving out any subset of the optional arguments of components, vehicles, curves, surfaces, grids, meshing and sensitivity studies gives the same result as giving their documented default values. "
     "The package's helper functions for uniform thickness and leading-edge width have their documented values everywhere.",
     ["inputs", "configurations"], "all constructors and operations with options, all subsets of options left out",
     "Tests set most options and cannot tell a changed default that they never rely on.",
     ["components/", "vehicle.py", "geometry/", "utilities.py"],
     [("constructor defaults", "components/wing.py, fin.py, swept.py, revolved.py, polygon.py, composite.py"), ("vehicle defaults", "vehicle.py:__init__, add_component, configure"), ("helpers", "components/common.py:uniform_thickness_function, leading_edge_width_function")],
     ["results with and without the options"])

prop("C28", "A vehicle's records and descriptions match what was added to it",
     "At every moment a vehicle lists exactly the components it accepted, in order, each known by the name given on adding, else its own name, else its type and running number, and the same names carry densities, results and the listing of components to be written. "
     "Recorded properties are the last ones given. "
     "Descriptions of vehicles, components, curves and surfaces can be asked for at any moment, state names and counts truthfully and change nothing.",
     ["histories"], "all sequences of adding, refusing, naming, generating, analysing and recording",
     "No test reads the records or descriptions after a history.",
     ["vehicle.py", "components/component.py", "utilities.py", "geometry/"],
     [("records", "vehicle.py:add_component, get_non_ghost_components, add_property"), ("descriptions", "vehicle.py:__repr__, __str__; components/component.py:__repr__, __str__")],
     ["listings, texts and names in analysis results"])

prop("C29", "Unusable definitions are refused and leave everything as it was",
     "Geometry that cannot be built as defined (an arc whose ends lie at different distances from its centre or on a line with it, curvature without its slope, an unknown side or face, sections all at one station, something other than a curve or point where one is needed, a displacement that is not a vector) and steps asked for before what they need exists end in an error when made or first used, never in made-up geometry. "
     "The refusal changes no object involved. "
     "The same definition with the flaw removed is accepted, before and after.",
     ["inputs"], "all definitions with a single flaw, paired with their valid neighbours",
     "Tests refuse one arc with unequal radii, one empty vector and one empty patch; no other flaw is tried, no valid neighbour is paired with it and the operands are not looked at after the error.",
     ["geometry/vector.py", "geometry/path.py", "geometry/surface.py", "geometry/geometry.py", "components/component.py", "vehicle.py"],
     [("arc validity", "geometry/path.py:Arc"), ("argument types", "geometry/path.py, geometry/geometry.py constructors"), ("readiness", "components/component.py:surface; vehicle.py:transform")],
     ["exceptions at the calling boundary, operands afterwards"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
