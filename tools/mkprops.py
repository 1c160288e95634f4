#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Toroidal neighbour lookup is periodic, ordered and bounded",
 "Looking up a toroidal plane by any index returns the plane and its y position: on a periodic domain index i+ny is the same plane exactly one domain length later, for any negative or large index. On a non-periodic domain an index below the range gives no plane at y=0 and one above the range gives no plane at y=Ly. A half-way (fractional) index gives no plane and the linearly interpolated y between its two neighbours, so that y never decreases as the index grows.",
 ["inputs", "configurations"], "every number of planes, y spacing, domain length, periodic or not, and every integer or fractional index, however far outside the range",
 "The tests look at index 0, -1 and ny on one or two uniform grids; wrap-around counts, negative multiples, fractional indices on uneven spacing are never compared.",
 ["zoidberg/grid.py"], [("ycoords", "y position of each plane", "zoidberg/grid.py:52"), ("Ly", "length of the y domain", "zoidberg/grid.py:53")],
 [("wrap-around of plane indices", "zoidberg/grid.py Grid.getPoloidalGrid")], ["return value of Grid.getPoloidalGrid"])

prop("C02", "Parallel maps give each field line's landing point on the right plane",
 "For every cell, parallel offset (positive and negative, up to the requested number of slices) and direction, the stored R,Z are the position of that cell's field line at the y of the plane that many planes away, and the stored x,z indices are that position in index space of that plane's own poloidal grid. Where there is no such plane, or the position is outside the field's boundary evaluated at that plane's y, both indices are -1. Each offset is stored under its own name (forward/backward, with _2, _3 for larger offsets) and half-offset positions are stored as cell_ylow/cell_yhigh. All lines are followed with the accuracy the caller asked for.",
 ["inputs", "configurations"], "all grids (different poloidal grid per plane, periodic or open), all magnetic fields and boundaries including y-dependent ones, all numbers of slices",
 "Existing tests use one uniform slab, one slice and no boundary, so wrong plane, wrong offset, wrong boundary position or cross-talk between slices all pass.",
 ["zoidberg/zoidberg.py", "zoidberg/grid.py", "zoidberg/poloidal_grid.py", "zoidberg/boundary.py"],
 [("maps", "named arrays of landing positions and indices", "zoidberg/zoidberg.py make_maps")],
 [("tracing loop over directions, planes and offsets", "zoidberg/zoidberg.py make_maps"), ("naming of slices", "zoidberg/zoidberg.py parallel_slice_field_name")],
 ["the dictionary returned by make_maps, with an injected tracer, field and boundary"])

prop("C03", "Sub-cell samples are a quadrature of the cell, traced individually",
 "With n samples per dimension every cell and every integer parallel offset gets n*n traced samples that start at the tensor-product Gauss-Legendre points of that cell (offset in both x and z, in index space) and whose weights are positive and sum to one. Each sample's indices are the landing point of its own field line on the target plane, -1 where that sample leaves the domain or is outside the boundary at the target plane. With one sample the sample arrays equal the cell-centre maps for every offset. Samples are followed with the accuracy the caller asked for.",
 ["inputs", "configurations"], "all sample counts, all numbers of slices, all poloidal grids (periodic or rectangular), all planes and directions",
 "One test only checks the shapes of the sample arrays; which point is traced, for which slice, is never looked at.",
 ["zoidberg/zoidberg.py"], [("subcell_weights", "quadrature weights", "zoidberg/zoidberg.py make_maps"), ("xt_primes/zt_primes", "per-sample landing indices", "zoidberg/zoidberg.py make_maps")],
 [("sample start points and per-sample tracing", "zoidberg/zoidberg.py make_maps")], ["the dictionary returned by make_maps and the start points handed to the injected tracer"])

prop("C04", "Cell and leg numbering is a gap-free, collision-free numbering",
 "Global cell numbers are a one-to-one numbering 0..N-1 of interior cells first, then inner radial boundary, outer radial boundary, then one extra cell for each interior cell and direction having at least one sample on the radial boundary, and -1 everywhere else. In each direction every interior cell has one leg row, or two exactly when some of its samples end in the interior and some on the boundary; leg rows are numbered 0..n-1 without gaps or duplicates, and cells outside the interior have none. A sample counts as on the boundary exactly when its mapped x is below the guard width or above nx-guard-1.",
 ["inputs", "configurations"], "all map contents, grid sizes, guard widths (including 0) and sample counts",
 "No test builds cells whose samples split between interior and boundary, differing forward and backward patterns, or other guard widths.",
 ["zoidberg/weights.py"], [("cell_number / boundary numbers", "global numbering of cells", "zoidberg/weights.py assign_cell_space_numbers"), ("leg numbers", "row numbering per direction", "zoidberg/weights.py build_leg_space_metadata")],
 [("classification of samples", "zoidberg/weights.py classify_leg_contributions")], ["dictionary returned by calculate_parallel_map_operators"])

prop("C05", "Leg operators interpolate exactly from the right plane",
 "Every leg row's weights sum to one; a boundary row is exactly its own cell's boundary number for that direction, and an interior row is the weighted average over its interior samples of the 4x4 Catmull-Rom stencil around the mapped point on the next (forward) or previous (backward) plane, cyclic in y and z, with the weight of radial guard points moved to the nearest interior point. Mapped z values that differ by a multiple of nz give the same row. The leg weights of each cell sum to one, a split cell's being the quadrature weights of its interior and boundary samples, and the sparse arrays are well-formed CSR with in-range columns, each column at most once per row.",
 ["inputs", "configurations"], "all mapped positions (negative, beyond nz, next to the guard region, on grid points), all sample weights, grid sizes and both directions",
 "The weights are never compared with an interpolation formula in the tests; only shapes and a few sums are.",
 ["zoidberg/weights.py"], [("CSR arrays", "weights, columns, row pointers per direction", "zoidberg/weights.py SparseRowMatrixBuilder.to_csr"), ("leg weight vector", "quadrature weight of each row", "zoidberg/weights.py build_leg_weight_vector")],
 [("stencil accumulation", "zoidberg/weights.py accumulate_interior_stencil"), ("guard shift", "zoidberg/weights.py shift_weights_out_of_x_boundaries")], ["dictionary returned by calculate_parallel_map_operators"])

prop("C06", "Map clean-up leaves boundary marks and operators consistent",
 "With partial boundaries allowed, clean-up marks a cell's x map as -1 in a direction exactly where at least one of its samples hits the radial boundary (other entries keep their value), and the operators are built from the unchanged samples. With partial boundaries disallowed no cell stays split: a cell with mixed samples becomes all-boundary if its centre hits, otherwise only its boundary samples are replaced by the centre position, so each interior cell has one row per direction. In both cases the sample arrays and sample weights are removed, the operators are added and every other entry is kept.",
 ["inputs", "configurations"], "all combinations of centre and sample hits, sample counts, guard widths, directions",
 "Tests never create cells with a mixture of boundary and interior samples.",
 ["zoidberg/weights.py"], [("maps", "map dictionary modified in place", "zoidberg/weights.py modify_maps")],
 [("partial / non-partial filtering", "zoidberg/weights.py modify_maps")], ["dictionary returned by modify_maps"])

prop("C07", "Boundary objects classify every point correctly",
 "A polygon boundary reports a point as outside exactly when it is not enclosed by the polygon, for simple polygons of either orientation and any starting vertex, including concave ones, ones with vertical edges, and points vertically aligned with a vertex. A rectangular boundary reports outside exactly when x or z is strictly beyond a limit; no boundary never reports outside. The answer for a point does not depend on which other points are in the same query and has the query's shape.",
 ["inputs", "configurations"], "all simple polygons and boxes and all points not on the polygon's edge, in arrays of any shape",
 "The tests never ask a polygon about a point; ray-casting corner cases are measure-zero for random sampling but hit by grids aligned with the polygon.",
 ["zoidberg/boundary.py"], [("xarr, zarr", "polygon vertices", "zoidberg/boundary.py PolygonBoundaryXZ")], [("ray casting", "zoidberg/boundary.py PolygonBoundaryXZ.outside")], ["return value of outside()"])

prop("C08", "Poloidal index and coordinate conversions are inverse",
 "Converting an index position to R,Z and back returns the same index position (z up to a multiple of nz on a curvilinear grid), at grid points exactly matching the stored R,Z, and points beyond the first or last radial half cell of a curvilinear grid get x index -1 or nx respectively; asking for coordinates at an x index outside the grid is refused. Results have the shape of the query and do not depend on the other points of the query. Derivatives of the coordinates with respect to the indices are those of the same mapping, of any order (second and mixed derivatives of a rectangular grid are zero).",
 ["inputs", "configurations"], "all rectangular and curvilinear grids, all interior positions including across the z seam, all batches",
 "Tests check a single hand-picked point; failures depend on where the point lies relative to the seam, guard rows and other points of the batch.",
 ["zoidberg/poloidal_grid.py"], [("R, Z arrays and splines", "index to coordinate mapping", "zoidberg/poloidal_grid.py StructuredPoloidalGrid.__init__")],
 [("Newton search", "zoidberg/poloidal_grid.py StructuredPoloidalGrid.findIndex"), ("coordinate lookup", "zoidberg/poloidal_grid.py getCoordinate")], ["return values of getCoordinate and findIndex"])

prop("C09", "Metrics are consistent and reading them never changes them",
 "The poloidal metric written for a plane is the metric of that plane's own coordinates: co- and contravariant 2x2 blocks are inverse and positive definite, and the length of a coordinate step given by dx, g_xx (dz, g_zz, g_xz) is the change of R,Z with the index. The y metric of a field is R^2 (cylindrical, 1 if Cartesian) times (B/By)^2, contravariant its inverse, for every plane. Asking for a metric any number of times, for any sequence of fields, gives the same answer each time and never changes what the grid reports. The plane spacing dy is that of equally spaced planes.",
 ["inputs", "histories", "configurations"], "all grids with equally spaced planes, fields with any direction and any sequence of metric requests",
 "Tests ask for a metric once and check at most its sign; accumulation across calls cannot show.",
 ["zoidberg/grid.py", "zoidberg/poloidal_grid.py", "zoidberg/zoidberg.py"], [("metric cache", "metric kept by the grid between calls", "zoidberg/grid.py Grid.metric")],
 [("metric assembly", "zoidberg/zoidberg.py get_metric"), ("plane metric", "zoidberg/poloidal_grid.py StructuredPoloidalGrid.metric")], ["return values of Grid.metric, PoloidalGrid.metric and get_metric"])

prop("C10", "Field-line tracing is a faithful, point-wise flow",
 "A trace result has one entry per requested y, the first being the start position, with the shape of the start points (a scalar is broadcast against an array), and each entry is the field line's position at that y in the requested order, forwards or backwards. The result for a point does not depend on how many other points are traced with it or where it stands in the array, and the caller's arrays are not modified. Tracing to b and on to c equals tracing to c, and tracing back returns to the start (with the reversible tracer to rounding, however long its steps); mismatched start shapes and fewer than two y positions are refused.",
 ["inputs", "histories", "configurations"], "all start arrays (scalar, 1D, 2D, any size including more than a thousand points), y sequences, both tracers",
 "Tests use a few points, always fewer than the internal chunk limit, and never compare the caller's arrays afterwards.",
 ["zoidberg/fieldtracer.py"], [("start positions", "caller-owned arrays", "zoidberg/fieldtracer.py follow_field_lines")],
 [("chunked integration", "zoidberg/fieldtracer.py FieldTracer.follow_field_lines"), ("reversible integration", "zoidberg/fieldtracer.py FieldTracerReversible.follow_field_lines")], ["return value of follow_field_lines and the arguments afterwards"])

prop("C11", "Poincare results are laid out by revolution and slice",
 "Entry [revolution, slice] of a Poincare trace is the position at y = slice position + revolution * period of the field line starting at each point on the first slice, with slices in increasing order, whatever the order in which they were asked for, and independent of the oversampling factor. The returned slice positions are the requested ones sorted, or equally spaced in [0, period). Slices outside [0, period] are refused and the caller's arrays are left alone.",
 ["inputs", "configurations"], "all slice lists, numbers of slices, revolutions, oversampling factors and start arrays",
 "Tests check only that the result has the right shape.",
 ["zoidberg/fieldtracer.py"], [("y_slices", "requested slice positions", "zoidberg/fieldtracer.py trace_poincare")], [("oversampled y axis and reshape", "zoidberg/fieldtracer.py trace_poincare")], ["return value of trace_poincare"])

prop("C12", "A caching tracer is indistinguishable from the tracer it wraps",
 "Over any sequence of calls, processes and restarts, the caching tracer (with a cache name used for one tracer only) returns for every request what the wrapped tracer would return for that request (to the precision stored), never a result belonging to a different request. A repeated request is served without tracing again. A crash or failure while a cache entry is being produced never makes a later request fail or return a different result.",
 ["histories", "crash_points", "schedules", "inputs"], "all sequences of requests with any start arrays, y lists and tracing options, interleaved with crashes at any point of a cache write and with other processes",
 "Tests perform a miss followed by a hit for one input in one process; collisions between requests and interrupted writes need particular pairs and crash points.",
 ["zoidberg/fieldtracer.py"], [("cache file", "persisted result of one request", "zoidberg/fieldtracer.py CachingFieldTracer")], [("cache key and file handling", "zoidberg/fieldtracer.py CachingFieldTracer.follow_field_lines")], ["return value of follow_field_lines, calls reaching the wrapped tracer, files in the cache directory"])

prop("C13", "Remote tracing returns complete, ordered results or fails",
 "Whatever requests to the remote field-line service fail or time out, a trace either returns the complete result, in the order of the start points and y positions and with the start position first, or raises an error. Requests larger than the chunk size are split; with a configuration id failed pieces are retried while the allowed number of failures of the call is not used up, and the call fails once it is, while a request that fits in one piece fails at once. The direction of tracing follows the sign of the y step whatever the service's own field direction.",
 ["fault_sequences", "schedules", "inputs"], "all sequences of failures over the pieces of a request, all chunk sizes and retry limits, both directions",
 "The service is not reachable in tests, so none of this code is ever run.",
 ["zoidberg/fieldtracer.py"], [("pending pieces and remaining retries", "state of one call", "zoidberg/fieldtracer.py FieldTracerWeb.follow_field_lines")], [("retry loop", "zoidberg/fieldtracer.py FieldTracerWeb.follow_field_lines")], ["return value or exception, requests seen by a stand-in service"])

prop("C14", "Grid files contain what was given, under the documented names",
 "After writing, reading the file back gives the grid's R and Z, every map array, the metric components under BOUT++ names (or the new names when asked), for the centre and for every parallel slice that has a plane, the field's attributes evaluated on the grid, the sizes and a unique grid id; with 2D metrics the metric components are the z=0 plane and dz is a scalar. Data that is not finite, and steps done without an open file, a grid or a field, are refused. What a sequence of writer operations leaves in the file does not depend on how it is split over update sessions (create=False).",
 ["histories", "inputs", "configurations"], "all sequences of writer operations, map contents, naming and 2D options, periodic and open grids",
 "The tests write one file with default options and do not read back values.",
 ["zoidberg/zoidberg.py"], [("MapWriter", "open file, grid, field set so far", "zoidberg/zoidberg.py MapWriter")], [("write_dict, add_maps", "zoidberg/zoidberg.py MapWriter"), ("name translation", "zoidberg/zoidberg.py update_metric_names")], ["contents of the NetCDF file"])

prop("C15", "Interrupted operator generation resumes to the same file",
 "If generating the perpendicular-operator coefficients is interrupted at any point (an error or keyboard interrupt, after which the file is closed), re-opening the file and running it again gives exactly the coefficients of an uninterrupted run for every plane. Planes from which the run had moved on are not computed again, and a plane that was not completely written is. Running it once more on a complete file changes nothing.",
 ["crash_points", "histories"], "all numbers of planes and all interruption points, repeated any number of times",
 "No test interrupts the generation.",
 ["zoidberg/zoidberg.py"], [("progress counter", "number of completed planes, stored in the file", "zoidberg/zoidberg.py MapWriter.add_dagp")], [("resume loop", "zoidberg/zoidberg.py MapWriter.add_dagp")], ["coefficients in the NetCDF file, planes handed to the coefficient calculation"])

prop("C16", "Finite-volume perpendicular operator is exact on uniform cells",
 "For a rectangular poloidal grid the coefficients are those of the exact finite-volume operator: cell volume dR*dZ (times R in toroidal geometry), face flux coefficients equal to face area over point distance, no cross terms, the same at the periodic z seam as elsewhere. For any grid the written arrays have the grid's shape and the flux leaving one cell through a face enters its neighbour, so the volume integral changes only through the radial boundaries. Applied to a constant the operator gives zero and applied to a linear function of x or z the interior result is exact.",
 ["inputs", "configurations"], "all rectangular and curvilinear grids, slab or toroidal",
 "The tests compare with a manufactured solution at moderate tolerance on a few grids, so seam, cross-term and volume errors hide.",
 ["zoidberg/stencil_dagp_fv.py"], [("coefsX, coefsZ, volume", "face coefficients and cell volumes", "zoidberg/stencil_dagp_fv.py doit")], [("coefficient calculation", "zoidberg/stencil_dagp_fv.py doit")], ["dictionary returned by doit"])

prop("C17", "A periodic R-Z line is a faithful closed curve through its points",
 "A line built from points passes through each of them at its angle, is periodic, goes anticlockwise when asked whatever the input orientation, and its polygon position is on the straight segment between the two neighbouring points, proportionally to the angle, for any angle including negative ones. Distances along the line start at 0, never decrease and end at the total length, with weights counting the parts of the line accordingly; resampling an anticlockwise line to n points gives n points on it with equal spacing along the line (exactly for polygons, to interpolation accuracy for smooth curves), starting at the same point. The closest-point search returns an angle in [0,2pi) whose point is at least as close as the nearest given point.",
 ["inputs"], "all point sets of either orientation, all angles, resampling counts and query points",
 "Tests use one circle; orientation, negative angles, wrap-around and polygons with unequal edges are not exercised.",
 ["zoidberg/rzline.py"], [("R, Z, theta", "control points and their angles", "zoidberg/rzline.py RZline.__init__")], [("polygon interpolation", "zoidberg/rzline.py RZline.positionPolygon"), ("arc length", "zoidberg/rzline.py RZline.distance")], ["return values of the RZline methods"])

prop("C18", "Ordering a cloud of points keeps exactly those points",
 "For points in general position every line-from-points routine returns a closed line whose points are exactly the given points, each once, going anticlockwise. For points of a convex curve in any order the fast, convex-hull and two-opt routines return them in their order around the curve (the nearest-neighbour routine too when they are roughly evenly spaced), so the result does not depend on the input order. For any points the nearest-neighbour routine returns a line no longer than the nearest-neighbour tour from any of the points, and two-opt one no longer than the order by angle. The input arrays are left unchanged.",
 ["inputs"], "all point sets and all permutations of them, all construction routines",
 "Tests use one ordering of one circle; which permutations fail depends on the insertion order.",
 ["zoidberg/rzline.py"], [("partial line", "points placed so far", "zoidberg/rzline.py line_from_points_poly")], [("point insertion and nearest neighbour search", "zoidberg/rzline.py line_from_points*")], ["R, Z of the returned line and the input arrays"])

prop("C19", "Finite differences are exact to their order on every axis",
 "The second-order difference is the exact index derivative of linear functions everywhere (of quadratic functions away from the ends) and the fourth-order difference of quartic polynomials everywhere including the edge points, along any axis of an array of any dimension. With the periodic option the same stencil is applied cyclically at every point, so that the sum over the axis is zero and shifting the input shifts the output. The input array is not modified and other axes do not mix.",
 ["inputs", "configurations"], "all polynomials up to the order, array shapes, axes and both boundary options",
 "Tests check convergence order with smooth functions in one dimension at loose tolerance.",
 ["zoidberg/diff.py"], [("out", "derivative array", "zoidberg/diff.py c4")], [("edge stencils", "zoidberg/diff.py c2, c4")], ["return values of c2 and c4"])

prop("C20", "Magnetic field objects give consistent directions and stay separate",
 "For every field the direction is (R*Bx/By, R*Bz/By) in cylindrical and (Bx/By, Bz/By) in Cartesian geometry, in flattened and plain form alike, and the magnitude is the root of the sum of squares. A point where By is (almost) zero is refused with an error even if other points of the query are fine. Creating or using one field object never changes what another reports, including its attributes.",
 ["inputs", "histories", "configurations"], "all field classes and parameters, points and any sequence of constructions",
 "Tests evaluate a couple of fields alone; interference between objects and mixed queries never occur.",
 ["zoidberg/field.py"], [("attributes", "named quantities written to the grid file", "zoidberg/field.py MagneticField"), ("By, Bz, ...", "field parameters", "zoidberg/field.py Slab")], [("direction", "zoidberg/field.py MagneticField.field_direction")], ["return values of the field functions"])

prop("C21", "An equilibrium file's field is the field of its flux function",
 "A field read from an equilibrium (g-eqdsk) file reports the poloidal flux of the file at each R,Z of the file's mesh, BR = -1/R dpsi/dZ and BZ = 1/R dpsi/dR up to one common sign, and the toroidal field f/R with f from the file's profile at the point's normalised flux inside the plasma boundary and the vacuum (edge) value outside; the pressure likewise. A file without plasma boundary or wall is accepted. Field lines therefore stay on surfaces of constant flux. Its limiter or wall polygon, when present, is its boundary.",
 ["inputs", "configurations"], "all equilibrium files including non-square and up-down asymmetric ones, all points in the mesh",
 "No test reads an equilibrium file.",
 ["zoidberg/field.py"], [("psi_func", "flux interpolation", "zoidberg/field.py GEQDSK")], [("file reading", "zoidberg/field.py GEQDSK.__init__")], ["return values of the field functions of a field read from a generated file"])

prop("C22", "Curve smoothing keeps the curve closed and equally long",
 "Smoothing a closed curve returns arrays of the same length with finite values, leaves curves without sharp corners unchanged and points away from the corners where they were, and replaces the neighbourhood of each sharp corner by a piece that joins the rest. A curve where half or more of the points would have to be replaced is refused. The result does not depend on which point the arrays start with (it is shifted accordingly) and smoothing never fails because a corner lies at an end of the arrays.",
 ["inputs", "configurations"], "all closed curves with more points than four times the search distance, corner positions, cutoffs, distances and starting points",
 "The test uses one curve with fixed corner positions.",
 ["zoidberg/smooth.py"], [("r, z arrays", "closed curve", "zoidberg/smooth.py")], [("corner search and replacement", "zoidberg/smooth.py smooth")], ["return value of smooth"])

prop("C23", "Generated poloidal grids fill the region between their lines",
 "An annular or elliptic grid has exactly the requested number of points, its first radial row lies on the inner line and its last on the outer line (with the requested number of extra rows extrapolated beyond), and all its cells have the same orientation, so no cell is folded. This holds at every resolution, above and below the one where a coarse grid is made first, for both ways of matching the lines; the spacing limit for the inner points is kept, and moving or turning both lines moves or turns the grid. The points between the lines satisfy the elliptic grid equations to the requested tolerance. The annular grid interpolates linearly between the lines at equal angles. Grids are built the same way whether coordinates or a grid object are requested.",
 ["inputs", "configurations"], "all pairs of nested, mildly shaped lines, resolutions (also above the coarsening limit) and options",
 "Tests build one grid and check nothing about where its points lie.",
 ["zoidberg/poloidal_grid.py"], [("R, Z", "grid points", "zoidberg/poloidal_grid.py grid_elliptic")], [("elliptic solver", "zoidberg/poloidal_grid.py grid_elliptic"), ("linear annulus", "zoidberg/poloidal_grid.py grid_annulus")], ["R, Z of the returned grid"])

prop("C24", "Volume element and field-line lengths are right and chunk-independent",
 "For each cell the stored By is the toroidal field on that cell's field line at the cell centre and half a plane to either side, the stored length is that of the field line through the cell over one plane spacing (for the low/high versions, shifted by half a spacing), and the Jacobian is the poloidal area element times the flux-tube average of R*B0/B along it. None of them depends on how many chunks the calculation is split into, all lines are followed with the requested accuracy, and a Cartesian slab gets no Jacobian or length.",
 ["inputs", "configurations"], "all grids with equally spaced planes, fields in cylindrical geometry, chunk counts (including more chunks than points) and refinements",
 "Tests compare total volume at percent level for one or two fields with the default chunking.",
 ["zoidberg/zoidberg.py", "zoidberg/diff.py"], [("J, Ly, By", "per-cell volume element, length and field", "zoidberg/zoidberg.py make_maps")], [("flux tube integration", "zoidberg/zoidberg.py make_maps"), ("length", "zoidberg/diff.py field_line_length")], ["dictionary returned by make_maps"])

prop("C25", "Fields and lines from external services are what the service answered",
 "A field line followed with fusionsc has the start position first and then the answered position at each requested y, in the requested order and direction; a requested relative tolerance is sent as the target error of that call only and leaves the options given at construction unchanged. A field of fusionsc, and a W7-X field evaluated by the web service on demand or tabulated, has the answered field in cylindrical components at each point; a request that fails is repeated once, a second failure is passed on to the caller, and a table is reused only for the same configuration and mesh, so that a failed request never leaves a table behind. The default table mesh covers the domain with the requested number of points, and the coil currents sent are those asked for.",
 ["inputs", "histories", "crash_points"], "all start points, y sequences, tolerances, configurations, meshes, and every sequence of successful and failed requests",
 "The services are not reachable from the tests, so none of this code is run by them.",
 ["zoidberg/field.py", "zoidberg/fieldtracer.py"], [("table file", "stored answer of the field service", "zoidberg/field.py W7X_vacuum"), ("options", "options of the fusionsc tracer", "zoidberg/fieldtracer.py FusionSCTracer")],
 [("requests to the field service", "zoidberg/field.py W7X_vacuum, W7X_vacuum_on_demand, W7X_VMEC"), ("requests to fusionsc", "zoidberg/fieldtracer.py FusionSCTracer")], ["fields and lines returned with stand-ins for the services, which record what they are asked"])

prop("C26", "A VMEC equilibrium's field is that of its Fourier series",
 "For a VMEC file the flux surfaces are R = sum rmnc cos(m u - n v), Z = sum zmns sin(m u - n v), the field strength components are the sums of their own modes averaged from the half to the full mesh, and the field returned at a position has the radial, toroidal and vertical components of dX/du B^u + dX/dv B^v there. Outside the last surface the field is purely toroidal, the field repeats with every turn and every field period, and R is the major radius.",
 ["inputs", "configurations"], "all sets of modes (including negative toroidal ones), numbers of surfaces, resolutions, positions and toroidal angles",
 "No test reads a VMEC file.",
 ["zoidberg/field.py"], [("br, bz, bphi, r_real, z_real", "field and positions on the real-space mesh", "zoidberg/field.py VMEC")], [("Fourier sums and interpolation", "zoidberg/field.py VMEC")], ["attributes and Bxfunc/Byfunc/Bzfunc of a VMEC object read from a file written by the check"])

prop("C27", "Dommaschk fields are vacuum fields with the given harmonics",
 "A Dommaschk potential's field is divergence and curl free, repeats with every turn, is B_0 in the toroidal direction at the major radius for no harmonics, is proportional to B_0, is the superposition of the fields of its coefficients, and has, on the cylinder R = R_0 (where the potentials are known in closed form), the values of the harmonics it was given.",
 ["inputs", "configurations"], "all coefficient tables up to the explored mode numbers, all positions, R_0 and B_0",
 "One test compares a single slab of a single configuration.",
 ["zoidberg/field.py"], [("A", "table of coefficients", "zoidberg/field.py DommaschkPotentials")], [("recursive potentials", "zoidberg/field.py DommaschkPotentials CD, CN, D, N, V, U")], ["Bxfunc, Byfunc and Bzfunc of DommaschkPotentials"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
