import json
P=[]
F="src/harmonica/"
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[F+f for f in files],mechanism=[dict(name=m[0],where=F+m[1]) for m in mech],observe_at=observe,hook_needed=None)))

p("C01","Point-mass gravity equals the closed form in both coordinate systems",
 "For every set of point masses and every observation point away from them, point_gravity returns G*sum(m/l) and its gradient and second derivatives: potential in J/kg, g_e and g_n (positive east and north) and g_z (positive downward) in mGal, and the six tensor components (z downward, either index order accepted) in Eotvos. In spherical coordinates potential and g_z (opposite of the radial component at the observation point) agree with the same masses placed in geocentric Cartesian coordinates, for any longitude convention and at the poles. The distances these rest on are the Euclidean ones in Cartesian, spherical and geodetic coordinates.",
 ["inputs"],"all masses (any sign), all positions, all fields, both coordinate systems, all array shapes of coordinates",
 "Tests check a few fixed symmetric positions per field; a sign, factor or wrap error limited to some quadrant, field alias or shape needs generated geometry.",
 ["_forward/point.py","_forward/utils.py"],[("kernel selection, sign inversion and unit conversion","_forward/point.py"),("spherical distance","_forward/utils.py")],["point_gravity return value"])
p("C02","Rectangular-prism gravity equals the exact Newtonian integral everywhere",
 "For every collection of valid prisms and every observation point (outside, inside, on a face, on an edge or vertex, or on the prolongation of a face or edge), prism_gravity returns the integral of the point-mass field over the prisms: potential in J/kg, g_e, g_n and downward g_z in mGal, and the six tensor components (z downward) in Eotvos. Tensor components are NaN exactly where they are singular and are finite everywhere else.",
 ["inputs"],"all prisms (any aspect ratio, position, density sign), all observation points, all fields",
 "Tests use a handful of prisms and symmetric points; wrong branches for points aligned with faces, edges and vertices, or for specific quadrants, need a search over the arrangement of point and prism.",
 ["_forward/prisms/gravity.py","_forward/prisms/utils.py"],[("field dispatch, sign and units, singular-point handling","_forward/prisms/gravity.py")],["prism_gravity return value"])
p("C03","Magnetic field of prisms equals that of their uniform magnetization",
 "For every collection of prisms with arbitrary magnetization vectors and every observation point outside them (planes of faces and prolongations of edges included), prism_magnetic returns, in nT, the field B of the uniformly magnetized bodies (easting, northing, upward), given by Poisson's relation applied to the prism's gravity tensor, and NaN inside or on an edge of a magnetized prism, where it is not defined. field='b' is exactly the tuple of the three single-component results.",
 ["inputs"],"all prisms, magnetization vectors, observation points, field selections",
 "Tests check symmetric arrangements and single axes; mixed magnetizations and general positions that reveal an exchanged component or wrong sign are not sampled.",
 ["_forward/prisms/magnetic.py"],[("b vs single components","_forward/prisms/magnetic.py")],["prism_magnetic return value"])
p("C04","Dipole magnetic field equals the closed form",
 "For every set of dipoles (location and moment vectors) and every observation point away from them, dipole_magnetic returns in nT the sum of mu0/(4 pi) (3 (m.r) r/|r|^5 - m/|r|^3), each single component agreeing with the tuple returned for field='b'.",
 ["inputs"],"all dipole sets, moments, observation points and field selections",
 "Tests sample a few moments along axes; a general direction or many-dipole accumulation error is not reached.",
 ["_forward/dipole.py"],[("field dispatch","_forward/dipole.py")],["dipole_magnetic return value"])
p("C05","Every forward model obeys superposition, and null bodies contribute nothing",
 "For every forward model (points, dipoles, prisms gravity and magnetic, tesseroids, ellipsoids gravity and remanent-magnetic), the field of a set of bodies is the sum of the fields of any partition of it, scales linearly with density, mass or magnetization, and does not depend on the order of bodies or of observation points. Bodies with zero volume or zero physical property leave the result unchanged wherever the observation point is; for prisms, tesseroids and ellipsoids also on or in the null body itself.",
 ["inputs"],"all body sets, partitions, permutations, scale factors, insertion positions of null bodies, observation points",
 "Tests use one or two bodies and only a fixed null prism; index-mixing between body arrays and property arrays after discarding needs null bodies in arbitrary positions.",
 ["_forward/point.py","_forward/dipole.py","_forward/prisms/gravity.py","_forward/prisms/magnetic.py","_forward/tesseroid_gravity.py","_forward/_tesseroid_utils.py","_forward/ellipsoids/gravity.py","_forward/ellipsoids/magnetic.py"],
 [("discard of null prisms","_forward/prisms/gravity.py"),("discard of null prisms","_forward/prisms/magnetic.py"),("discard of null tesseroids","_forward/_tesseroid_utils.py")],["return values of the forward models"])
p("C06","Tesseroid gravity is accurate for every valid tesseroid, however expressed",
 "For every valid tesseroid (any size up to a full shell, any latitude, any longitude convention) and every point on or above its surface or outside it, potential and g_z agree with the exact integral within the method's accuracy (about 0.1 percent; a few percent for tesseroids wider than 60 degrees, reaching a pole or with points near their edges; tesseroids that are thick compared with their sides need three-dimensional discretization, which may raise an overflow error at points touching them). The result does not change when longitudes of tesseroid or points are expressed in another equivalent convention, when everything is rotated in longitude, or (within the accuracy) when the tesseroid is cut into smaller ones or three-dimensional discretization is switched on.",
 ["inputs"],"tesseroids from metre-thin to full spherical shells, wrap-around boundaries, observation heights from the surface to satellite altitude, both fields, both discretization modes",
 "Tests compare with a few spherical shells made of regular pieces; wide, polar, wrapping or asymmetrically placed tesseroids and points are not sampled.",
 ["_forward/tesseroid_gravity.py","_forward/_tesseroid_utils.py"],[("adaptive discretization","_forward/_tesseroid_utils.py"),("longitude continuity","_forward/_tesseroid_utils.py"),("Gauss-Legendre quadrature","_forward/_tesseroid_utils.py")],["tesseroid_gravity return value"])
p("C07","Tesseroids with a density function match the radially varying mass distribution",
 "For every smooth density function of radius (with few extremes inside the tesseroid) given to tesseroid_gravity, a constant function gives the same field as the constant density, the field is linear in the function, and the result agrees with a stack of thin constant-density tesseroids sampling the function within the method's accuracy. Tesseroids of zero volume contribute nothing for a density function as they do for constant densities.",
 ["inputs"],"constant, linear, exponential, sinusoidal and sigmoid density functions; tesseroid geometries; observation points",
 "Tests use shells with two function families at fixed sizes.",
 ["_forward/_tesseroid_variable_density.py","_forward/tesseroid_gravity.py"],[("density-based discretization","_forward/_tesseroid_variable_density.py")],["tesseroid_gravity return value"])
p("C08","Forward models reject exactly the invalid models",
 "With checks enabled, prism, tesseroid, point, dipole and ellipsoid forward models raise ValueError (NotImplementedError for undefined spherical components) for every invalid body (boundaries out of order or range, longitudinal span above one turn), every observation point strictly inside a tesseroid under any longitude convention (points on the polar axis aside), every size mismatch between bodies and properties and every unknown field or coordinate system, and accept every valid combination. An invalid element is detected wherever it is in the arrays; points touching the surface of a tesseroid are not taken as inside.",
 ["inputs"],"valid models perturbed by one defect of each class at an arbitrary position; observation points around tesseroid boundaries",
 "Tests check one example of each error, usually with the bad element first.",
 ["_forward/_tesseroid_utils.py","_forward/prisms/utils.py","_forward/prisms/gravity.py","_forward/prisms/magnetic.py","_forward/point.py","_forward/dipole.py","_forward/tesseroid_gravity.py"],[("tesseroid checks","_forward/_tesseroid_utils.py"),("prism checks","_forward/prisms/utils.py")],["exceptions raised"])
p("C09","Results do not depend on how the computation is executed or inputs are packaged",
 "For the same model, every forward model gives the same result (to rounding) with parallel on or off, with progress bar on or off, with checks of a valid model on or off, and compiled or interpreted, for any packaging of the inputs (scalars, lists, arrays of any shape, order or layout, integer or double precision values). The output has the broadcast shape of the coordinates and the requested dtype (which rounds the result without changing how it is computed), and no input array is modified.",
 ["inputs","configurations","schedules"],"all forward models x parallel flag x JIT on/off x dtype x shapes/layouts/containers",
 "Tests compare parallel and serial on one model per function and never check input immutability or memory layouts systematically.",
 ["_forward/point.py","_forward/dipole.py","_forward/prisms/gravity.py","_forward/prisms/magnetic.py","_forward/tesseroid_gravity.py","_forward/ellipsoids/gravity.py","_forward/ellipsoids/magnetic.py","_spherical_harmonics/igrf.py"],[("serial and parallel dispatchers","_forward/prisms/gravity.py"),("dispatcher","_forward/tesseroid_gravity.py")],["return values, their shape and dtype; input arrays after the call"])
p("C10","A prism layer's gravity equals that of its explicit prisms",
 "For every prism layer (any grid spacing, surface above or below the reference, array or scalar reference, NaN cells) the layer's gravity for any field, density name and thickness threshold equals prism_gravity applied to the explicit list of cell prisms, leaving out cells with NaN top, bottom or density and, when given, cells thinner than the threshold. Each cell's prism spans half a spacing around its coordinates and lies between surface and reference whichever is above, with the cell's own density.",
 ["inputs"],"all layers, including integer-valued surfaces or references, zero-thickness, NaN and zero-density cells, any field and threshold",
 "Tests use small regular layers with smooth surfaces; per-cell index mixing needs non-square grids with distinct values and masked cells.",
 ["_forward/prisms/layer.py"],[("layer accessor gravity","_forward/prisms/layer.py"),("update_top_bottom","_forward/prisms/layer.py")],["prism_layer accessor gravity"])
p("C11","A tesseroid layer's gravity equals that of its explicit tesseroids",
 "For every tesseroid layer the layer's gravity for any supported field equals tesseroid_gravity applied to the explicit list of cell tesseroids, leaving out cells with NaN top, bottom or density, each tesseroid spanning half a spacing around its longitude and latitude between surface and reference whichever is above. Layers that span exactly one turn are accepted.",
 ["inputs"],"all tesseroid layers, scalar or array references, NaN and zero-density cells, longitude conventions, both fields",
 "Tests use one small grid; masked cells, mixed over/under reference and longitudes beyond 180 degrees are not sampled together.",
 ["_forward/tesseroid_layer.py"],[("layer accessor gravity","_forward/tesseroid_layer.py")],["tesseroid_layer accessor gravity"])
p("C12","Layer geometry stays consistent through construction, updates and export",
 "Through any history of updates to a prism or tesseroid layer, top is never below bottom, the interval between them is exactly the one between the last given surface and reference in every cell, properties keep their values, and dims, size, shape, spacing and boundaries describe the same cells that the single-body accessor returns. A layer exported to a PyVista mesh has one hexahedron per cell without missing values, with that cell's bounds and properties.",
 ["inputs","histories"],"all layer shapes, all sequences of update_top_bottom with scalar/array/integer/float/NaN surfaces and references, all indices",
 "Tests exercise one update and a few indices.",
 ["_forward/prisms/layer.py","_forward/tesseroid_layer.py","visualization/_prism.py"],[("update_top_bottom","_forward/prisms/layer.py"),("get_prism","_forward/prisms/layer.py"),("mesh export","visualization/_prism.py")],["layer dataset and accessor values","PyVista grid cells"])
p("C13","Ellipsoid gravity equals the exact field for every shape and orientation",
 "For every homogeneous ellipsoid (any semi-axes order, including spheres and spheroids, any rotation and centre) and every observation point inside or outside, ellipsoid_gravity returns the potential-theory gravitational acceleration (easting, northing, upward) in mGal. Rounding grows with the elongation of the body and the distance to it. The result varies continuously across the surface and through the spherical and spheroidal limits, and depends on the body only, not on which axes and angles describe it.",
 ["inputs"],"axis ratios from needles to discs, nearly equal axes, arbitrary rotations, points inside, on, near and far from the surface",
 "Tests compare with spheres and a few shapes; general orientations, near-degenerate ratios and points near symmetry planes are not searched.",
 ["_forward/ellipsoids/gravity.py","_forward/ellipsoids/utils.py"],[("semi-axes sorting and rotation","_forward/ellipsoids/utils.py"),("elliptic integrals","_forward/ellipsoids/utils.py")],["ellipsoid_gravity return value"])
p("C14","Ellipsoid magnetic field solves the uniform-magnetization boundary problem",
 "For every ellipsoid with isotropic or tensor susceptibility and remanent magnetization under a uniform inducing field, ellipsoid_magnetic returns in nT the secondary field of the uniform magnetization M that satisfies M = chi (H0 - N M) + Mr, with N the demagnetization tensor of the body, susceptibility tensors given in the axes of the body and remanence along easting, northing and upward: outside it is the field of that magnetized body, inside it is mu0 (M - N M). The result depends only on the body and its tensors expressed in the body axes, for any rotation, axes order and limit shape.",
 ["inputs"],"shapes and orientations as C13; isotropic and anisotropic (including non-commuting and large) susceptibility; any inducing field; points inside and outside",
 "Tests check spheres, isotropic values and a few symmetries; anisotropic tensors that do not commute with the demagnetization tensor are not compared with an independent solution.",
 ["_forward/ellipsoids/magnetic.py","_forward/ellipsoids/utils.py"],[("magnetization solve","_forward/ellipsoids/magnetic.py"),("demagnetization tensors","_forward/ellipsoids/magnetic.py")],["ellipsoid_magnetic return value"])
p("C15","An Ellipsoid always reflects its last valid assignment",
 "Through any history of attribute assignments to an Ellipsoid, every invalid value (non-positive semi-axis, ill-shaped susceptibility or remanence) is rejected leaving the object as it was, every valid one is read back unchanged, derived quantities (rotation matrix, centre) follow the current attributes, and its fields equal those of a new Ellipsoid built from the current values. The rotation matrix is always a proper rotation equal to yaw, then pitch (lifting the first axis), then roll.",
 ["histories","inputs"],"all sequences of constructor and setter calls, valid and invalid values",
 "Tests assign one attribute at a time.",
 ["_forward/ellipsoids/ellipsoids.py","_forward/utils.py"],[("property setters","_forward/ellipsoids/ellipsoids.py")],["attributes and forward fields"])
p("C16","FFT transformations apply their documented transfer function",
 "For every regular grid and any padding switched off, derivatives in easting, northing and upward of every order, upward continuation, Gaussian low- and high-pass filters act on each spatial frequency of the grid exactly as documented ((ik)^n, |k|^n, exp(-|k| h), Gaussian of the cutoff and its complement). Consequently they are linear, commute, compose (orders and heights add, but for horizontal derivatives of the highest frequency of even sizes), and low-pass plus high-pass returns the input.",
 ["inputs"],"grids of any even or odd shape and anisotropic spacing, all frequencies, orders, heights and wavelengths",
 "Tests compare analytic anomalies within loose tolerances on square grids with equal spacing; exchanges between axes and frequency-dependent errors hide below the tolerance.",
 ["filters/_filters.py","filters/_fft.py","filters/_utils.py","_transformations.py"],[("kernels","filters/_filters.py"),("apply_filter","filters/_utils.py")],["transformed grids"])
p("C17","Grid transformations keep the grid and their arguments intact",
 "For every valid grid every transformation returns a grid with the same shape, dims and dimension coordinates in the same order as the input, real-valued, without altering the input grid or any argument, and independent of earlier calls; with padding, the result equals that of padding explicitly, transforming without padding, and cropping. Grids that are not 2D, contain NaN or are not regular, and invalid parameter combinations, are rejected with an error instead of giving numbers.",
 ["inputs","histories"],"all grid shapes, coordinate names, origins, padding settings (on, off, modes, widths), call sequences sharing arguments",
 "Tests use one square grid with default padding; shared pad options and small or elongated grids are not sampled.",
 ["_transformations.py","filters/_utils.py","filters/_fft.py"],[("apply_filter","filters/_utils.py"),("grid sanity checks","filters/_utils.py")],["returned grids; arguments after the call"])
p("C18","Reduction to the pole matches the pole response for every direction",
 "For every regular grid and all field and magnetization inclinations (5 degrees or more) and declinations (magnetization defaulting to the field direction), reduction_to_pole maps the unpadded anomaly of every spatial frequency for those directions to the one of vertical field and magnetization, is the identity (apart from the mean) for vertical directions, and is undone by the inverse phase relation; it is linear and real.",
 ["inputs"],"all inclinations and declinations away from the equator singularity, defaults and explicit magnetization, grids of any shape and spacing",
 "Tests use one direction pair against a dipole model with wide tolerance and always pass the magnetization angles.",
 ["filters/_filters.py","_transformations.py"],[("reduction to the pole kernel","filters/_filters.py")],["reduction_to_pole return value"])
p("C19","Derivative-based quantities satisfy their definitions",
 "For every regular grid the finite-difference horizontal derivatives are exact for linear trends and second-order accurate centred differences elsewhere, with orders applied repeatedly; total_gradient_amplitude is the Euclidean norm of the three derivatives, and tilt_angle the angle in radians between the upward derivative and the horizontal gradient, within [-pi/2, pi/2], invariant to positive scaling and changing sign with the data.",
 ["inputs"],"all grids, orders and methods",
 "Tests compare one synthetic anomaly.",
 ["_transformations.py","_utils.py"],[("derivatives, tilt and total gradient","_transformations.py")],["return values"])
p("C20","Magnetic vector and angle conversions are exact inverses",
 "For every vector, magnetic_vec_to_angles gives intensity, inclination (positive down, in [-90, 90]) and declination (clockwise from north, in [-180, 180]) from which magnetic_angles_to_vec recovers the vector, and vice versa for all angles, in degrees or radians, for scalars and arrays. total_field_anomaly is the projection of the anomalous field on the unit vector of the given main-field direction, for scalar or array directions.",
 ["inputs"],"all vectors incl. vertical, horizontal, axis-aligned and zero components; all angles; all shapes",
 "Tests use a small table of vectors.",
 ["_utils.py"],[("conversions","_utils.py")],["return values"])
p("C21","Bouguer correction equals the gravity of the layer it removes",
 "For every topography value the Bouguer correction is 2 pi G times thickness times the density contrast in mGal: crustal density on land (positive heights), and crustal minus water density, giving a negative value, over water (negative heights), elementwise for arrays and grids of any type and shape, preserving coordinates and not altering the input.",
 ["inputs"],"all topographies (sign changes, zero, NaN, integer types), densities and containers",
 "Tests check a few values.",
 ["_gravity_corrections.py"],[("bouguer_correction","_gravity_corrections.py")],["return value"])
p("C22","Airy Moho depths balance the column masses",
 "For every basement, set of additional layers, densities and reference depth, isostatic_moho_airy returns the Moho depth whose root or antiroot makes the column's mass equal to the reference column's: reference depth plus the Airy root of the equivalent topography, elementwise for scalars, integer and float arrays and xarray grids, without altering its inputs, and independently of the order of the layers.",
 ["inputs"],"all basements (positive and negative), layers with scalar or array thickness and density, any numeric dtype, order of layers",
 "Tests use fixed float arrays with one or two layers.",
 ["_isostasy.py"],[("isostatic_moho_airy","_isostasy.py")],["return value and arguments"])
p("C23","ICGEM grids are read as written or rejected",
 "For every well-formed ICGEM calculation-service grid file, load_icgem_gdf returns every data column on its own latitude and longitude with its name, units and header attributes (and height when the file has a constant one), whatever the grid shape, column selection or numeric type; a file whose header, number of points or area does not match its data is rejected with an error.",
 ["inputs","fault_sequences"],"all grid shapes, column sets, values, usecols selections, region limits; corruptions by dropping, adding or altering header fields or data lines",
 "Tests read two sample files and a few corrupted versions.",
 ["_io/icgem_gdf.py"],[("header and data parsing","_io/icgem_gdf.py")],["returned dataset or exception"])
p("C24","Oasis Montaj grids are read as written or rejected",
 "For every valid uncompressed or compressed Oasis Montaj .grd file (all element types, both storage orders, rotation, base/scale factors, dummies) load_oasis_montaj_grid returns each value at its own coordinates, with dummies as NaN and rotation reported with correct rotated coordinates; unsupported or truncated files raise a clear error rather than returning wrong values.",
 ["inputs","fault_sequences"],"all element types and sizes, orderings, shapes, rotations, dummies, compression block layouts; truncated or inconsistent files",
 "Tests read a handful of sample files, all produced with one setup each.",
 ["_io/oasis_montaj_grd.py"],[("header reader, decompression, ordering and dummies","_io/oasis_montaj_grd.py")],["returned DataArray or exception"])
p("C25","IGRF field equals the spherical-harmonic synthesis of its coefficients",
 "For every date, degree range, ellipsoid of revolution and geodetic point away from the poles, IGRF14 returns in nT the (east, north, up) field that is minus the gradient of the geomagnetic potential of its coefficients, evaluated at the point's geocentric position and expressed along the ellipsoid's local directions. predict and grid agree at the same points, the fields of complementary degree bands add up to the full field, and outputs have the shape of the coordinates.",
 ["inputs","configurations"],"all dates, min/max degrees, ellipsoids, positions, shapes, regions and grid specifications",
 "The IGRF tests need a download, run only at fixed points, and use the default degrees and ellipsoid.",
 ["_spherical_harmonics/igrf.py","_spherical_harmonics/legendre.py"],[("field synthesis","_spherical_harmonics/igrf.py"),("geodetic rotation","_spherical_harmonics/igrf.py")],["IGRF14.predict and IGRF14.grid"])
p("C26","IGRF coefficients are read and interpolated in time exactly",
 "For every coefficient file in the classic text format, loading returns each coefficient at its epoch, degree and order, and for every date from the first epoch until five years after the last the interpolated coefficients are piecewise linear in time, equal to the tabulated ones at each epoch and extrapolated with the secular variation after the last. Dates outside are rejected, and equivalent ways of giving a date (text, datetime, time zone offsets) give the same coefficients.",
 ["inputs"],"all dates (leap years, epoch boundaries, last epoch), degrees, coefficient tables",
 "Tests check the real file at a few dates.",
 ["_spherical_harmonics/igrf.py"],[("load_igrf","_spherical_harmonics/igrf.py"),("interpolate_coefficients","_spherical_harmonics/igrf.py")],["coefficients"])
p("C27","Associated Legendre functions match their definition for all degrees and orders",
 "For every argument in [-1, 1] and every maximum degree, the unnormalized, Schmidt quasi-normalized and fully normalized associated Legendre functions equal their mathematical definition without Condon-Shortley phase, their derivatives with respect to the colatitude are the true derivatives, and only entries with order up to degree are written.",
 ["inputs"],"arguments including the ends and zero, all degrees and orders to high degree",
 "Tests compare a few degrees with tabulated formulas.",
 ["_spherical_harmonics/legendre.py"],[("recursions","_spherical_harmonics/legendre.py")],["output arrays"])
p("C28","Euler deconvolution recovers every homogeneous source and obeys its symmetries",
 "For every field that exactly satisfies Euler's homogeneity equation for the given structural index, EulerDeconvolution recovers the source position and base level, for any number (five or more), order, shape and scatter of the observations that determines them. Its solution is unchanged by scaling the field, moves with the coordinates, and its base level follows any constant added to the field; the covariance is symmetric and vanishes for perfect data.",
 ["inputs"],"source positions, indices, base levels, observation layouts",
 "Tests use one dipole and one monopole on a grid.",
 ["_euler_methods.py"],[("least-squares system","_euler_methods.py")],["fitted attributes"])
p("C29","Euler inversion recovers the source and selects the right structural index",
 "For every field that exactly satisfies Euler's equation for one of the candidate structural indices, EulerInversion recovers the source position and base level, keeps the predicted data and gradients consistent with the observed ones, selects from a list of candidates the index with the smallest misfit, whatever their order, and converges to the total least squares solution for noisy data; refitting the same object on new data gives the result of a new object.",
 ["inputs","histories"],"source positions, candidate lists in any order, layouts, refits",
 "Tests use one or two noise realizations with a fixed list.",
 ["_euler_methods.py"],[("Gauss-Newton iterations and index selection","_euler_methods.py")],["fitted attributes"])
p("C30","Equivalent sources predict the field of the sources they fitted",
 "For every data set, EquivalentSources predicts at any point the sum of coefficients over distance to its sources, reproduces noise-free data produced by such sources (and any data with as many sources as data and no damping) where the system is well conditioned, and is linear in the data. Sources lie where the documentation says (below each datum or block by the given depth or default, at given points or at a constant depth), weights and damping solve the documented regularized least-squares problem, and grid, scatter-free profile and predict agree.",
 ["inputs","configurations"],"layouts, depths, depth types, custom points, block sizes, damping, weights, prediction points",
 "Tests use one survey geometry per option.",
 ["_equivalent_sources/cartesian.py","_equivalent_sources/utils.py"],[("fit, predict, jacobian","_equivalent_sources/cartesian.py")],["fitted attributes and predictions"])
p("C31","Spherical equivalent sources predict the field of the sources they fitted",
 "For every data set on a sphere, EquivalentSourcesSph predicts at any longitude, latitude and radius (any numeric type and longitude convention) the sum of coefficients over distance to its sources, reproduces data generated by such sources where the system is well conditioned, is linear in the data, places default sources at the relative depth below each datum, and its grid agrees with predict.",
 ["inputs","configurations"],"layouts incl. the date line and poles, depths, custom points, damping, weights, integer coordinates",
 "Tests use one global grid layout.",
 ["_equivalent_sources/spherical.py"],[("fit, predict","_equivalent_sources/spherical.py")],["fitted attributes and predictions"])
p("C32","Gradient-boosted equivalent sources fit every datum with reproducible windows",
 "For every data set, EquivalentSourcesGB with a source below each datum or block visits windows no larger than the given size that together contain every source and every datum, boosts the residuals of earlier windows within each of them, reports the initial error and one after each window, of which the last is that of its final model on the data, is reproducible for a fixed random state, and predicts the sum of its coefficients over distance to its sources. When one window covers the whole survey it gives the same solution as EquivalentSources with the same parameters.",
 ["inputs","configurations"],"layouts, window sizes (given and default), depths, block sizes, random states",
 "Tests use one regular grid and a few window sizes.",
 ["_equivalent_sources/gradient_boosted.py"],[("window creation and boosting","_equivalent_sources/gradient_boosted.py")],["fitted attributes and predictions"])
p("C33","Equivalent-source estimators keep no trace of earlier calls",
 "Through any history of fit, predict, grid, parameter changes, cloning and memory estimation, an equivalent-source estimator behaves as a new one fitted once with the current parameters on the last data: memory estimates and predictions never change the fitted state or arguments, and refitting leaves nothing of the previous data. The estimated memory is the number of bytes of the largest Jacobian that fitting with those coordinates allocates.",
 ["histories","inputs"],"operation sequences over the three estimators with changing data sizes, parameters, custom points",
 "Tests call fit once per estimator.",
 ["_equivalent_sources/cartesian.py","_equivalent_sources/spherical.py","_equivalent_sources/gradient_boosted.py"],[("estimate_required_memory","_equivalent_sources/gradient_boosted.py"),("estimate_required_memory","_equivalent_sources/cartesian.py")],["predictions and fitted attributes after each operation"])
p("C34","Exported meshes of prisms represent the model they were given",
 "prism_to_pyvista returns an unstructured grid with one hexahedral cell per prism, in the order given, whose eight corners are those of the prism and whose volume is that of the prism, with each property stored unchanged under its name as cell data. It accepts a single prism or any array-like of prisms, rejects properties whose number of values differs from the number of prisms, and leaves its arguments unchanged.",
 ["inputs"],"collections of prisms at any scale and position (flat ones included), packagings, property containers and dtypes, invalid properties",
 "Tests check one small model whose prisms are asymmetric in one way only.",
 ["visualization/_prism.py"],[("corners and connectivity of cells","visualization/_prism.py")],["cells, points and cell data of the mesh"])
p("C35","Warnings are issued exactly when part of a model or result is unusable",
 "A warning is issued when, and only when, something could not be used: once per ellipsoid without the physical property needed (NoPhysicalPropertyWarning), when cells of a layer with defined geometry have missing densities, when prisms of non-zero mass give NaN at singular points of gradient components, when the default window of gradient-boosted sources covers all data (at most 5000), when arguments of grid are ignored (deprecated ones raise ValueError), and once per candidate structural index whose Euler inversion stops at the number of iterations. Results are those of the usable parts alone.",
 ["inputs"],"models with any subset of parts without properties, missing values, observation points on vertices, edges and faces, sizes of data, options of grid, noise and tolerance of inversions",
 "Tests provoke each warning once and rarely check that nothing is issued otherwise or what happens to the other parts.",
 ["_forward/ellipsoids/gravity.py","_forward/ellipsoids/magnetic.py","_forward/prisms/layer.py","_forward/tesseroid_layer.py","_forward/prisms/gravity.py","_equivalent_sources/gradient_boosted.py","_equivalent_sources/cartesian.py","_equivalent_sources/spherical.py","_euler_methods.py"],[("NoPhysicalPropertyWarning","_forward/ellipsoids/gravity.py"),("singular points","_forward/prisms/gravity.py"),("convergence","_euler_methods.py")],["recorded warnings and return values"])
p("C36","Layers and estimators reject exactly the invalid definitions",
 "Building a prism or tesseroid layer raises ValueError for coordinates that are not evenly spaced, surfaces, references or properties whose shape is not that of the layer, and tesseroids overlapping around the globe; updates with wrong shapes are rejected leaving the layer as it was, and the gravity of a layer rejects unknown fields, unknown properties (KeyError) and coordinates edited into irregular ones. Equivalent sources and Euler methods raise ValueError for coordinates, data or weights of different sizes and windows larger than the survey. A defect is detected wherever it is, and every valid definition (descending coordinates, large offsets, whole turns) is accepted.",
 ["inputs"],"valid layers and data sets with one defect of any size at any place, or none",
 "Tests put one defect at a fixed place of one small layer, and never far from the origin.",
 ["_forward/prisms/layer.py","_forward/tesseroid_layer.py","_equivalent_sources/cartesian.py","_equivalent_sources/gradient_boosted.py","_equivalent_sources/spherical.py","_euler_methods.py"],[("_check_regular_grid","_forward/prisms/layer.py"),("_check_overlap","_forward/tesseroid_layer.py")],["exceptions of constructors, update_top_bottom, gravity and fit"])
p("C37","Results of a call never depend on earlier or simultaneous calls",
 "For every history of calls to the functions of the package (forward models, layers, transformations, corrections, conversions, IGRF, Euler methods, equivalent sources, file readers and meshes), each call returns what it returns alone in a new process, whatever was called before, whether argument arrays or files are new or overwritten in place between calls, whether returned arrays were modified, and whether other threads are calling the same functions. Later calls do not change results returned before, and calls leave global state (random numbers, floating-point error handling, warning filters, environment) unaltered.",
 ["histories","schedules"],"histories of calls that differ in single arguments, with arrays and files reused in place or results overwritten; the same calls from several threads",
 "Tests make one call at a time with new arrays; caches and shared workspaces with incomplete keys are invisible to them.",
 ["_forward/point.py","_forward/dipole.py","_forward/prisms/gravity.py","_forward/prisms/magnetic.py","_forward/tesseroid_gravity.py","_forward/_tesseroid_utils.py","_forward/ellipsoids/gravity.py","_forward/ellipsoids/magnetic.py","_transformations.py","filters/_utils.py","_spherical_harmonics/igrf.py","_euler_methods.py","_equivalent_sources/cartesian.py","_io/icgem_gdf.py","_io/oasis_montaj_grd.py"],[("apply_filter","filters/_utils.py"),("gravity of tesseroids","_forward/tesseroid_gravity.py"),("coefficients","_spherical_harmonics/igrf.py")],["return values of every call"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
