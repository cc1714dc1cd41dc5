T = D + "transform/"

p("C01", "Sky to tangent plane and back is the identity",
  "For every telescope pointing above 15 degrees elevation, every date, sidereal time, hexapod rotation and choice of correction switches, converting tangent-plane points of the field to ICRS RA,Dec and back (or sky positions to the tangent plane and back) returns the starting point to a few hundredths of an arcsecond, the residual growing only with tan(Dec) close to the celestial pole. "
  "This includes fields that straddle RA=0/360, arbitrary RA/LST wraps, single values as well as arrays, and both ways of obtaining the polar-misalignment matrix. "
  "The elementary steps (alt/az and HA/Dec, HA/Dec and tangent x,y, refraction and its removal, precession and its removal, aberration and its removal) are each inverses of one another in the same sense.",
  ["inputs", "configurations"], "all pointings with altitude >= 15 deg and |Dec| < 88, dates 1990-2040, all LST, hexapod angles, all switch combinations, all points of a 1.7 deg radius field",
  "test_tan2radec tries one star at one pointing and date with default switches; wraps, low altitude, high declination and every other switch setting are never exercised.",
  [T + "radec2tan.py", D + "trig.py"],
  [("tan2radec mirrors the steps of radec2tan in reverse order", "transform/radec2tan.py:tan2radec"), ("undo_* inverse steps", "transform/radec2tan.py:undo_refraction, undo_aberration, undo_precession_from_icrs, altaz2hadec, xy2hadec")],
  ["return values of the sky/tangent transforms and of each elementary step"],
  "round-trip monitors on the real transforms over seeded pointings, dates and switches")

p("C02", "Tangent-plane coordinates equal the defined sky geometry",
  "The tangent-plane coordinates of a star are those obtained by precessing star and pointing from J2000 at the IAU rate, applying annual aberration, rotating for the fixed polar-axis offset of the mount, raising both by refraction (79 arcsec at 30 degrees elevation, scaling as the cotangent), and projecting the star on the axes pointing to increasing hour angle (+x) and increasing declination (+y) at the refracted pointing, rotated by the hexapod angle. "
  "Each switch removes exactly its own step, the boresight star is at the origin, results do not depend on 360-degree wraps of RA or LST or on whether a star is passed alone or in an array, and the astropy and precomputed-matrix variants agree with the default to within 0.2 arcsec across the field.",
  ["inputs", "configurations"], "all pointings above 10 deg elevation, dates, sidereal times, hexapod angles and switch combinations",
  "The unit tests check signs at one pointing and precession/aberration at one date; no test compares the complete chain with an independent computation or with switches set.",
  [T + "radec2tan.py", D + "trig.py"],
  [("chain of rotations", "transform/radec2tan.py:radec2tan"), ("constants for precession, aberration, refraction, polar axis", "transform/radec2tan.py module constants")],
  ["return values of the sky to tangent-plane transform"],
  "reference-model monitor: independent vector implementation of the chain compared with every observed result")

p("C03", "Tangent plane and focal plane conversions are mutual inverses for all ADC",
  "For every pair of ADC angles (including equal, opposite and multi-turn angles) and every point of the field, converting tangent-plane coordinates to focal-plane millimetres and back, or focal plane to tangent plane and back, returns the starting point to better than 1 micrometre on the focal plane. "
  "Results are finite, are the same element by element whatever the size of the input array, and do not depend on the other points passed in the same call.",
  ["inputs", "configurations"], "all (adc1, adc2) in [-720,720] deg, all tangent points of radius up to the edge of the field, arrays of any length >= 1",
  "test_tan2fp inverts 12 points in one quadrant at one ADC setting to 0.1 arcsec rms.",
  [T + "tan2fp/raytracefit.py", T + "tan2fp/echo22.py", T + "zhaoburge.py"],
  [("polynomials interpolated in the ADC angle difference; iterated inverse", "transform/tan2fp/raytracefit.py:TAN2FP_RayTraceFit.tan2fp/fp2tan"), ("Zhao-Burge distortion transform", "transform/zhaoburge.py:transform, getZhaoBurgeXY")],
  ["tangent/focal-plane conversion results"],
  "round-trip and batching monitors over a seeded ADC x field workload")

p("C04", "Focal-plane distortion follows the ADC geometry and the ray trace",
  "The tangent-plane to focal-plane conversion reproduces the shipped ray-trace table for every tabulated ADC setting to within 10 micrometres at every field point, its inverse does so to within 0.12 arcsec, and the ADC-less model reproduces the design radial plate scale to 1 micrometre. "
  "Shifting either ADC angle by whole turns changes nothing, rotating both ADCs and the sky point together rotates the focal-plane point by the same angle, and the result varies continuously (to a micrometre) with the ADC angles, including where an angle or the angle difference crosses 0 or 360 degrees or the two angles are equal up to rounding.",
  ["inputs", "configurations"], "all ADC angle pairs and field points; every row of the shipped ray-trace and plate-scale tables",
  "The tests compare with the ray trace as an rms at one ADC setting; wraps, continuity and rotations of the ADC pair are not exercised.",
  [T + "tan2fp/raytracefit.py", T + "tan2fp/echo22.py", D + "data/raytrace-tan2fp.json"],
  [("mean and difference of the ADC angles", "transform/tan2fp/raytracefit.py:average_angles_adc, delta_angles_adc"), ("interpolation of fitted coefficients", "transform/tan2fp/raytracefit.py:interpolate_coeffs")],
  ["tangent/focal-plane conversion results"],
  "reference-table and metamorphic (periodicity, equivariance, continuity) monitors")

p("C05", "FVC pixel and focal-plane conversions are mutual inverses",
  "For every camera model the package ships or fits (any scale, rotation, offset, axis flip and admissible distortion), converting FVC pixels to focal-plane millimetres and back, or the reverse, returns the starting point to 1e-3 pixel over the whole camera frame and to 1 micrometre over the whole focal plane. "
  "Results are finite and do not depend on how points are grouped into calls.",
  ["inputs", "configurations"], "all shipped and randomly fitted camera models, all pixels of the 6000x6000 frame that see the focal plane, all focal-plane points of radius < 420 mm",
  "test_fvc2fp inverts a small random sample for one fitted model.",
  [T + "fvc2fp.py", T + "zhaoburge.py"],
  [("reduced coordinates, similarity transform and distortion, iterated inverse", "transform/fvc2fp.py:FVC2FP.fvc2fp, fp2fvc")], ["camera model conversions"],
  "round-trip and batching monitors over shipped, fitted and perturbed models")

p("C06", "Fitting the camera model recovers the true camera from fiducials",
  "When the pixel coordinates of the fiducial pinholes are produced by a known similarity transform plus distortion of the metrology, fitting the camera model maps every spot to its metrology position and every point of the focal plane to its true position, to the noise of the spots. "
  "Every spot with a known fiducial location and pinhole receives exactly that pinhole's metrology position and all others none, the order and the presence of unknown spots do not influence the fit, and with the distortion held fixed only scale, rotation and offset change.",
  ["inputs", "configurations"], "camera scales, rotations, offsets, distortions, spot orders, missing fiducials and extra unmatched spots",
  "test_fvc2fp fits one simulated camera.",
  [T + "fvc2fp.py", T + "zhaoburge.py", D + "io.py"],
  [("association by location and pinhole, then least squares", "transform/fvc2fp.py:FVC2FP.fit"), ("distortion fit", "transform/zhaoburge.py:fitZhaoBurge")], ["fitted model, X_FP_METRO/Y_FP_METRO columns"],
  "simulation oracle: forward camera model known, fit observed; invariance monitors")

p("C07", "Every saved transform reloads to the same transform",
  "Any camera model, field model, tangent-plane correction, planar correction, ray-trace model or desimeter/platemaker map that has been fitted, loaded or set can be written to JSON (string or file) and read back, in the same or a new process, and the reloaded object gives the same results on every input, carries the same fit statistics and can be fitted again like the object that was saved. "
  "Saving twice or saving the reloaded object yields the same content, saving does not change the object, reading does not depend on the order of the keys nor share state between the objects read, and a file describing another kind of transform, another version or a damaged one is rejected instead of being silently accepted.",
  ["inputs", "histories"], "all models reachable by fitting or loading, repeated save/load histories, files and strings",
  "Tests round-trip one camera model and one field model; the two correction classes were never reloaded (their reader rejected what their writer produced).",
  [T + "fvc2fp.py", D + "fieldmodel.py", D + "simplecorr.py", T + "tan2fp/raytracefit.py"],
  [("to/from JSON methods", "fvc2fp.py, fieldmodel.py, simplecorr.py, raytracefit.py: tojson, fromjson")], ["behaviour of the reloaded object"],
  "save/load history monitor comparing behaviour before and after, also across processes")

p("C08", "Petal and focal-plane coordinates are related by one rigid motion",
  "For each of the ten petals the conversion from petal x,y,z to focal-plane x,y,z is the rigid motion given by the petal's alignment (Z-Y-X Euler rotation plus translation), preserves all distances and handedness, is exactly undone by the reverse conversion, and gives the same answer for one point or many. "
  "Petals are selected by their own location number, so points keep their relative geometry and different petals land in their own 36-degree sector.",
  ["inputs", "configurations"], "all ten petals, arbitrary alignment tables, any point",
  "test_pos2ptl compares a few generated points at default alignments; arbitrary alignments, rigidity and inverses are not checked.",
  [T + "ptl2fp.py", D + "io.py", D + "data/petal-alignments.yaml"],
  [("Euler rotation matrix and its transpose", "transform/ptl2fp.py")], ["petal/focal-plane conversions"],
  "reference-model (independent rotation composition) and rigidity monitors")

p("C09", "Focal-surface coordinates R, S, Z, N convert consistently",
  "The conversions between radius R, path length S, sag Z and nutation N interpolate the design table of the focal surface, are monotonic, and each forward/backward pair is the identity over the table's range; arguments outside the table give NaN. The closed-form polynomials for sag and path length follow the same table to 0.5 micrometre between 40 and 405 mm and to 6 micrometres elsewhere on the focal plane. "
  "Conversions between focal-plane x,y and surface q,s and between curved petal and flat positioner coordinates are mutual inverses for every point, keep the polar angle, and S is never smaller than R.",
  ["inputs"], "all radii 0-415 mm (table range to 500 mm), all angles, small offsets from the surface",
  "Only a handful of random points from one generated file are compared; the sag-to-radius direction had never been run.",
  [T + "rszn_lookups.py", T + "xy2qs.py", T + "pos2ptl.py", D + "data/focal_surface_lookup.csv"],
  [("table interpolation", "transform/rszn_lookups.py"), ("polar conversions", "transform/xy2qs.py, pos2ptl.py:ptl2flat, flat2ptl")], ["conversion results"],
  "table-oracle, monotonicity and inverse monitors")

p("C10", "Positioner inverse kinematics always returns a valid nearest solution",
  "For any arm lengths, angle ranges and target, the inverse kinematics returns theta and phi inside the allowed ranges; unless it reports the target as unreachable, the forward kinematics of that answer equals the target to a nanometre, and a target that some in-range pair of angles with phi between 0 and 180 degrees reaches is never reported unreachable. "
  "If no pair of in-range angles reaches the target it is reported unreachable, points outside the annulus of the two arms are reported unreachable and approached as closely as possible when ranges permit, and when a theta guess is given and a valid solution lies within the guess tolerance, the valid solution closest to the guess is chosen.",
  ["inputs", "configurations"], "arm lengths, ranges, targets inside, on the edge of and outside the reachable annulus, theta guesses",
  "test_pos2ptl only compares a small fixed data set generated by the instrument code, all reachable and without guesses.",
  [T + "xy2tp.py"], [("law of cosines plus wrapping into ranges and alternate arm configurations", "transform/xy2tp.py:xy2tp")], ["inverse kinematics result and unreachable flag"],
  "brute-force reference model of the two-arm geometry compared with every observed answer")

p("C11", "Positioner coordinate systems convert consistently in every direction",
  "All conversions between internal and external theta/phi angles, local x,y, flat x,y, and petal x,y follow from the positioner's calibration offsets and arm lengths: each conversion and its reverse are mutual inverses for reachable points, and any composite path gives the same answer as the direct one. "
  "Every conversion gives the same values for a single positioner as for lists or arrays of positioners with per-positioner calibrations, and differences of angles taken with a direction respect that direction and are congruent modulo 360.",
  ["inputs", "configurations"], "calibration offsets, arm lengths, scalar/list/array inputs, all directions of angle difference",
  "test_pos2ptl compares one generated data file in one direction per function.",
  [T + "pos2ptl.py", T + "xy2tp.py"], [("elementary offset conversions and composites", "transform/pos2ptl.py")], ["conversion results"],
  "commuting-diagram, inverse and scalar/vector equivalence monitors")

p("C12", "Directed angle differences are congruent, bounded and in the asked direction",
  "The difference of two angles is congruent to final minus start modulo 360 degrees; without a direction it is exactly final minus start, with direction +1 it is never negative and with direction -1 never positive. "
  "When the asked direction agrees with the natural sign the natural difference (including extra turns) is kept, otherwise the magnitude stays below 360 degrees, except that an exact number of turns keeps its magnitude and takes the asked sign. "
  "It works elementwise on any mix of scalars and vectors of start, final and direction without modifying its inputs.",
  ["inputs"], "all pairs of angles any number of turns apart, all directions, scalar/vector mixes",
  "test_pos2ptl checks a fixed table of six cases.",
  [T + "pos2ptl.py"], [("sign-aware modulo", "transform/pos2ptl.py:delta_angle")], ["returned differences"],
  "rule-by-rule oracle over random and boundary angles")

p("C13", "Every isolated spot is found once, at its true position and flux",
  "On an image of background plus noise plus isolated point-like spots well above threshold, detection returns exactly one entry per spot, located within a small fraction of a pixel of the true centre, with counts equal to its total brightness and uncertainties consistent with the scatter, and no other entries; this holds for spots anywhere in the frame, including next to its edges and at any sub-pixel phase. "
  "The result does not depend on the image orientation or shape, on integer pixel shifts, on a constant added background, on the pixel data type or byte order, or on dead (zero) regions elsewhere, never contains non-finite positions, does not alter the image, honours the thresholds on counts per pixel, counts per spot and noise, and an image without spots yields none instead of spurious ones.",
  ["inputs", "configurations"], "spot positions (including near borders, tile and subpixel edges), brightness, backgrounds, noise levels, image shapes, process counts",
  "test_detectspots uses one image with spots at three fixed positions.",
  [D + "detectspots.py"], [("convolution, threshold, iterative peak search", "detectspots.py:detectspots"), ("pixel-integrated Gaussian fit", "detectspots.py:fitcentroid")], ["spot table"],
  "synthetic-scene oracle (true positions known) plus metamorphic monitors")

p("C14", "Catalogue matching finds the true correspondence",
  "When one set of points is a shifted and scaled copy of another one (up to small noise, or rotations up to 0.003 radian), or such a copy among spurious points, triangle matching returns the correct partner of every point, in any order of the points and for any shift and scale, never uses one partner twice, and does not take a mirror image for a match; if some points of the first set have no partner in an exact copy, all others are still matched correctly. "
  "Matching in the same system returns for each point of the first set its nearest point of the second set and their distance; when several points have the same nearest point only the closest of them keeps it and the others are returned as unmatched (index -1, infinite distance), whatever the order of the points. "
  "The description of the triangles of a set of points for an unknown orientation (corners named by the lengths of their sides, ratio of longest to shortest side, cosine at the first corner, handedness) is the same after any rotation, shift, change of scale or order of the points, with the handedness reversed in a mirror image.",
  ["inputs"], "random and structured point sets, shifts, rotations, missing and extra points, orderings",
  "test_match uses one random set with a small shift.",
  [D + "match.py"], [("triangle invariants and nearest-neighbour search", "match.py:match_arbitrary_translation_dilatation, match_same_system")], ["returned index pairs and distances"],
  "known-correspondence oracle and brute-force nearest-neighbour model")

p("C15", "Fiducials and their pinholes are correctly identified in a spot list",
  "Given the spots seen by the camera, with any camera model (scale, rotation, axis flips, distortion) passed as assumed transform and a true camera within tens of pixels, a few milliradians and a percent of it, together with fibre spots (3 mm or more from fiducials), missing pinholes or fiducials and small noise, every spot assigned to a fiducial and pinhole is really that fiducial's pinhole, and all fiducials whose four pinholes are seen are identified with all their pinholes. "
  "Spots that belong to no fiducial are never labelled (location, petal and device -1, pinhole 0), labels the table had before are forgotten and its other columns are unchanged, each pinhole is assigned to at most one spot, and the answer does not depend on the order of the spots or on calls made before with other camera models.",
  ["inputs", "histories"], "camera transforms near the initial guess, noise, missing pinholes, background fibre spots, spot order, preceding calls",
  "test_findfiducials runs one recorded configuration.",
  [D + "findfiducials.py", D + "match.py"], [("neighbour grouping then triangle matching", "findfiducials.py:findfiducials")], ["LOCATION and PINHOLE_ID/DOTID columns"],
  "simulated camera with known labels; order and history monitors")

p("C16", "Planar correction fits and applies any similarity transform",
  "For every translation, rotation by any angle and axis scaling, fitting the planar correction to matched points recovers a transform that maps the first set on the second to numerical precision, and its parameters do not depend on what the object held before. "
  "Applying the correction and then its inverse (or the reverse) is the identity, and the same values come out of a correction that has been saved and reloaded.",
  ["inputs", "histories"], "translations, rotations 0-360 deg (including multiples of 90), scales, point sets, reuse of one object",
  "test_corr uses one random transform whose angle is never special.",
  [D + "simplecorr.py"], [("least-squares fit of affine parameters", "simplecorr.py:SimpleCorr.fit"), ("apply and apply_inverse", "simplecorr.py")], ["mapped coordinates and parameters"],
  "generate-transform/recover oracle and inverse monitors")

p("C17", "Circle fits recover circles and their geometric invariants",
  "Fitting a circle to points on an arc returns its centre and radius: exactly for exact points and within the noise otherwise, for arcs of any position, size and orientation; the robust variant, for the radii a positioner can have (1 to 5 mm, others being refused with an error), is unaffected by outliers as long as they are fewer than one point in eight. "
  "Translating, rotating or scaling the points transforms the centre and radius accordingly, and the order of the points does not matter.",
  ["inputs"], "centres, radii, arc lengths, orientations, noise, outliers",
  "test_circles uses two fixed circles.",
  [D + "circles.py"], [("algebraic and iterative fits", "circles.py:fit_circle, robust_fit_circle")], ["centre and radius"],
  "known-circle oracle and equivariance monitors")

p("C18", "The guide-star field model recovers pointing, rotation and scale",
  "When guide-star pixel positions are generated from a known pointing error, field rotation and plate-scale change, fitting the field model predicts the sky position of every focal-plane point to a small fraction of an arcsecond (to the noise of the star centroids when there is some), reports the field rotation of that model with respect to the plain HA,Dec axes, and sky to focal plane and back is the identity. Reading a guide-star catalogue keeps exactly the stars matched within the given separation, with proper motions applied where known, also across RA=0. "
  "The tangent-plane correction recovers small pointing offsets, rotations and scales whatever the object held before, its inverse undoes it, and the order of the stars does not matter.",
  ["inputs", "histories"], "pointings, offsets, rotations, scales, star subsets and orders, reuse of one object",
  "test_fieldmodel fits one shipped guide table and only prints residuals; the inverse with a pointing offset was never exercised.",
  [D + "fieldmodel.py"], [("TanCorr fit/apply/apply_inverse", "fieldmodel.py:TanCorr"), ("iterative guide star fit", "fieldmodel.py:FieldModel.fit_tancorr, fit_guide_stars")], ["predicted RA,Dec and x,y, correction parameters"],
  "simulated-telescope oracle, inverse monitors")

p("C19", "Field rotation rate and sidereal time follow the sky's geometry",
  "The predicted field rotation at a pointing equals the rotation between the instrument's tangent-plane axes and the plain HA,Dec axes at the field centre given by the sky geometry (precession, aberration, polar-axis offset, refraction, hexapod), the physical rate is its change over one minute of sidereal time, and the empirical rate is the published cubic polynomial in hour angle and declination, saturated at 1.5 arcsec per minute in either direction; the rate is the same for scalar and array arguments in any mix, does not change with 360-degree wraps, and unphysical declinations are rejected. "
  "Local sidereal time advances by 360.98565 degrees per day, stays in [0,360), and matches the mean sidereal time at the telescope's longitude, with the telescope clock's constant correction, to a few arcseconds over decades.",
  ["inputs"], "all hour angles, declinations, polar-axis errors, dates",
  "test_fieldrot checks one pointing.",
  [D + "fieldmodel.py", D + "time.py"], [("field rotation formulae", "fieldmodel.py:dfieldrotdt*"), ("sidereal time polynomial", "time.py:mjd2lst")], ["rates and sidereal times"],
  "finite-difference model and astropy reference monitors")

p("C20", "Fibre-assignment sky/focal-plane conversion is invertible and consistent",
  "For every field centre, date, hour angle and field rotation (up to a degree), converting target RA,Dec to focal-plane x,y and back returns the targets to well below a tenth of an arcsecond, targets at the field centre land at the centre, increasing RA moves to -x and increasing Dec to +y, and the requested field rotation is realised. "
  "The result agrees with the step by step transforms for the same circumstances (with the ADC angles the control system would choose unless both are given), the flat variants are the same positions measured along the focal surface, the results do not depend on the order of the targets, on targets without coordinates or on 360-degree wraps, the to/from platemaker options are inverses of each other, and incomplete ADC settings are rejected.",
  ["inputs", "configurations"], "field centres, dates, field rotations, ADC angles, targets within the field, option combinations",
  "test_fiberassign compares one field with a reference.",
  [D + "fiberassign.py"], [("chain of sky, tangent and focal-plane transforms", "fiberassign.py:fiberassign_radec2xy_cs5 and variants")], ["x,y and RA,Dec"],
  "round-trip, composition and option monitors")

p("C21", "Guide-camera pixels convert to the focal plane consistently",
  "For each of the ten guide cameras, pixel to focal-plane conversion is an orientation-preserving similarity that places the camera's metrology points at their measured focal-plane positions, and the reverse conversion returns the pixel to 1e-6. "
  "Each camera lands in its own petal's sector, batches equal single points, and an unknown camera number is reported as an error.",
  ["inputs", "configurations"], "all cameras, all pixels on and around the detector",
  "test_gfa2fp inverts a few pixels on fixed cameras.",
  [T + "gfa2fp.py", D + "io.py"], [("fit of per-camera similarity from metrology", "transform/gfa2fp.py")], ["conversion results"],
  "metrology oracle, similarity and inverse monitors")

p("C22", "FVC image processing turns images into correct labelled spots",
  "Processing a camera image (or a spot list) of a known focal plane gives a spot table in which every fiducial pinhole and every lit fibre appears once with the right identity, its expected position and focal-plane coordinates within a few micrometres of the truth, whatever the input container (single image, named or last extension, compressed, image sequence), the way expected positions are given (none, focal-plane or q,s coordinates) and with or without a master bias; spots farther than the maximum distance from any expected position stay unidentified. With the external matcher, the fibres and fiducial centres it identifies carry the same expected and metrology positions, and the turbulence options correct the coordinates of the identified fibres exactly as the correction functions do and change nothing else. "
  "Each image of a sequence gives the same table as when processed alone, an image that cannot be processed gives a non-zero code and no table without affecting the tables of the others, limits on the number of spots are honoured, outputs go only where asked, inputs are left as they were, and the transform and the RA,Dec written out reproduce the focal-plane coordinates in the table.",
  ["inputs", "configurations", "fault_sequences"], "synthetic focal planes, camera transforms, file layouts, sequences with bad images",
  "No test runs the pipeline.",
  [D + "processfvc.py", D + "detectspots.py", D + "findfiducials.py", T + "fvc2fp.py", "bin/desi_fvc_proc"], [("detect, identify, fit, transform, write", "processfvc.py:process_fvc, fvc_proc")], ["output tables, JSON and directory contents"],
  "end-to-end synthetic image oracle with fault injection and file-system observation")

p("C23", "Assignment of spots to positioners is one-to-one, within reach and optimal",
  "Given focal-plane spots, positioner centres and arm lengths, matching assigns only spots above the count threshold that are not fiducials, each to one positioner within whose reach (sum of its calibrated arm lengths, the static ones if present, plus the margin; the median reach for positioners without calibration) it lies, never two spots to one positioner nor two positioners to one spot, and assigns as many as possible; a pair that every best assignment has is always found. "
  "With alternatives requested, each alternative is an equally good valid assignment and a positioner is ambiguous in them exactly when some other best assignment exists without its pair, and the printed groups list exactly these possibilities with the elbow at the right arm lengths. The number assigned and the unambiguous pairs do not depend on the order of the rows nor on a common shift, the inputs are not modified, and the positioners detected as moving between two sets of spots are those that moved.",
  ["inputs"], "positioner layouts, arm angles, missing and extra spots, orders",
  "Not tested.",
  [D + "match_positioners.py"], [("distance to positioner centre scores and group assignment", "match_positioners.py")], ["assigned locations"],
  "simulated positioners with known owner; permutation monitors")

p("C24", "Positioner calibration fit recovers arm lengths, offsets and gears",
  "From simulated measurements of a positioner with known arm lengths, centre, angle zero points and gear ratios (any orientation, Gaussian noise, theta and phi both varied), the calibration fit gives parameters that reproduce all measured positions to the measurement noise, keeps every parameter within its bounds (OFFSET_T modulo 360 deg), and leaves fixed parameters exactly at their given values with zero variance; sequences after a lost zero point get their own offsets, and a stuck positioner, missing rehomed data, or too few points left are flagged as a failed fit. "
  "The result does not depend on the order of the points, on outliers that are rejected, on the number of processes, or on fits made before for other positioners or modes; the reported rms and number of points are those of the points used; and the result tables (one row per data window, flagged files for unusable data) hold these values under the right names, with both the static and the dynamic fit of every window reproducing its data.",
  ["inputs", "histories", "configurations"], "true parameters, modes, fixed sets, nominals, bounds, noise, outliers, sequence of fits",
  "Not tested.",
  [D + "posparams/fitter.py"], [("bounded least squares with static/dynamic parameters", "posparams/fitter.py:fit_params")], ["best parameters, rms, number of points"],
  "simulated-positioner oracle, history-independence monitors")

p("C25", "Concurrent use gives the same results as serial use",
  "Calling the conversions, lookups, fits and image processing from several threads or worker processes at once, including the very first calls that load cached tables and uses of one and the same transform object or input table, gives the same results as calling them one after another. "
  "Parallel options (number of processes) never change, drop, duplicate or reorder results, and concurrent runs in the same directory do not read or overwrite one another's temporary files.",
  ["schedules", "configurations"], "thread and process interleavings with forced switching, cold and warm caches, process counts",
  "No test runs anything concurrently.",
  [T + "rszn_lookups.py", T + "ptl2fp.py", T + "gfa2fp.py", T + "tan2fp/raytracefit.py", D + "brightimage.py", D + "posparams/fithandler.py", D + "spotmatch.py"], [("lazy module-level caches", "rszn_lookups.py, ptl2fp.py, raytracefit.py, gfa2fp.py"), ("multiprocessing pools", "brightimage.py, posparams/fithandler.py")], ["results per call compared with a serial run"],
  "thread/process stress with forced switch intervals against a serial reference")

p("C26", "Turbulence correction removes the common distortion and only that",
  "When measured positions are expected positions plus a smooth displacement field (a wavefront gradient, varying over 12 centimetres or more at the density of the focal plane) plus noise, the Gaussian-process and the polynomial corrections remove the field to a small fraction of its amplitude plus noise, with no displacement they leave positions unchanged within the noise, and a uniform shift of the measured positions is removed like any other field. "
  "The correction of a spot is not derived from its own displacement, so the motion of one positioner stays in its corrected position and hardly affects the others; the result depends neither on the order of the spots nor on the choice of axes. The correction from stationary spots gives the field at any position asked for, leaves out stationary spots that moved (by the residual limit given) or have no position as if they were absent, and the estimators equal the Gaussian-process prediction for their covariance (each spot left out of its own estimate when asked).",
  ["inputs", "configurations"], "displacement fields, amplitudes, noise, spot orders, invalid entries, moved outliers",
  "Not tested.",
  [D + "turbulence.py"], [("Gaussian process prediction with leave-out", "turbulence.py:correct, correct_using_stationary")], ["corrected coordinates"],
  "simulated displacement-field oracle and invariance monitors")

p("C27", "Fibre-arm angles measured in bright images are the true angles",
  "On a front-illuminated image showing a positioner's arm at a known angle, the measured arm angle (the direction from the fibre to the knee in pixel coordinates) equals the true one to a few degrees, for every orientation, position (including next to the image edge), brightness and background, and the bright-image script assigns each fibre to the positioner whose axis is at that knee. "
  "Measuring many positioners gives each the same answer as measuring it alone, in any order and with any number of processes, and does not alter the image, the spots or the template.",
  ["inputs", "histories"], "arm angles 0-360, subpixel positions, noise, brightness, number of positioners",
  "Not tested.",
  [D + "brightimage.py"], [("template rotation and correlation", "brightimage.py:detect_phi_arm")], ["angles"],
  "synthetic-image oracle and history monitors")

p("C28", "The external spot matcher is driven and read back faithfully",
  "Every spot, expected position, fiducial and pinhole handed to the external matching program arrives there with the right coordinates (to a thousandth of a pixel), identity and flags together with the options asked for, and every match the program reports comes back attached to the same spot with the right location, device and pinhole numbering. "
  "Spots the program does not match stay unmatched, a failing program, a missing one or one that writes no result is reported as an error rather than returning stale or partial results, the older program without the reach option is run again without it, concurrent and successive runs do not see each other's files, and no files are left behind.",
  ["inputs", "fault_sequences"], "spot lists, expected positions, program outputs, program failures",
  "The test is skipped when the external program is absent, which is always outside the instrument.",
  [D + "spotmatch.py"], [("temporary tables and subprocess call", "spotmatch.py:spotmatch")], ["files seen by a stand-in program and the returned table"],
  "recording stand-in for the external program; fault injection")

p("C29", "Averaging coordinates is the exact mean of the matching rows",
  "Averaging several spot tables gives, for every entry of the first table seen within 5 units in each of the others, the exact mean of its own measurements after the best affine map of each table onto the frame of the first; entries that some table does not contain are never mixed with another entry's measurements. "
  "The result does not depend on the order of the rows of the other tables, averaging identical tables returns their values, other columns and rows are carried over unchanged, and the input tables are not modified.",
  ["inputs"], "table sets with different row orders, missing and extra rows",
  "Not tested.",
  [D + "averagecoord.py"], [("match rows by identifier then average", "averagecoord.py:average_coordinates")], ["averaged table"],
  "per-row reference model and permutation monitors")

p("C30", "Conversions are pure: no change to inputs, no memory of earlier calls",
  "No conversion, fit, matching or measuring function modifies the arrays, lists, dictionaries or tables its caller passes in (other than output columns it is documented to add, or the object being fitted), and calling it again with equal arguments gives equal results, also after the caller has reused or overwritten arrays he passed or got back. "
  "Results do not depend on which other functions were called before (also unsuccessfully), on the logging level, on the current directory, or on the global random state, and calls leave the directory, the environment, the numpy error settings and the random state as they were.",
  ["histories", "inputs", "configurations"], "random call sequences over the whole public conversion API, logging levels, directories, random states",
  "Each test calls one function on fresh inputs and never looks at the inputs afterwards.",
  [T + "radec2tan.py", T + "fvc2fp.py", T + "pos2ptl.py", D + "posparams/fitter.py", D + "brightimage.py", D + "findfiducials.py"], [("functions build new arrays", "throughout"), ("module-level caches", "rszn_lookups.py, ptl2fp.py, raytracefit.py, findfiducials.py")], ["argument snapshots and repeated results"],
  "argument-snapshot and replayed random call-history monitors")

p("C31", "Distortion polynomials are exact and distortion fits are recoverable",
  "Each of the 33 distortion terms equals its defining gradient or curl of Zernike polynomials (orthonormal on the unit disk, curl-free or divergence-free respectively), evaluation is linear in the coefficients and elementwise, and fitting displaced points returns the coefficients that displaced them (the least-squares optimum when there is noise), whatever the order of points or terms. "
  "The distortion map between the desimeter and platemaker focal planes applies exactly its stored terms, its two directions undo one another to a micrometre, and refitting it on point pairs reproduces those pairs.",
  ["inputs", "configurations"], "all basis functions, coefficients, points in the unit disk, point pairs",
  "test_dm2pm and the plotting script look at single cases.",
  [T + "zhaoburge.py", T + "dm2pm.py"],
  [("tabulated basis", "transform/zhaoburge.py:getZhaoBurgeTerm"), ("least-squares fit", "transform/zhaoburge.py:fitZhaoBurge"), ("two directions", "transform/dm2pm.py:DM2PM")], ["evaluated displacements, fitted coefficients and mapped points"],
  "reference-model monitor (independent closed forms, quadrature and numerical derivatives), linearity and recovery monitors")

p("C32", "Number ranges and bit masks parse and print without loss",
  "Parsing a number-range specification (single numbers, comma lists, and ranges written a:b, a..b or a-b with their documented end points) gives exactly the numbers it denotes in order, and a malformed one is refused instead of being partly read. "
  "Every flag value converts to names and back to the same value, for any combination of defined bits, two different flags never share a bit or name, and the flag numbering is that of the instrument's online system.",
  ["inputs"], "all range specifications and flag combinations", "Not tested.",
  [D + "util.py", D + "bitmask.py", D + "posparams/posflags_mask.py", D + "posparams/flags.py"], [("parse_fibers-like parser", "util.py"), ("BitMask class", "bitmask.py")], ["parsed lists, names and masks"],
  "reference-model monitors over random specifications and masks")

p("C33", "Positioner tables join moves, images, calibrations and fits by identity",
  "Every row of a positioner table made from the move database is one recorded move of that positioner with its own angles, position, time, exposure, petal location and the calibration in force at that time (the last one recorded before); exactly the moves selected by the given petals, positioners (also 'movers'), exposures, iterations and dates are in it, whatever the order in which the database returns rows, and the unmeasured ones only where asked for. "
  "Measured positions joined from images belong to the same positioner and the same exposure and iteration (or the image taken next after the move, when joined by dates), expected positions follow from the positioner's own angles and calibration, the enabled history lists exactly the changes, the table of moving positioners follows the recorded positions. "
  "Merging fits of several positioners keeps every row with the location of its own positioner, a location in disagreement with the metrology is an error, choosing moves by their notes follows the boolean expression, and a script which wrote its table ends without an error code.",
  ["inputs", "configurations", "histories"], "simulated databases of several petals, positioners, exposures, calibration histories; row orders; script options",
  "The scripts have no test.",
  ["bin/get_posmoves", "bin/get_poscoords", "bin/get_posparams", "bin/get_posmoves_with_fvc_data", "bin/get_posmoves_with_fvc_data_using_dates", "bin/merge_posparams", "bin/check_moving", D + "dbutil.py", D + "posparams/posmoveselection.py"],
  [("queries and selections", "dbutil.py, bin/get_posmoves"), ("match by exposure or date", "bin/get_posmoves_with_fvc_data*"), ("calibration in force", "bin/get_posmoves, bin/get_poscoords")], ["written tables against the simulated database"],
  "reference-model monitors over the tables written by the scripts, run against a stand-in database driver which returns rows in random order")

p("C34", "Choices which protect the instrument follow their criteria",
  "A positioner whose two nearest neighbours are both within 3.5 mm on opposite sides (more than 90 degrees apart) is not listed as one that may be moved and all other positioners are listed exactly once, in groups of the requested size; no two positioners of a group that may move together are neighbours within 12 mm, none is in two groups and the list and table of a group agree. "
  "The positioners found to have moved between two sets of images are exactly the requested ones displaced by an amount within the limits and far enough from their center, each at its position after the move. "
  "Of fitted parameters exactly the rows within the accepted thresholds (outliers, fit error, flags, bounds, offsets from nominal, arm lengths, no missing value), as last adjusted by the user, are passed on unchanged, or all with the failing ones marked as nonfunctional if that is requested; of several rows of one positioner the one chosen by the user is kept; a field is marked for the database only if the user accepted it and the positioner is functional.",
  ["inputs", "configurations", "histories"], "tables of spots, metrologies and fits; thresholds; answers of the user",
  "The scripts have no test.",
  ["bin/ok2move", "bin/select_groups_of_positioners", "bin/detect_and_match_moving_positioners", "bin/prepare_posparams_for_instr", D + "match.py", D + "averagecoord.py"],
  [("geometry of the two nearest neighbours", "bin/ok2move:ok2move"), ("elimination of rows", "bin/prepare_posparams_for_instr:_eliminate_rows")], ["lists and tables written by the scripts, the questions asked and answered"],
  "reference-model monitors over the outputs of the scripts, with a scripted user")

p("C35", "Calibration scripts derive what their inputs determine",
  "Circle fits over several images give, for every device seen well enough, once per location and pinhole, the center of the circle described in the flat coordinates of the curved focal surface (for a device that turns) or the median position (for a pinhole), and only devices that turned, were seen often enough and lie within 3 mm of their expected place; the transform fitted to those centers, or to fitted positioner offsets below the error limit and without flags, is that of the camera, with another metrology used for exactly the devices it holds, and the pinholes written with it keep their pixels. "
  "The focal plane metrology table is the petal metrology moved by the petal alignments with patches and identifiers applied to exactly the devices they name (running it on the shipped inputs gives the shipped table, as for the guide camera corners), updating the patch replaces exactly the pinholes seen by the median of their new positions, averages over images are taken per spot in the frame of the first image, and the petal alignments are those of the latest snapshot of each petal. "
  "The ray tracing fit gives back its table in both directions at every corrector setting.",
  ["inputs", "configurations", "files"], "images of moved devices, missed and doubled spots; cameras, noise, outliers, metrologies, patches, identifiers, snapshots, ray tracing tables",
  "The scripts have no test.",
  ["bin/desi_fit_circles", "bin/desi_fit_fvc2fp_using_theta_centers", "bin/desi_fit_fvc2fp_using_posparams", "bin/update_focal_plane_metrology_patch", "bin/write_focal_plane_metrology", "bin/write_gfa_patch", "bin/average_coordinates", "bin/load_petal_alignments_from_db", "bin/fit_raytrace_tan2fp", T + "tan2fp/raytracefit.py"],
  [("selection and fit of circles", "bin/desi_fit_circles"), ("fit of the camera", "transform/fvc2fp.py:FVC2FP.fit"), ("patches by identity", "bin/write_focal_plane_metrology")], ["tables and transforms written by the scripts"],
  "reference-model monitors over the files written by the scripts, from simulated cameras, devices and altered inputs")

p("C36", "Sky-side scripts answer for the circumstances of the exposure",
  "The field rotation and its rate predicted for a pointing, date, hour angle or sidereal time and hexapod rotation, from arguments or from an image header wherever the keywords are, are those of the sky (precession, aberration and polar misalignment included) for exactly these circumstances, and no answer is given when one of them is missing. "
  "The field model fitted to a guide star catalogue maps focal plane positions to the true sky within 0.06 arcsec whatever the pointing error, wrong star identifications and proper motions (brought to the date from the epoch of each star), and it carries the exposure, date, corrector angles, sidereal time and hexapod rotation of the header, and the number of stars used.",
  ["inputs", "configurations"], "pointings, dates, headers in any extension, catalogues, pointing errors, wrong identifications, proper motions",
  "The scripts have no test.",
  ["bin/desi_predict_fieldrot", "bin/desi_fit_guide_star_coordinates", D + "fieldmodel.py", D + "time.py"],
  [("circumstances from the header", "bin/desi_predict_fieldrot, bin/desi_fit_guide_star_coordinates"), ("fit of the field model", "fieldmodel.py:FieldModel.fit_tancorr")], ["printed rotation and rate, written field model"],
  "reference-model monitors over the scripts' output, sky side from an independent model")

p("C37", "Performance analysis counts every selected move once with its own errors",
  "The analysis lists exactly the moves that are measured, commanded, within the dates, selected by gear scale and not special (unless asked for), and drops later submoves whose first one is not listed and positioners without any accepted move in one of their submoves; each is listed once, whatever the files and the order of rows, with its errors with respect to the tracked position and to the requested one (a displacement is added to the measured position of the previous submove), its own measured and tracked places, acceptance, freezing, submove, sequence and collision avoidances. "
  "The statistics by positioner and submove, the summaries at each confidence and the lists of largest errors are those of the listed moves (only the accepted ones where so named).",
  ["inputs", "configurations", "histories"], "histories of moves with failures, submoves, sequences, displacements, gear calibrations, dates and script options",
  "The script has no test.",
  ["bin/analyze_pos_performance"],
  [("selection of rows", "bin/analyze_pos_performance:read_data"), ("errors of each move", "bin/analyze_pos_performance:process_data"), ("statistics", "bin/analyze_pos_performance")], ["tables and report written by the script"],
  "reference-model monitors over the written tables against the simulated history; recomputation of every statistic")

p("C38", "Batch jobs process every dated image once; reports state distances and centers",
  "The jobs written for a list of images run the image processing exactly once for every dated image (each camera extension of a sequence, or the only image of a file) that is not yet processed, with its own output files and the given options, no job takes another file once it has its number of tasks, jobs that are run again do nothing again, and a file which cannot be read or has no date does not keep the others from being processed. "
  "The table lists every dated image with its date and output file, also when the script is run again, the job scripts are executable and the permissions of the images are untouched. "
  "The fiducial centers are the mean over the pinholes of each fiducial, and the distance from the center reported for a positioner is that of its own spot from its own metrology position, negative for requested positioners that were not matched, with counts that agree.",
  ["inputs", "histories", "files"], "lists of images of all containers, dates, extensions, broken and missing files; repeated runs; lost products; metrology tables; spot tables",
  "The scripts have no test.",
  ["bin/write_fvc_image_processing_scripts", "bin/dump_fiducial_centers", "bin/compute_distance_from_center", D + "processfvc.py"],
  [("extensions and dates", "bin/write_fvc_image_processing_scripts"), ("parser of the commands", "processfvc.py:get_parser"), ("match by location", "bin/compute_distance_from_center")], ["commands received by a stand-in for the image processing, written tables, printed values, file modes"],
  "exactly-once monitor over recorded commands, reference-model monitors over tables and printed values")
