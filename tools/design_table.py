# per property: (workload, oracle, bounds, cost)
DES = {
"C01": ("random pointings (all RA/LST wraps, altitude >= 15 deg, |Dec| < 88), dates 1990-2040, hexapod angles, every combination of switches, fields across RA=0, scalars and arrays of 1 to many points",
        "the starting point; the same for each elementary step (alt/az, HA/Dec, x/y, refraction, precession, aberration, polar matrix)", "residual limit 0.03 arcsec, growing with tan(Dec)"),
"C02": ("as C01 plus boresight stars, single switches, wraps, both astropy variants", "`vlib/ref.py`: an independent vector implementation of the chain (IAU precession, annual aberration, polar axis, cotangent refraction, gnomonic projection)", "altitude > 10 deg; 0.2 arcsec for the variants"),
"C03": ("ADC pairs (equal, opposite, equal up to rounding, multi-turn), grids and random fields, batches of 1..N", "the starting point; element-by-element equality of batches, subsets and permutations", "field radius of the instrument"),
"C04": ("every row of the shipped ray-trace tables; ADC pairs shifted by turns, rotated together, crossing 0/360, almost equal; settings between the tabulated ones", "the tables themselves; equivariance, periodicity, continuity (a micrometre for 1e-4 deg)", "tabulated settings and seeded pairs"),
"C05": ("shipped and generated camera models (flip, rotation, scale, offset, all distortion terms), full frame and focal plane", "the starting point; an independent forward model (`vlib/zb.py`)", "admissible distortions (invertible over the frame)"),
"C06": ("simulated cameras, spots with/without noise, unknown spots, permutations, refits of used objects, held distortion", "the true camera; scipy least squares for the noisy optimum; metrology table for the columns", "distortions the fitted basis can represent"),
"C07": ("histories fit/load/set -> save -> reload (string, file, another process) -> save -> refit over all six kinds of object; foreign, wrong-version, damaged files", "behaviour of the original object on random inputs, content of the second save", "all classes with tojson/fromjson"),
"C08": ("shipped and replaced alignment tables (fresh processes), random points, single and many", "own Z-Y-X rigid motion; distances, determinant, 36-degree sectors", "ten petals"),
"C09": ("dense sweeps of R,S,Z,N tables, outside values, q,s and u,v conversions of scalars, arrays of different shapes", "the csv table; own polynomials; inverses; monotonicity; NaN outside", "range of the table"),
"C10": ("random arm lengths, ranges (also narrow, asymmetric), targets inside, on and outside the annulus, guesses with tolerances", "own enumeration of all solutions incl. wraps; forward kinematics", "targets within rounding of a limit are not judged"),
"C11": ("random calibrations; scalar, list, array forms; the shipped positioner table", "commuting diagrams of all paths, definitions from offsets, inverses", "reachable points"),
"C12": ("scalars/vectors in every mix of start, final, direction; exact turns, zeros, tiny differences", "rule-by-rule oracle written from the statement", "|angle| up to many turns"),
"C13": ("synthetic images (all parities/sizes, edges, sub-pixel phases, backgrounds, noise levels, dtypes, byte orders, dead regions up to whole bands at the frame edge, reported errors at the edge, orientation, no spots)", "true list of spots; equivariance; thresholds", "isolated spots above threshold"),
"C14": ("random point sets, shifts, scales, rotations to 3 mrad, noise, mirror images, missing points, permutations", "known correspondence; brute-force nearest neighbours with arbitration; sides and angles of every triangle recomputed", "noise small against the separations"),
"C15": ("simulated cameras against an assumed one, fibre spots, missing pinholes/fiducials, histories with different camera models in one process", "true labels", "the ranges in the statement"),
"C16": ("all angles incl. multiples of 90 deg, flips by scale, offsets, reused objects, reload", "the true transform, least squares optimum, inverses", "-"),
"C17": ("arcs of all sizes, positions, orientations, noise, outliers, permutations, rotations, scalings", "true circle; scipy geometric least squares", "robust variant: 1-5 mm radii"),
"C18": ("simulated guide stars for a true pointing error, rotation, scale; catalogues with proper motions, missing values, RA=0; TanCorr histories", "the truth; tangent-plane optimum; `vlib/ref.py`", "six or more stars, altitude > 30 deg"),
"C19": ("pointings and dates; scalars/arrays in any mix; wraps; unphysical declinations; LST over decades", "`vlib/ref.py` field rotation, finite difference rate, published polynomial, mean sidereal time from the IAU expression", "-"),
"C20": ("field centres, dates, hour angles, rotations, ADC given/not, NaN targets, permutations, platemaker options, polar matrix", "round trip; the step-by-step transforms; sign conventions; requested rotation", "targets of the field, altitude limits of the telescope"),
"C21": ("ten cameras, chip corners, random pixels outside, single and batches, unknown cameras", "metrology table; similarity with positive determinant; inverse", "-"),
"C22": ("simulated focal planes rendered as spot lists and images (containers, extensions, compression, sequences, bias, expected positions in both systems, ghosts, bad images, limits, external matcher replaced by a stand-in, turbulence fields)", "true identity and position of every pinhole and fibre; directory listing before/after; replay of the written transform", "the script bin/desi_fvc_proc and its function"),
"C23": ("random scenes of spots, positioners, calibrations, ambiguities, moves; permutations and shifts", "own optimal assignment (scipy) and forced-pair analysis; own enumeration for the alternatives", "small components are enumerated exactly"),
"C24": ("simulated positioners at any orientation, gears, noise, outliers, sequences, fixed parameters, several windows (dates, counts and residuals of each recomputed from the moves), the least number of moves, short arcs, turns of more than half a circle, script with 1/several processes, histories", "true positions, bounds, own bookkeeping of points and rms", "both angles varied, enough points"),
"C25": ("operations of the catalogue called in fresh processes by 8 threads released together (first calls included), with delays injected at line events and file reads; concurrent processes in one directory; parallel options", "the serial result of the same operation", "schedules seen are counted in the evidence"),
"C26": ("random gradient and curl fields, noise, stationary/moving spots, missing ones, permutations, rotations of the axes", "the field put in; brute-force Gaussian process for the same covariance; leave-one-out independence", "fields varying over >= 12 cm"),
"C27": ("rendered front-illuminated images, arm templates at known angles, edges, brightness, crowding, 1/2/5 processes, script", "true angle and identity; alone = together", "-"),
"C28": ("random spots, expected positions, pinholes, options, failing/missing/silent/old programs, concurrent and successive runs", "what the recording stand-in received and returned", "interface of match_positions"),
"C29": ("several tables with affine distortions, missing rows, permutations", "own match/affine/mean model", "matches within 5 units"),
"C30": ("the catalogue of public operations in random order, repeated, with results overwritten in place, under different log levels, directories and random states; models used, then set or refitted, against fresh ones", "deep snapshots of the arguments and process state; equality of repeated results", "catalogue of vlib/ops.py"),
"C31": ("all 33 terms, random coefficients and id subsets, displaced points, noise, permutations", "`vlib/zb.py` (exact polynomials), numerical curl/divergence, orthonormality by quadrature, normal equations", "unit disk"),
"C32": ("grammar-generated range strings and malformed ones; all single and random combined flags", "own parser; own definition table of the online system", "-"),
"C33": ("simulated move databases behind a stand-in driver (SQLite, rows in random order); the scripts with all their selections; image tables by exposure and by date; fits to merge", "the simulated database itself, calibration in force by time, own boolean expressions", "every positioner has a calibration older than its moves; rows without measured positions are left out of get_poscoords, which cannot stack them"),
"C34": ("spots with triplets at all distances and angles, thinned and shuffled metrologies, simulated images before and after a move, tables of fits with values on both sides of every threshold, missing values, repeated rows, adjusted thresholds, help requests, both modes", "own geometry; own thresholds; the truth of the simulation; the plan of answers", "values not within rounding of a threshold"),
"C35": ("simulated rotating and fixed devices over 7-13 images with missed, doubled, strayed and displaced spots; hidden cameras with noise and outliers; altered patches, identifiers, alignments, snapshots (stand-in driver), corrector tables", "the truth; own polynomial camera (`vlib/zb.py`); own model of the metrology table; shipped tables", "circles of 1.2 mm or more, or none; values not within rounding of 3 mm"),
"C36": ("pointings and dates with every way to give the circumstances; headers in extension 0 or 1; simulated guide stars with pointing errors, wrong identifications, proper motions of two epochs", "`vlib/ref.py`, sidereal time by the IAU expression", "printed values have three decimals"),
"C37": ("histories of 4-8 positioners, 3-5 exposures, moves of 1-3 submoves with all kinds of failures, displacements, gears, sequences; files split by positioner or date; options", "the simulated history; own statistics", "no row on a bound of the dates"),
"C38": ("lists of plain, compressed and multi-extension images, without date, missing, broken; jobs executed with a recording stand-in; repeated and after loss of products; altered metrologies; spot tables", "own list of what has to be done; own metrology means and distances", "distinct base names"),
}
