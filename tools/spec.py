#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: python3 tools/spec.py rewrites both."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, claimed=True, reason=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, claimed=claimed, reason=reason, hook=hook))

COMMON = "Held on the executions observed, nothing more; trusts the harness's own linear algebra (no nalgebra algorithms) and the tolerances stated in DESIGN.md."

prop("C01", "A homogeneous point is one ray plus inverse distance, at any scale",
 "Building a point from any non-zero multiple of a homogeneous vector with a non-zero bearing gives the same point: unit bearing, non-negative w, bearing pointing to the euclidean position. The euclidean position is x/w (and the round trip from a euclidean point returns it) whenever w is non-zero and the quotient is finite, and is absent for a point at infinity, never an infinite or NaN position.",
 ["inputs"], "every homogeneous 4-vector with non-zero finite bearing part (norm 1e-100..1e100) and w of either sign, zero, subnormal or huge; every scale factor of either sign; world and camera points",
 "No test constructs points with negative w, w = 0, subnormal w or extreme scales; the property quantifies over all of them.",
 ["cv-core/src/point.rs"], [("from_homogeneous normalisation and sign fix", "cv-core/src/point.rs"), ("Projective::point/bearing/from_point", "cv-core/src/point.rs")],
 "runtime monitor: independent reference oracle over generated hostile inputs", COMMON)

prop("C02", "Poses act as rigid motions: inverse, composition, homogeneous form",
 "Each pose type maps a point to R x + t in homogeneous coordinates (points at infinity are only rotated), its inverse undoes it, its homogeneous matrix and its identity agree with that action, and scaling a pose scales exactly its translation. The world-to-world transform derived from one camera's pose in two reconstructions maps every point of the first so that the camera sees it exactly as before.",
 ["inputs", "configurations"], "every orthonormal rotation (identity, tiny, quarter and half turns, arbitrary), every translation up to 1e8, every homogeneous point, all four pose types",
 "Only a few random poses are used inside doc tests of other crates; none checks points at infinity, inverses or the world-to-world chain.",
 ["cv-core/src/pose.rs"], [("Pose::transform/inverse/scale/homogeneous/from_parts/identity", "cv-core/src/pose.rs"), ("WorldToWorld::from_camera_poses", "cv-core/src/pose.rs")],
 "runtime monitor: independent rigid-motion oracle", COMMON)

prop("C03", "so(3)/se(3) exponential and logarithm are inverse maps",
 "The exponential of a rotation vector is the proper rotation about its direction by its length, and the logarithm of any rotation - including identity, tiny and exact half turns - is a vector of length at most pi whose exponential is that rotation; se(3) coordinates put the unchanged translation first, then the logarithm, and rebuild the pose. The hat, vee, squared-hat and bracket operations agree with the cross product, and the small-rotation shortcut is a proper rotation that is right to second order.",
 ["inputs"], "every rotation vector (angle 0, 1e-300.., around pi, beyond pi), every rotation matrix incl. exact half turns, every translation",
 "No test calls the logarithm at all; the failing inputs (angle at or near pi) have measure zero.",
 ["cv-core/src/so3.rs", "cv-core/src/pose.rs"], [("Skew3 <-> Rotation3 conversions, hat/vee/hat2/bracket/rotation_small", "cv-core/src/so3.rs"), ("Pose::se3/from_se3", "cv-core/src/pose.rs")],
 "runtime monitor: Rodrigues/quaternion reference oracle and round-trip monitor", COMMON)

prop("C04", "Every Jacobian is the derivative of the transformation it describes",
 "The Jacobian with respect to the input point is the homogeneous matrix of the pose, and the one with respect to the pose is the derivative of the un-normalised output under a translation increment and a left-multiplied rotation increment (translation first), with zero dependence of the output's w. All transform variants return the same output point as the plain transform, and the rotation Jacobians of so(3) elements are the derivatives of rotating a vector.",
 ["inputs"], "every pose and every homogeneous point (finite and at infinity), all pose types and all three Jacobian-returning functions",
 "No test evaluates a Jacobian.",
 ["cv-core/src/pose.rs", "cv-core/src/so3.rs"], [("transform_jacobians, transform_jacobian_self, transform_jacobian_input", "cv-core/src/pose.rs"), ("Skew3::jacobian_input/jacobian_self", "cv-core/src/so3.rs")],
 "runtime monitor: central-difference and closed-form derivative oracle", COMMON)

prop("C05", "se(3) tangents: increments, sums, L1 normalisation, NaN containment",
 "A tangent's isometry translates and then rotates by its two parts, scaling scales the named part only, addition and summation are component-wise, and the inverse negates both parts. L1 normalisation gives each part unit length or zero for a zero part, and a tangent built from a part with a NaN has that part zeroed and the other part kept.",
 ["inputs"], "every translation/rotation pair incl. zero, denormal and > pi rotations, every NaN position, every list length",
 "No test touches the tangent type; optimizers are never run by the buildable tests.",
 ["cv-core/src/so3.rs"], [("Se3TangentSpace", "cv-core/src/so3.rs")],
 "runtime monitor: reference oracle with planted NaN faults", COMMON)

prop("C06", "Pinhole calibrate/uncalibrate are inverse and match the intrinsic matrix",
 "Calibrating a pixel gives the unit forward bearing along the inverse intrinsic matrix applied to that pixel, and uncalibrating a bearing gives the pixel that the intrinsic matrix projects it to, so both round trips return what they were given; the builder methods change only what they name. A bearing that does not point strictly forwards has no pixel.",
 ["inputs", "configurations"], "all focal lengths (different per axis, 1e-3..1e5), skews, principal points, pixels and bearings, incl. bearings in or behind the image plane",
 "Doc tests use one camera and one pixel with a loose tolerance (0.1 pixel in one case), so errors in skew or sign can hide.",
 ["cv-pinhole/src/lib.rs"], [("CameraIntrinsics: CameraModel", "cv-pinhole/src/lib.rs"), ("CameraIntrinsics::matrix and builders", "cv-pinhole/src/lib.rs")],
 "runtime monitor: independent intrinsic-matrix oracle", COMMON)

prop("C07", "Radial K1 distortion round-trips on its domain and never yields NaN",
 "Calibrating divides the normalised image point by 1 + k1 r^2, and uncalibrating inverts that exactly for every pixel inside the radius where the map is one-to-one, including the principal point and k1 = 0, where the model is the plain pinhole. A bearing that no pixel can produce, or that does not point strictly forwards, gives no pixel rather than a NaN.",
 ["inputs", "configurations"], "all intrinsics, all k1 of either sign incl. 0 and tiny, all pixels in the injective domain, all bearings incl. unreachable ones",
 "The doc test uses one camera, one k1 and one pixel far from the centre.",
 ["cv-pinhole/src/lib.rs"], [("CameraIntrinsicsK1Distortion: CameraModel", "cv-pinhole/src/lib.rs")],
 "runtime monitor: own distortion oracle and round-trip monitor", COMMON)

prop("C08", "Camera specifications give centred intrinsics and consistent pixel sizes",
 "A specification built from a sensor stores the pixel counts and pixel sizes whose product is the sensor size (square pixels from the width alone), and centred intrinsics have the requested focal length on both axes, no skew and the principal point at the centre of the pixel grid (half the pixel count minus one half).",
 ["inputs", "configurations"], "all pixel counts and sensor sizes, all focal lengths",
 "No test touches camera specifications.",
 ["cv-pinhole/src/lib.rs"], [("CameraSpecification", "cv-pinhole/src/lib.rs")],
 "runtime monitor: reference oracle", COMMON)

prop("C09", "An essential matrix from a pose vanishes on exactly the consistent matches",
 "The essential matrix of a relative pose equals the cross-product matrix of its translation times its rotation, and the residual of a match under any matrix is the absolute epipolar product of the two normalised image points. Every point seen by both cameras therefore has zero residual, independent of the scale of point and bearings.",
 ["inputs"], "all relative poses, all points in front of or behind the cameras with non-zero z, arbitrary 3x3 matrices and bearings",
 "The tests only check residuals on a handful of random scenes after estimation.",
 ["cv-pinhole/src/essential.rs"], [("From<CameraToCamera> for EssentialMatrix", "cv-pinhole/src/essential.rs"), ("EssentialMatrix residual", "cv-pinhole/src/essential.rs")],
 "runtime monitor: independent epipolar oracle", COMMON)

prop("C10", "Decomposing an essential matrix recovers its pose; reconditioning projects",
 "Decomposing the essential matrix of a pose with non-zero translation - at any overall scale or sign - yields proper rotations and unit translations such that exactly the true rotation and translation direction are among the four poses, whose essential matrices all equal the input up to scale, with the rotation-only and bearing-only variants returning the same hypotheses. Reconditioning returns the closest essential matrix: two equal singular values (the mean of the largest two), third zero, same singular vectors, unchanged if already essential.",
 ["inputs"], "all relative poses with non-zero translation incl. identity and half-turn rotations, scales 1e-6..1e6 and both signs; arbitrary 3x3 matrices for reconditioning",
 "Existing tests compare the code with an older copy of itself on random matrices, and three doc tests share one pose.",
 ["cv-pinhole/src/essential.rs"], [("possible_rotations_unscaled_translation and its variants", "cv-pinhole/src/essential.rs"), ("recondition", "cv-pinhole/src/essential.rs")],
 "runtime monitor: own SVD oracle and decomposition monitor", COMMON)

prop("C11", "Triangulating noise-free observations returns the true point",
 "Every triangulator except the mean-of-means one, given two exact observations (or two or more, where it accepts them) of a point in front of all cameras from distinct centres with parallax, returns that point, up to rounding amplified by the conditioning of the geometry. Fewer than two observations give no point from the linear triangulator.",
 ["inputs", "configurations"], "all camera configurations (any rotation, baseline scale 1e-3..1e3, forward, sideways and converging motion, wide fields of view, cameras far from the world origin), 2..12 views",
 "Each doc test triangulates one point with one nearly-identity pose.",
 ["cv-geom/src/triangulation.rs", "cv-core/src/triangulation.rs"], [("LinearEigen, SineL1, RelativeDlt, AngularL1, AngularLInfinity triangulators", "cv-geom/src/triangulation.rs"), ("observation-to-relative adapters", "cv-core/src/triangulation.rs")],
 "runtime monitor: ground-truth scene oracle with condition-aware tolerance", COMMON)

prop("C12", "Triangulated points are finite and in front of every observing camera",
 "Whenever a triangulator returns a point, all its coordinates are finite and, seen from each observing camera's own position, the point lies on the side its bearing points to; rays that only meet behind a camera yield no point. Exact or nearly exact observations with parallax of a point in front of all cameras are never rejected, except possibly by the mean-of-means method.",
 ["inputs", "configurations"], "all triangulators, all camera configurations incl. cameras far apart, opposing views, negated bearings, noise and random unrelated bearings",
 "No test gives a triangulator a point behind a camera or cameras away from the origin.",
 ["cv-geom/src/triangulation.rs", "cv-core/src/triangulation.rs"], [("cheirality filters of each triangulator", "cv-geom/src/triangulation.rs")],
 "runtime monitor: per-camera cheirality oracle on every returned point", COMMON)

prop("C13", "Triangulation from noisy rays minimises each method's stated error",
 "On noisy observations the angular-L1 and angular-L-infinity triangulators return a point whose summed, respectively maximal, angular error over the two rays is minimal among all points, the linear eigen triangulator returns the homogeneous point minimising its stated quadratic cost, and the sine-L1 triangulator returns the point minimising the summed squared distance to all rays. The mean-of-means triangulator returns the mean camera centre plus the mean closest distance along the mean bearing.",
 ["inputs"], "all two-view geometries with non-zero baseline and noise 1e-6..0.2 rad for the closed forms; 2..10 views with noise for the multi-view ones (well-conditioned for the iterative one)",
 "The tests only use exact data, where every method and most bugs agree.",
 ["cv-geom/src/triangulation.rs", "cv-geom/src/epipolar.rs"], [("closed-form corrections", "cv-geom/src/triangulation.rs"), ("gradient refinement", "cv-geom/src/triangulation.rs"), ("point_gradient", "cv-geom/src/epipolar.rs")],
 "runtime monitor: independent optimality oracle (1-D minimisation over epipolar planes, own eigen solver, least squares)", COMMON)

prop("C14", "Triangulation does not depend on frame, scale or observation order",
 "For exact observations, moving all cameras by one rigid motion and uniformly scaling the scene moves and scales the triangulated point the same way; for noisy ones this holds where the error measure is invariant (angular, sine-L1 and mean-of-means methods, and rotations of the world about its origin for linear eigen). The order in which observations are listed and the choice of which camera comes first do not matter, and the relative, centre-camera and observation entry points agree.",
 ["inputs", "configurations", "histories"], "all rigid motions of the world, scale factors 1e-3..1e3, permutations of the observations, exact and noisy rays",
 "The tests keep the first camera at the origin, which hides any mix-up between camera centre and world origin.",
 ["cv-geom/src/triangulation.rs", "cv-core/src/triangulation.rs"], [("TriangulatorObservations, TriangulatorRelative blanket impl", "cv-core/src/triangulation.rs"), ("multi-view triangulators", "cv-geom/src/triangulation.rs")],
 "runtime monitor: metamorphic (equivariance) monitor", COMMON)

prop("C15", "Reprojection error is measured against the triangulated point in each camera",
 "The reprojection error of a match under a relative pose is, in each camera, the observed normalised image point minus the projection of the triangulated point into that camera, and the average is the mean of the two lengths. It is absent exactly when triangulation fails or the point is behind either camera, and zero for exact matches.",
 ["inputs"], "all relative poses, matches exact, noisy or contradictory, and triangulators that return an arbitrary prescribed point or nothing",
 "One doc test with one exact match.",
 ["cv-pinhole/src/lib.rs"], [("pose_reprojection_error, average_pose_reprojection_error", "cv-pinhole/src/lib.rs")],
 "runtime monitor: scripted triangulator (fault injection) and own projection oracle", COMMON)

prop("C16", "Consensus residuals measure the angle between observation and prediction",
 "The residual of a world pose on a landmark match is one minus the cosine between the observed bearing and the landmark's direction in that camera, and the residual of a relative pose on a match is the mean of those two quantities for the point minimising the linear triangulation cost. Residuals are finite, lie between 0 and 2, vanish for consistent data in front of the camera, and reach near 2 for a landmark exactly behind.",
 ["inputs"], "all world poses and landmarks (finite or at infinity), all relative poses and matches, consistent, noisy and opposite",
 "Residuals are only exercised through consensus runs that succeed with large margins.",
 ["cv-core/src/pose.rs"], [("Model<FeatureWorldMatch> for WorldToCamera", "cv-core/src/pose.rs"), ("Model<FeatureMatch> for CameraToCamera", "cv-core/src/pose.rs")],
 "runtime monitor: independent angular-residual oracle", COMMON)

prop("C17", "P3P returns the true camera pose and only poses that satisfy the data",
 "Given three landmarks in general position and their exact bearings, the solver returns at most four poses, each a proper rigid motion that puts all three landmarks on their bearings in front of the camera, and the true pose is among them. Degenerate inputs (a landmark at infinity, collinear or coincident landmarks) yield no NaN pose and no panic.",
 ["inputs"], "all world poses, landmark triangles and depths in general position (well-conditioned by an independent measure), world scales 1e-3..1e3, all sample orders, symmetric triangles and integer positions, half-turn rotations, noisy bearings, all refinement settings; degenerate configurations",
 "The two tests check that consensus over many samples finds one good model, so wrong or missing single solutions are invisible.",
 ["lambda-twist/src/lib.rs"], [("compute_poses_nordberg, cube_root, eigen_decomposition_singular, gauss_newton_refine_lambda", "lambda-twist/src/lib.rs")],
 "runtime monitor: forward-projection oracle on every returned pose, ground-truth membership", COMMON)

prop("C18", "Eight exact matches determine the essential matrix and the relative pose",
 "From eight or more exact matches in general position the eight-point solver returns the essential matrix up to scale, using the first eight, and its pose hypotheses are four proper rigid motions containing the true rotation with the true translation direction. The result is unaffected by rescaling the scene.",
 ["inputs"], "all relative poses with non-zero baseline, points in every direction of both cameras at any depth ratio, well-conditioned by an independent measure",
 "The random test accepts a failure rate and only checks residuals at 1e-4.",
 ["eight-point/src/lib.rs"], [("encode_epipolar_equation, from_matches, estimate", "eight-point/src/lib.rs")],
 "runtime monitor: ground-truth oracle with own null-space conditioning", COMMON)

prop("C19", "Five exact matches: the true relative pose is among the five-point solutions",
 "Given five exact matches in general position the five-point solver returns at most forty poses, all proper rigid motions with unit translation whose essential matrices vanish on the five matches, and the true rotation with the true translation direction is among them. Degenerate samples yield no NaN and no panic, and a sample which repeats a match yields no pose.",
 ["inputs"], "all relative poses (planar motions, pure translations and half turns included) and five-point samples in general position (well-conditioned by an independent measure), exact and noisy; repeated and degenerate samples",
 "The only end-to-end test is commented out; the remaining unit tests cover polynomial multiplication.",
 ["nister-stewenius/src/lib.rs"], [("five_points_relative_pose, essentials_from_action_ebasis", "nister-stewenius/src/lib.rs")],
 "runtime monitor: epipolar oracle on every hypothesis, ground-truth membership", COMMON)

prop("C20", "Single-view pose optimizers keep good poses and improve bad ones",
 "Both single-view optimizers leave the pose unchanged for zero iterations, no landmarks or only landmarks at infinity, keep the exact pose fixed on exact data, always return a finite proper rigid motion, and from a moderately wrong pose bring the landmarks' total angular error down - towards zero for landmarks all around the camera. Each step is the rate times the mean correction (L1: damped harmonic-mean weights), and a run ends early only after 50 steps without progress. The result does not depend on landmark order or on the choice of world frame, scales with the scene, and running n then m iterations equals running n+m while no early stop has occurred.",
 ["inputs", "histories", "configurations"], "all poses, landmark sets of 1..60 incl. duplicates, outliers and points at infinity, epsilons, iteration counts; rates in (0,0.5], for the error of complete runs up to 0.02",
 "No buildable test runs an optimizer.",
 ["cv-optimize/src/single_view_optimizer.rs", "cv-geom/src/epipolar.rs"], [("single_view_simple_optimize_l1/l2", "cv-optimize/src/single_view_optimizer.rs"), ("world_pose_gradient", "cv-geom/src/epipolar.rs")],
 "runtime monitor: fixed-point, equivariance, composition and convergence monitors", COMMON)

prop("C21", "Three-view optimizers keep consistent poses and improve perturbed ones",
 "All three three-view optimizers leave the poses unchanged for zero iterations or no landmarks, keep exact poses fixed on exact landmarks, always return finite proper rigid motions, and from slightly wrong orientations reduce the epipolar error in most scenes. Each step is the rate times the mean of the landmarks' gradients (L1: damped harmonic-mean weights; adaptive: the mean times its share of the mean magnitude). Results do not depend on landmark order, follow rotation of any camera's frame and scaling of the scene, exchange when first and second camera are exchanged, and n then m iterations equals n+m while no early stop has occurred; the L1 and L2 optimizers stop early only after 50 steps in a row in which no pose had a smaller summed gradient than ever before, the adaptive one never.",
 ["inputs", "histories", "configurations"], "all pose pairs, landmark sets of 1..60 incl. inconsistent ones, rates, epsilons and iteration counts",
 "No buildable test runs an optimizer.",
 ["cv-optimize/src/three_view_optimizer.rs", "cv-geom/src/epipolar.rs"], [("three_view_simple_optimize_l1/l2, three_view_adaptive_optimize_l2", "cv-optimize/src/three_view_optimizer.rs"), ("three_view_gradients", "cv-geom/src/epipolar.rs")],
 "runtime monitor: fixed-point, equivariance, symmetry, composition and convergence monitors", COMMON)

prop("C22", "Epipolar gradients and loss vanish on, and only on, consistent geometry",
 "The point and world-pose gradients are the exact correction from the point to its ray and back (translation orthogonal to the bearing, rotation axis and sine of the angle between them), and the three-view gradients are zero for exact observations, rotate with the frame and swap with the cameras; their rotation parts turn each epipolar plane towards its counterpart (axis and sine of the angle between them; two thirds for the edge with the centre camera, one third for the other), also next to the baseline. The two-view loss is the sine of the smaller angular correction that makes the rays coplanar with the baseline, lies in [0,1], and is one when undefined or when the bearings oppose each other.",
 ["inputs"], "all translations, unit bearings and frames incl. bearings parallel to the baseline, zero baseline and behind-camera points",
 "No test calls these functions.",
 ["cv-geom/src/epipolar.rs"], [("point_gradient, world_pose_gradient, three_view_gradients, loss", "cv-geom/src/epipolar.rs")],
 "runtime monitor: closed-form geometric oracle and covariance monitor", COMMON)

prop("C23", "No input makes a geometric operation panic, hang or corrupt memory",
 "Every public operation of the core, geometry, camera, solver and optimizer crates returns within bounded time without panicking or invalid memory access for any finite input, however degenerate - coincident or collinear points, zero baselines, parallel or opposite bearings, points at infinity, rank-deficient and zero matrices. Where it returns poses or points these hold no NaN.",
 ["inputs"], "all operations on degenerate, duplicated, symmetric, extreme-magnitude and random finite inputs with unit bearings and proper rotations",
 "Tests use well-behaved random scenes; one regression test covers a single endless loop.",
 ["cv-core/src/pose.rs", "cv-geom/src/triangulation.rs", "lambda-twist/src/lib.rs", "nister-stewenius/src/lib.rs", "eight-point/src/lib.rs", "cv-optimize/src/three_view_optimizer.rs"],
 [("iteration caps and finite filters", "cv-geom/src/triangulation.rs"), ("iteration constants", "nister-stewenius/src/lib.rs"), ("Newton iteration caps", "lambda-twist/src/lib.rs")],
 "sanitizer (ASan build) + panic/hang/NaN monitor over hostile inputs; Miri in the thorough tier", COMMON)

prop("C24", "Results are a pure function of the inputs, across threads and history",
 "Calling any estimator, triangulator, optimizer or camera model twice on the same inputs gives bit-identical results, regardless of what was computed before, which thread runs it, or what other threads compute concurrently. Samples beyond those an estimator needs do not change its result.",
 ["histories", "schedules", "inputs"], "all operations, call histories and concurrent schedules of up to 8 threads sharing solver objects and input data",
 "Tests run each operation once in isolation.",
 ["cv-core/src/pose.rs", "cv-geom/src/triangulation.rs", "lambda-twist/src/lib.rs", "nister-stewenius/src/lib.rs", "eight-point/src/lib.rs", "cv-optimize/src/three_view_optimizer.rs", "cv-pinhole/src/lib.rs"],
 [("stateless &self estimators", "lambda-twist/src/lib.rs")],
 "history recorder + bitwise comparison across interleavings; ThreadSanitizer in the thorough tier", COMMON)

prop("C25", "Serialised poses, points and cameras come back bit-identical",
 "Serialising and deserialising any pose, point, key point, rotation or camera model - through a self-describing text format or a compact binary one - returns a value equal bit for bit that behaves identically. The serialised form carries every field, so two values that differ serialise differently.",
 ["inputs", "configurations"], "all serialisable types with finite values of every magnitude, sign and special pattern, JSON and bincode",
 "No test serialises anything.",
 ["cv-core/src/pose.rs", "cv-core/src/point.rs", "cv-core/src/keypoint.rs", "cv-core/src/so3.rs", "cv-pinhole/src/lib.rs"], [("serde derives", "cv-core/src/pose.rs")],
 "runtime monitor: round-trip recorder, bitwise comparison", COMMON)

prop("C26", "Consensus with the shipped solvers finds the true pose among outliers",
 "Running sample consensus with the three-point, five-point or eight-point solver on matches of which a sufficient share is exact returns a model that agrees with the true pose (translation up to scale for relative poses) and whose inlier set contains exactly the exact matches and none that is inconsistent with the model. A map triangulated from such a pose reproduces the scene up to scale, the pixels it was made from, and the pose of a further camera.",
 ["inputs", "histories"], "all scenes with 24..80 matches, 0..50% outliers, all solver and residual pairings, many consensus seeds",
 "Existing tests run one or two seeds with loose thresholds and no outliers, and no test runs the five-point solver.",
 ["lambda-twist/src/lib.rs", "eight-point/src/lib.rs", "nister-stewenius/src/lib.rs", "cv-core/src/pose.rs"], [("Estimator implementations", "lambda-twist/src/lib.rs"), ("Model residuals", "cv-core/src/pose.rs")],
 "end-to-end runtime monitor: ground-truth pose and inlier-set oracle with injected outliers", COMMON)

AKZ = "Held on the executions observed, nothing more. The crate is compiled from /repo's sources against stand-ins for crates that are not available offline (image, ndarray, nshare, primal, bitarray: /verif/akz), which are trusted; they reproduce the feature counts of the repository's own akaze tests."

prop("C27", "Image filters equal direct convolution with edges repeated",
 "Horizontal, vertical and separable filtering of a picture of any size with any odd kernel equal the direct correlation with edge pixels repeated, to single-precision rounding, and keep the size; the Gaussian kernel is the normalised sampled Gaussian, and blurring is filtering with it. Halving gives the floor of half of each side and the mean of every two-by-two tile (at an odd border, a value within its larger tile), and conversion from every pixel format gives the grey value on the scale from 0 to 1.",
 ["inputs"], "all picture sizes from one pixel up incl. smaller than the kernel and than a SIMD lane, all kernels, all sigmas, all pixel formats",
 "The crate's tests cannot be built here, and none looks at a filter's output.",
 ["akaze/src/image.rs"], [("horizontal_filter, vertical_filter, separable_filter", "akaze/src/image.rs"), ("gaussian_blur, gaussian_kernel, half_size, from_dynamic", "akaze/src/image.rs")],
 "runtime monitor: direct double-precision convolution oracle", AKZ)

prop("C28", "The scale space follows its schedule and diffuses as defined",
 "For any picture size and configuration the levels are those of the octaves whose shorter side is at least 40 pixels (a single sub-level below 80), with sigma doubling per octave, and the diffusion steps between two levels are positive, add up to the difference of their times and are the fewest a fast explicit scheme of limit 1/4 needs. Each level is its predecessor (halved at an octave) diffused by exactly these steps with conductivity 1/(1+g^2/k^2) of its smoothed gradient, k being the configured percentile of the picture's gradients and falling to three quarters per octave; the mean brightness is kept.",
 ["inputs", "configurations"], "all picture sizes up to 5000 (schedule) and 260 (diffusion), 1..40 sub-levels, 0..12 octaves, base scales 0.05..20",
 "The crate's tests cannot be built here; they only count features of two pictures.",
 ["akaze/src/evolution.rs", "akaze/src/fed_tau.rs", "akaze/src/nonlinear_diffusion.rs", "akaze/src/contrast_factor.rs", "akaze/src/lib.rs"],
 [("allocate_evolutions", "akaze/src/evolution.rs"), ("fed_tau_by_process_time", "akaze/src/fed_tau.rs"), ("calculate_step, pm_g2", "akaze/src/nonlinear_diffusion.rs"), ("create_nonlinear_scale_space", "akaze/src/lib.rs")],
 "runtime monitor: level-by-level re-derivation of recorded scale spaces", AKZ, hook="monitor_scale_space (cfg cv_monitor)")

prop("C29", "Key points are exactly the refined, dominant maxima of the response",
 "The detector response of a level is the scale-normalised determinant of the Hessian, from derivative filters whose response to a unit ramp is one at every scale. Every key point is a strict local maximum above the threshold, refined to the top of its parabola, with the size of its level and the direction of its strongest sixty-degree gradient window; every such maximum without a rival within its size on its own or a neighbouring level, and far enough from the border, is reported exactly once, and of two rivals only the stronger.",
 ["inputs", "configurations"], "all responses: planted peaks competing within and across levels and octaves, ties, borders, pictures; thresholds 1e-5..1e-1; all configurations",
 "The crate's tests cannot be built here; they only count features of two pictures.",
 ["akaze/src/detector_response.rs", "akaze/src/derivatives.rs", "akaze/src/scale_space_extrema.rs"],
 [("detector_response, scharr_horizontal/vertical", "akaze/src/detector_response.rs"), ("find_scale_space_extrema, do_subpixel_refinement, compute_main_orientation", "akaze/src/scale_space_extrema.rs")],
 "runtime monitor: exhaustive maxima search with rivalry, refinement and orientation oracles", AKZ, hook="monitor_scale_space (cfg cv_monitor)")

prop("C30", "Each descriptor bit is one comparison of two patch cells",
 "The descriptor of a key point consists, for its two by two, three by three and four by four grids in order and for each channel (brightness, then the gradient along and across its direction), of one bit per pair of cells, set when the first cell's mean exceeds the second's; the remaining bits are zero. A key point has a descriptor if and only if its whole turned pattern lies in the picture, in the order given and independently of the other key points, and turning picture and key point by a right angle does not change it.",
 ["inputs", "configurations"], "all key points (position, angle, size, level, also outside the picture), 1..3 channels, pattern sizes 4..15",
 "The crate's tests cannot be built here; none looks at a descriptor's bits.",
 ["akaze/src/descriptors.rs"], [("extract_descriptors, mldb_fill_values, mldb_binary_comparisons", "akaze/src/descriptors.rs")],
 "runtime monitor: bit-by-bit recomputation and quarter-turn comparison", AKZ, hook="monitor_scale_space (cfg cv_monitor)")

prop("C31", "Feature extraction is total, ordered, deterministic and follows the picture",
 "Extraction from a picture of any size and content returns, without panicking, one descriptor per key point, strongest response first and at most the configured maximum (the strongest ones), every key point lying in the picture; no features of a flat or too small picture; and bit for bit the same however often and with however many threads it is run. Brightness and contrast times a power of two (threshold following) change nothing but the responses, moving the content moves the features, the pixel format does not matter, and a lone spot is found at its centre with a size of one to four times its sigma.",
 ["inputs", "schedules", "configurations"], "all picture sizes from one pixel, contents (flat, noise, edges, photographs), configurations, 1..8 threads",
 "The crate's tests cannot be built here; they count the features of two pictures with two thresholds.",
 ["akaze/src/lib.rs", "akaze/src/scale_space_extrema.rs", "akaze/src/descriptors.rs", "akaze/src/image.rs"],
 [("extract, extract_from_gray_float_image", "akaze/src/lib.rs"), ("rayon feature", "akaze/src/detector_response.rs")],
 "runtime monitor: metamorphic and cross-build (sequential against parallel) comparison of features", AKZ, hook=None)

SFM = "Held on the executions observed, nothing more. The crate is compiled from /repo's sources against stand-ins for crates that are not available offline (slotmap, hgg, hamming-lsh, space, image, ply-rs...: /verif/akz), which are trusted, containers and nearest neighbours being exact; the consensus is a plain vote."

prop("C32", "Map cross references stay consistent through every history of operations",
 "Through every history of operations on the map (adding frames, reconstructions and views, removing views, splitting and merging landmarks, filtering, optimising, joining reconstructions, tracking), every feature of a view names a landmark which names that feature of that view, a landmark has at least one observation and at most one per view, a frame and its view name each other, feeds list their frames in order, and constraints are finite and between three views which exist. Each operation changes the observations in exactly the way it says - none is lost, duplicated or moved between features - and leaves other reconstructions alone.",
 ["histories", "inputs"], "all histories of up to forty operations on maps of up to a dozen views, with exact and wrong features, poses and merges; all tracking sequences",
 "The crate has no tests.",
 ["cv-sfm/src/lib.rs"], [("add_reconstruction, add_view, remove_view, split_observation, merge_landmarks", "cv-sfm/src/lib.rs"), ("filter_non_robust_observations, incorporate_reconstruction, register_frame", "cv-sfm/src/lib.rs")],
 "runtime monitor: state snapshots before and after every operation against a model of its effect, plus an integrity checker", SFM, hook="cv_sfm::monitor (cfg cv_monitor)")

prop("C33", "Pose graph: constraints, normalisation and joining keep the geometry",
 "A three-view constraint stands for six relative poses, each the inverse of the opposite one and consistent around the triangle. Each optimisation step moves every view by the rate times the sum of the se(3) deviations its constraints ask for, all from the poses before the step; consistent constraints are settled on; constraints generated from covisibility are exact for exact poses, and cameras which stand still neither lose views nor the map. Normalising a reconstruction puts the first view at the origin with a mean robust landmark distance of one and changes nothing but the coordinate frame and the scale; so does joining two reconstructions.",
 ["inputs", "histories"], "all graphs of three to nine views, rates, deviations up to large rotations, rings and chains of cameras, standing cameras",
 "The crate has no tests.",
 ["cv-sfm/src/lib.rs"], [("edge_constraints, flatten_constraints, apply_constraints, compute_momentum_bundle_adjust, constrain_view", "cv-sfm/src/lib.rs"), ("generate_view_constraints, optimize_three_view, normalize_reconstruction", "cv-sfm/src/lib.rs")],
 "runtime monitor: own pose-graph step model and rigid-motion oracle on recorded poses", SFM, hook="cv_sfm::monitor (cfg cv_monitor)")

prop("C34", "Matching, retrieval and outlier filtering of the map follow their criteria",
 "Two frames' features match exactly when each is the other's nearest and the nearest is closer than the second nearest by the configured number of bits. The frames looked at for tracking are the recent ones of the feed and the most similar ones, as configured, each once and never the frame itself. A landmark is robust exactly when enough observations are wide enough apart; a filtered map keeps the observations which agree with their landmark's point and splits off those which do not; of two observations in one view a merged landmark keeps the one which agrees.",
 ["inputs", "configurations"], "all descriptor sets with ties and near ties, histories of feeds and frames, maps with planted outliers and merges, all thresholds",
 "The crate has no tests.",
 ["cv-sfm/src/lib.rs"], [("matching, symmetric_matching, find_visually_similar_and_recent_frames", "cv-sfm/src/lib.rs"), ("are_observations_robust, is_observation_consistent, filter_non_robust_observations, merge_landmarks_dedup", "cv-sfm/src/lib.rs")],
 "runtime monitor: exhaustive matching and retrieval oracle, interval-valued robustness oracle, planted outliers", SFM, hook="cv_sfm::monitor (cfg cv_monitor)")

prop("C35", "Tracking a synthetic scene recovers cameras and landmarks",
 "Frames of a scene with enough points and parallax, given one after the other, end up in one reconstruction whose cameras and landmarks are those of the scene up to one similarity, with an error in proportion to the noise of the bearings and no landmark on features of different points. Wrong matches, empty or unrelated frames and frames which see too little are left out without harm; two scenes never share a reconstruction; two maps of one scene which a frame connects become one, at one scale. Pictures of a textured room end up the same way, to the accuracy of their features.",
 ["inputs", "histories"], "all scenes of 120..230 points, camera tracks, noise up to 3e-5 rad, up to 20 % wrong features, unrelated frames, one and two feeds, rendered rooms",
 "The crate has no tests.",
 ["cv-sfm/src/lib.rs"], [("add_frame, try_localize, init_reconstruction, register_frame", "cv-sfm/src/lib.rs"), ("try_merge_reconstructions, optimize_three_view", "cv-sfm/src/lib.rs")],
 "end-to-end runtime monitor: synthetic scenes with known poses and feature-to-point truth", SFM, hook="cv_sfm::monitor (cfg cv_monitor)")

prop("C36", "Settings, features, colours and exported or saved maps are faithful",
 "Settings survive being written and read, and a setting left out has its default value. The features of a frame are those the extractor finds in the picture with the configured threshold and limit, strongest first, each with its calibrated direction and the bicubic colour of the picture at its place. An exported map holds every robust landmark once in the colour of one of its observations and every camera as a pyramid at its centre, opening in the viewing direction, a hundredth of the mean landmark distance deep. A saved and loaded map is the same map and goes on being tracked.",
 ["inputs", "configurations", "histories"], "all subsets and values of settings, positions in and around pictures of 1..24 pixels, pictures, tracked maps",
 "The crate has no tests.",
 ["cv-sfm/src/lib.rs", "cv-sfm/src/export.rs", "cv-sfm/src/bicubic.rs", "cv-sfm/src/settings.rs"],
 [("kps_descriptors, export_reconstruction", "cv-sfm/src/lib.rs"), ("export", "cv-sfm/src/export.rs"), ("interpolate_bicubic", "cv-sfm/src/bicubic.rs"), ("serde defaults", "cv-sfm/src/settings.rs")],
 "runtime monitor: round trips, own bicubic and PLY parser against the recorded map", SFM, hook="cv_sfm::monitor (cfg cv_monitor)")

BUILT = os.environ.get("BUILT", "").split() or [l.strip() for l in open(os.path.join(os.path.dirname(__file__), "built.txt"))if l.strip()]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=p["hook"]))) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in BUILT:
        checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
            technique=p["technique"], level="exploration", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["reason"] or "check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="--cfg cv_monitor", enable="build.rs of /verif/akz/akaze_seq and /verif/akz/sfm/cv_sfm emit rustc-cfg=cv_monitor for akaze and cv-sfm; nothing else in /repo is hooked", source_commits=["de128aa4d815ba9489e940380b155e8505248599", "91eb2c985949f2fa44923140ae27f1c69f667da3"]), checks=checks, not_applicable=na,
    notes="C01-C26 are observed at public API boundaries without hooks; C28-C30 read the scale space through one guarded accessor, C32-C36 reach the map through another. See DESIGN.md."),
    open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
