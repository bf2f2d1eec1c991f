#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
O = "rct_optimizations/src/rct_optimizations/"
H = "rct_optimizations/include/rct_optimizations/"
I = "rct_image_tools/src/rct_image_tools/"
R = "rct_ros_tools/src/"

prop("C01", "Hand-eye calibration measures and solves the documented frame chain",
 "For every set of 2D-3D or 3D-3D observations, the hand-eye solver relates each feature to the camera through one chain (camera mount to camera, the observation's own two mount poses, target mount to target), so the initial cost it reports is half the mean squared feature error of the guess under that chain. From a nearby guess, noise-free observations that determine both poses make it converge to exactly the two poses that generated them, whichever side moves and in whatever order observations and features are listed.",
 ["inputs", "configurations"], "all mount poses, calibration poses, guesses, intrinsics, target points; any number, size, order and asymmetry of observations; moving camera, moving target or both",
 "The tests solve a handful of fixed layouts with one symmetric grid target and one Kinect camera, where one mount is always the identity and every observation has the same size; a wrong mount pairing, dropped features or a mis-scaled cost can still converge there.",
 [O+"extrinsic_hand_eye.cpp", H+"extrinsic_hand_eye.h", H+"eigen_conversions.h", H+"ceres_math_utilities.h"],
 [("residual chain of the two cost functions", O+"extrinsic_hand_eye.cpp ObservationCost / ObservationCost3D"), ("one residual block per feature of every observation", O+"extrinsic_hand_eye.cpp optimize()"), ("pose packing and unpacking", O+"eigen_conversions.cpp")],
 [("observation set", "features with the two mount poses they were taken at", H+"types.h Observation")],
 ["ExtrinsicHandEyeResult returned by optimize()"])

prop("C02", "Every multi-camera variant pairs each camera with its own image and pose",
 "In every multi-camera problem (target on a moving wrist, free target poses, rigid camera rig, rig pose estimation) the features of camera c in image i are explained by exactly that camera's intrinsics and pose and that image's wrist or target pose, so the initial cost is half the mean squared pixel error of the guess over all cameras and images. Noise-free data that determines the unknowns converges from a nearby guess to the poses that generated it; a camera declared fixed comes back exactly as given, and the rigid-rig variants preserve every camera-to-camera transform they were given.",
 ["inputs", "configurations"], "all numbers of cameras, images and features (including images not seen by some cameras), distinct intrinsics and wrist poses per camera, fixed and free first camera",
 "The tests use two or three cameras with the same intrinsics, the same image count and the same wrist poses for all cameras, so exchanging a camera or an image index is invisible to them.",
 [O+"extrinsic_multi_static_camera.cpp", O+"extrinsic_multi_static_camera_only.cpp", O+"extrinsic_multi_static_camera_wrist_only.cpp", O+"multi_camera_pnp.cpp"],
 [("per camera / per image residual blocks", O+"extrinsic_multi_static_camera*.cpp optimize()"), ("first camera held constant", O+"extrinsic_multi_static_camera_only.cpp"), ("cameras expressed relative to camera 0", O+"extrinsic_multi_static_camera_wrist_only.cpp")],
 None, ["results returned by optimize()"])

prop("C03", "Pose-from-features and circle fits recover the model that made the data",
 "For every camera, target and pose with the target in front of the camera, solving for the target pose from noise-free 2D or 3D features starting near the truth, including from the identity orientation, converges to that pose with zero cost, and the initial cost is half the mean squared feature error of the guess. Fitting a circle to points on a circle converges to its centre and radius in the same way.",
 ["inputs"], "all poses, intrinsics, target point sets (planar and not), guesses near the truth including exactly zero rotation; all circles, point counts and guesses",
 "The tests solve three camera poses and one circle; guesses with zero rotation, points off the grid plane and unequal focal lengths are never tried.",
 [O+"pnp.cpp", O+"circle_fit.cpp", H+"circle_fit.h"],
 [("feature residuals", O+"pnp.cpp SolvePnPCostFunc, SolvePnPCostFunc3D"), ("circle residual", H+"circle_fit.h CircleDistCost")],
 None, ["PnPResult, CircleFitResult"])

prop("C04", "Reported costs and the convergence flag describe the returned estimate",
 "Whatever the data (noisy, contradictory, badly started), the final cost per observation a solver reports is half the mean squared feature error of the estimate it returns and is never larger than the initial cost. Convergence is reported exactly when the solver stopped because it converged, so a converged estimate is a local minimum and an estimate from a run that was cut off is never called converged.",
 ["inputs", "configurations"], "all solvers; noisy, inconsistent and poorly started problems, including ones that exhaust the iteration limit",
 "The tests check the flag and a cost threshold on problems that converge; none looks at a run that does not converge, or recomputes a cost from the returned estimate.",
 [O+"extrinsic_hand_eye.cpp", O+"pnp.cpp", O+"multi_camera_pnp.cpp", O+"circle_fit.cpp", O+"extrinsic_multi_static_camera.cpp", O+"extrinsic_multi_static_camera_only.cpp", O+"extrinsic_multi_static_camera_wrist_only.cpp", O+"camera_intrinsic.cpp"],
 [("result packaging after the solve", "every optimize(): termination type, cost / residual count, pose unpacking")],
 None, ["all optimize() results"])

prop("C05", "A hand-eye guess that puts a feature behind the camera is refused",
 "2D hand-eye calibration refuses, with an error and before solving, exactly those problems in which the guess places at least one observed target feature at or behind the camera's image plane; every other problem is accepted for solving.",
 ["inputs"], "every guess, every observation and every feature position in the lists, including a single offending feature in the last place",
 "No test covers the refusal; it depends on every feature of every observation, not on the first.",
 [O+"extrinsic_hand_eye.cpp"], [("depth test on the guess", O+"extrinsic_hand_eye.cpp optimize(ExtrinsicHandEyeProblem2D3D)")],
 None, ["exception or result of optimize()"])

prop("C06", "All projection utilities implement one pinhole model and its inverse",
 "Both ways of projecting a camera-frame point agree with the pinhole model for points in front of and behind the camera, reprojection of a target lists one projected pixel per target point in order, and back-projecting pixels to a posed plane returns for each pixel the point of the plane that projects to it, expressed in the plane's frame. The 3D projection error lists, for each observation and feature in order, the distance between the target feature and its back-projected pixel under the calibrated frame chain; a ray parallel to the plane is an error.",
 ["inputs"], "all intrinsics, poses, pixels, points (both signs of depth) and observation lists, including empty ones",
 "The tests project one target at a few poses and compare against zero; negative depth, unequal observation sizes and non-zero errors are not checked.",
 [H+"ceres_math_utilities.h", O+"validation/projection.cpp", H+"validation/projection.h", O+"pnp.cpp"],
 [("two projection functions", H+"ceres_math_utilities.h projectPoint"), ("ray-plane intersection and frame change", O+"validation/projection.cpp")],
 None, ["returned arrays"])

prop("C07", "A covariance report pairs every value with the parameters it names",
 "For any least-squares problem, the covariance report lists exactly the unmasked parameters of the requested blocks in request order: each reported standard deviation, covariance and correlation is the one of the named parameter or pair, every unordered pair appears exactly once, and the matrices, lists and names agree with each other. The reported numbers are the inverse of the normal matrix of the whole problem (constant parameters have none; with fewer observations than free parameters, its pseudo-inverse). Requests whose names do not fit the blocks, and problems with enough but dependent observations, are refused with an error; threshold queries return exactly the pairs whose magnitude exceeds the threshold, largest first.",
 ["inputs", "configurations"], "all block counts and sizes, request orders, labels and masks; all covariance matrices including zero variances",
 "The tests check block sizes and a few symmetric problems; mis-paired names, masks in later blocks and zero variances would go unnoticed.",
 [O+"covariance_analysis.cpp", H+"covariance_analysis.h", H+"covariance_types.h"],
 [("mask filtering and label collection", O+"covariance_analysis.cpp computeCovariance"), ("upper-triangle listing", O+"covariance_analysis.cpp computeCovarianceResults"), ("normalisation", O+"covariance_analysis.cpp computeCorrelationsFromCovariance"), ("threshold queries", H+"covariance_types.h")],
 None, ["CovarianceResult"])

prop("C08", "Calibration covariances name the physical quantities they describe",
 "In every calibration result, the uncertainty reported under a pose component's name (position x, y, z or rotation rx, ry, rz of a named pose) or an intrinsic's name is the uncertainty of that component: rescaling all lengths rescales exactly the position entries, and relabelling the axes of a frame permutes exactly the matching entries. Every free parameter is reported exactly once under a unique name that identifies its pose, camera or image.",
 ["inputs", "configurations"], "all calibration problem types that report covariance, all numbers of cameras and images, all frame choices and length units",
 "The tests only count entries and compare values of symmetric problems; none relates a name to the quantity it stands for.",
 [O+"extrinsic_hand_eye.cpp", O+"pnp.cpp", O+"multi_camera_pnp.cpp", O+"camera_intrinsic.cpp", O+"extrinsic_multi_static_camera.cpp", H+"extrinsic_hand_eye.h", H+"extrinsic_multi_static_camera.h", H+"experimental/camera_intrinsic.h"],
 [("label composition per parameter block", "every optimize() that fills result.covariance"), ("component order of a packed pose", H+"types.h Pose6d")],
 None, ["result.covariance of every solver"])

prop("C09", "Everything that can be saved is read back as the same value",
 "Writing any supported value (intrinsics, poses, correspondences, observations, calibration problems and results, kinematic chains) to a document or a file and reading it back gives an equal value, for every orientation, list length and number the value may hold, and repeating the cycle any number of times changes nothing. Each field of a document is read as the quantity its published name stands for, in whatever order the fields come. (A result's covariance and a joint's limits are not part of the documents.)",
 ["inputs", "histories"], "all values of every serialisable type; any number of write-read cycles; nodes and files",
 "The tests round-trip one value per type, built with identity rotations and constants that hide exchanged fields.",
 [H+"serialization/eigen.h", H+"serialization/types.h", H+"serialization/problems.h", H+"dh_chain.h"],
 [("encode/decode pairs", H+"serialization/*.h"), ("chain encode/decode", H+"dh_chain.h")],
 None, ["YAML nodes and decoded values"])

prop("C10", "A document that lacks or adds required fields is never read as a value",
 "Reading a value from a document that misses a required field at any depth, or holds something that is not a value of the field's type, fails with an error instead of producing a partly filled value; intrinsics, correspondences, observations, calibration problems and results are also refused when they have fields of other names. Complete documents are read.",
 ["inputs", "fault_sequences"], "every supported type and every single deletion, insertion, renaming or type change of a field at any depth",
 "The tests only read well-formed documents.",
 [H+"serialization/eigen.h", H+"serialization/types.h", H+"serialization/problems.h", H+"dh_chain.h"],
 [("field count checks and typed reads", H+"serialization/*.h decode()")],
 None, ["exceptions and decoded values"])

prop("C11", "Forward kinematics composes the Denavit-Hartenberg chain as documented",
 "For every chain of revolute and prismatic joints, base offset, joint vector and set of parameter offsets, the pose returned equals the product of the base offset and, link by link, translation and rotation about z followed by translation and rotation about x, with the joint value added to the joint's own variable; a prefix of joint values gives the pose of that link, and the relative pose of a link is its own transform. Joint vectors or offset tables that do not fit the chain are refused, an offset chain equals the original evaluated with those offsets, and random joint vectors stay within every joint's limits.",
 ["inputs", "configurations"], "all chain lengths, joint types, parameters, offsets, joint values and base offsets",
 "The tests evaluate one industrial robot and compare with a table of four poses; prismatic joints, offsets in every column and chains with base offsets are not combined.",
 [O+"dh_chain.cpp", H+"dh_chain.h"],
 [("link transform", O+"dh_chain.cpp DHTransform::createRelativeTransform"), ("chain product", H+"dh_chain.h DHChain::getFK"), ("offset chain", O+"dh_chain.cpp DHChain(const DHChain&, offsets)")],
 None, ["poses, names and joint vectors returned"])

prop("C12", "Kinematic calibration changes only unmasked parameters and applies them right",
 "Kinematic calibration measures every observation through camera base, camera chain with offsets, camera mount, target mount, target chain with offsets and target base, whether it sees features or measures the pose of the target, and expects offsets to be zero within the given deviations: its initial cost is that of the guess, its final cost that of the estimate it returns, and never larger. Every parameter that a mask declares constant comes back exactly as given, and the standard deviation of each of the others is reported once, under its name; the printed list of what is optimized names these and no others. From a nearby guess and with noise-free features the others converge to values that explain the data. A mask of a parameter that does not exist, or joint values that do not fit the chain, are an error.",
 ["inputs", "configurations"], "all masks, chains, offset guesses and observation sets, camera or target on the robot",
 "The sources of this solver are not even compiled by the offline test build.",
 [O+"dh_chain_kinematic_calibration.cpp", H+"dh_chain_kinematic_calibration.h", H+"local_parameterization.h", H+"maximum_likelihood.h"],
 [("mask construction and subset parameterisation", H+"local_parameterization.h addSubsetParameterization"), ("dual chain cost functions", H+"dh_chain_kinematic_calibration.h")],
 None, ["KinematicCalibrationResult"])

prop("C13", "Homography check is exact for projective images and exposes every outlier",
 "When the image of a planar target is an exact projective image, the homography error of every feature is zero whatever valid sample is chosen; when the sampled features are exact, each remaining feature's error is exactly its distance from the projective prediction, in feature order. Samplers return only valid feature indices, the grid sampler the four grid corners for every size and stride, a seeded random sampler always the same choice of distinct features; too few features or samples are an error.",
 ["inputs", "configurations"], "all homographies, target grids, strides, sample sizes, seeds and displaced features",
 "One test grid size and one perturbation; strides other than 1, non-square grids and 3D features with differing depth are not covered.",
 [O+"validation/homography_validation.cpp", H+"validation/homography_validation.h"],
 [("corner indices", O+"validation/homography_validation.cpp GridCorrespondenceSampler"), ("8-parameter linear system", O+"validation/homography_validation.cpp calculateHomographyError")],
 None, ["returned error vectors and indices"])

prop("C14", "Intrinsic calibration and its validation agree with the imaging model",
 "Splitting an observation into two halves, the virtual-target check reports the true transform and its distance and angle between the two half targets: zero for features made with the given intrinsics and exactly the imposed displacement otherwise, and the accuracy report gives mean and population deviation of these over the observations. Intrinsic estimation from noise-free images returns the intrinsics, distortion and one target pose per image that made them and uses given pose guesses; input that is empty, of inconsistent sizes, or whose pose cannot be solved within the error threshold is an error and never a silent result.",
 ["inputs", "configurations"], "all intrinsics, poses, imposed displacements, observation counts and sizes, guess options",
 "The tests use perfect data or one perturbation and check upper bounds only; nothing tests intrinsic estimation with a failed image or its returned poses.",
 [O+"validation/camera_intrinsic_calibration_validation.cpp", O+"camera_intrinsic.cpp", H+"experimental/camera_intrinsic.h"],
 [("half split and two pose solves", O+"validation/camera_intrinsic_calibration_validation.cpp"), ("bundle over intrinsics and poses", O+"camera_intrinsic.cpp")],
 None, ["returned statistics, intrinsics and poses"])

prop("C15", "Noise qualification reports the true statistics of the solved poses",
 "For any set of problems, noise qualification reports the mean and (population) standard deviation of the positions and the mean orientation and (sample) deviation of the angles from it, over exactly the problems that were solved, for 2D and 3D sensors alike; quaternions of either sign count as the same orientation and the order of the problems does not matter.",
 ["inputs"], "all sets of target poses, orientation spreads, quaternion signs and orders, sets with unsolved problems",
 "The tests draw one random sample and accept a wide tolerance around the distribution parameters.",
 [O+"validation/noise_qualification.cpp"],
 [("accumulators and quaternion mean", O+"validation/noise_qualification.cpp")],
 None, ["PnPNoiseStat, QuaternionStats"])

prop("C16", "Targets place every feature where their definition says and match by identity",
 "For every grid size, spacing and dictionary, a target's features lie at the documented positions with the documented identifiers, and correspondences pair each found feature with the target point of the same identifier and the same element of it, whatever subset was found and in whatever order; a feature that does not belong to the target is an error, and a circle grid needs all of its features. Two targets compare equal exactly when kind, size, spacing and dictionary agree.",
 ["inputs", "configurations"], "all rows, columns, spacings, marker sizes, id subsets",
 "One target of each kind with all features visible is tested.",
 [I+"aruco_grid_target.cpp", I+"charuco_grid_target.cpp", I+"modified_circle_grid_target.cpp"],
 [("point construction and createCorrespondences", I+"*_target.cpp")],
 None, ["points, maps and correspondence sets"])

prop("C17", "A circle grid is read in the same feature order from every viewpoint",
 "For every image in which the front of a modified circle grid (two or more rows and columns) is clearly visible, at any in-plane rotation and moderate tilt, with or without other discs at a distance, the finder returns every grid feature exactly once under the identifier of the physical circle it is, so that the marked large circle fixes the order. When circles of the grid are covered or outside the image it reports failure, never a partial or misordered set. Finding and drawing leave the image as it was.",
 ["inputs", "configurations"], "all grid sizes, in-plane rotations, tilts, scales and image positions; covered circles, rows and columns; bright and dark circles",
 "The tests read a few stored images of one grid size at one orientation each and count features.",
 [I+"modified_circle_grid_finder.cpp", I+"modified_circle_grid_target.cpp", I+"circle_detector.cpp"],
 [("ordering from the largest circle and grid corners", I+"modified_circle_grid_finder.cpp")],
 None, ["TargetFeatures returned by findTargetFeatures"])

prop("C18", "Circle detection keeps exactly the blobs its parameters admit",
 "For every image of well-separated blobs, circle detection reports exactly those blobs that are visible at enough thresholds and satisfy every enabled area, colour, circularity, inertia and convexity limit, once each, at their true centre and size; disabled limits have no influence and invalid parameters are refused.",
 ["inputs", "configurations"], "all parameter settings and images of separated discs, ellipses and polygons of any grey level",
 "The tests only run the detector with default parameters inside the grid finder.",
 [I+"circle_detector.cpp", "rct_image_tools/include/rct_image_tools/circle_detector.h"],
 [("threshold sweep, filters and grouping", I+"circle_detector.cpp")],
 None, ["keypoints returned by detect()"])

prop("C19", "Marker targets are read from partial views, by identity, without side effects",
 "For every subset of visible markers and every viewpoint, the marker finders report the visible markers of an ArUco grid, or the chessboard corners of which both touching markers are read, under their own identifiers at their true pixel positions (corners in marker order). Covered, foreign and off-picture markers yield no feature; when nothing usable is visible they report no feature (an error or an empty set). Finding and drawing never modify the caller's image.",
 ["inputs", "histories"], "all marker subsets, rotations, foreign markers, image contents; repeated find and draw calls",
 "The tests read one complete image of each target.",
 [I+"aruco_finder.cpp", I+"charuco_finder.cpp"],
 [("marker detection and board membership", I+"aruco_finder.cpp, charuco_finder.cpp")],
 None, ["TargetFeatures, input and output images"])

prop("C20", "Stored data sets and configuration are loaded completely or refused",
 "A saved calibration data set is loaded again with the same images, poses and pairing of image and pose, in order; an entry that cannot be read is an error or is skipped together with its partner, never paired with another one. Parameters, poses, intrinsics and target definitions are loaded exactly as written, and a missing or mistyped one is reported.",
 ["inputs", "fault_sequences", "histories"], "all data set sizes, poses and file names; every missing or corrupt file or field",
 "The package is not built or tested offline; its only test loads three target plugins.",
 [R+"data_set.cpp", R+"parameter_loaders.cpp", R+"loader_utils.cpp"],
 [("index file and image/pose files", R+"data_set.cpp"), ("typed parameter reads", R+"parameter_loaders.cpp, loader_utils.cpp")],
 None, ["files written, structures loaded, exceptions"])

prop("C21", "Results depend only on the call's inputs, not on history or other threads",
 "Every public computation gives the same result for the same input whatever was computed before it in the process and whatever other threads compute at the same time, and leaves its input unchanged. Random choices are reproducible from the seed the caller gave.",
 ["schedules", "histories"], "all interleavings and sequences of calls of all solvers, validators, finders and chains",
 "Every test runs one computation in a fresh state on one thread.",
 [O+"*.cpp", I+"*.cpp"],
 [("no hidden mutable state", "all sources")],
 None, ["results of repeated, interleaved and concurrent calls"])

prop("C22", "Pose conversions and comparisons preserve and distinguish poses",
 "Converting any rigid pose to its six-parameter or quaternion form and back gives the same pose, transforming a point gives the same result in either form, and chaining conversions never changes handedness or composition order. Two values compare equal exactly when all their parts are equal to within the documented precision, so a difference in any single part is detected.",
 ["inputs"], "all rotations including zero, half turns and near-zero angles, all translations; all single-part differences",
 "The tests convert three poses and never compare unequal values.",
 [O+"eigen_conversions.cpp", H+"ceres_math_utilities.h", H+"types.h"],
 [("angle-axis packing", O+"eigen_conversions.cpp"), ("operator==", H+"types.h")],
 None, ["converted poses, comparison results"])

prop("C24", "The data collector stores exactly the pairs the user asked it to collect",
 "While the data collector runs, which needs all its parameters, target finder and transform, a request to collect succeeds exactly when the transform is (or shortly becomes) available and a readable image has arrived, and then records the latest such image, as it arrived, with the transform of that moment; a refused request records nothing. A request to save writes exactly the recorded pairs, in order, as a data set that loads back to them, and succeeds exactly if it was written; saving again later keeps all of them. Every readable image is shown once under its own header, with its target drawn if one was found and as it is otherwise; no unreadable image and no failing detection ends the session.",
 ["histories", "inputs", "fault_sequences"], "all sequences of images (of every supported encoding, readable or not, with and without target), transform changes and losses, requests and obstacles in the file system; all missing or wrong parameters",
 "The node is not built or tested offline; its state is the history of messages and requests, which no test replays.",
 [R+"command_line_cal.cpp"],
 [("image callback", R+"command_line_cal.cpp ImageMonitor::onNewImage"), ("collect and save requests", R+"command_line_cal.cpp DataCollection"), ("transform lookup", R+"command_line_cal.cpp TransformMonitor")],
 [("recorded pairs", "images and transforms collected so far", R+"command_line_cal.cpp DataCollection::images, poses"), ("latest image", "the last readable image", R+"command_line_cal.cpp ImageMonitor::last_frame_")],
 ["service responses, republished images, files written, exit code"])

X = "rct_examples/src/tools/"
prop("C23", "The calibration tools solve what was observed and report it under its name",
 "Each calibration tool gives the solver exactly the observations of the images in which its target was found (for hand-eye tools also within the homography threshold), each with its own wrist pose, camera and features, and with the intrinsics and guesses of its parameters. It prints the solver's results under the frames they belong to, compares each observation with the pose solved for that same image, drawing the target's points in that same picture where the result and the comparison have them, and reports the true statistics of the differences and the verdict that follows from them. A missing or malformed parameter, data set or target, or a failing solver, makes the tool end in an error, the former before anything is solved; an image that cannot be used is skipped and never ends the tool.",
 ["inputs", "configurations", "fault_sequences"], "all data sets of all cameras, with images in which the target is found, wrongly found, not found, or the finder fails in any way; all missing or malformed parameters and files; all answers and failures of the solvers",
 "The tools are programs without a single test; they are not even built where ROS is not installed.",
 [X+"camera_on_wrist_extrinsic.cpp", X+"static_camera_extrinsic.cpp", X+"hand_eye_calibration_analysis.h", X+"multi_static_camera_extrinsic.cpp", X+"multi_static_camera_multi_step_extrinsic.cpp", X+"intrinsic_calibration.cpp", X+"camera_intrinsic_calibration_validation.cpp", X+"noise_qualification_2d.cpp", X+"solve_pnp.cpp", X+"solve_multi_camera_pnp.cpp", "rct_common/include/rct_common/print_utils.h"],
 [("loop over the images", X+"*.cpp main"), ("comparison with PnP", X+"hand_eye_calibration_analysis.h analyzeResults"), ("printed transforms", "rct_common/include/rct_common/print_utils.h printTransform")],
 None, ["problems given to the solvers, standard output, log, windows, exit code"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]): f.write(json.dumps(p) + "\n")
print(len(P))
