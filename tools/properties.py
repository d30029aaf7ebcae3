#!/usr/bin/env python3
"""Source of properties.jsonl: run to regenerate it."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

TRI = ["cv-geom/src/triangulation.rs", "cv-core/src/point.rs", "cv-core/src/triangulation.rs", "cv-core/src/pose.rs"]
prop("C01", "A triangulated landmark is finite and in front of every camera that saw it",
  "Whenever triangulation of a landmark from the observations a system currently holds returns a point, every coordinate of that point is a number and the point (finite or at infinity) lies in the hemisphere of the bearing of every camera that observed it. Corrupt observations (outliers, mirrored or swapped bearings, NaN) can make it return nothing, never a point behind a camera, a NaN or a panic. The same observations and poses always give the same answer.",
  ["inputs", "histories", "fault_sequences"],
  "for every set of camera poses, every history of delivered, lost, duplicated, reordered, corrupted and replaced observations and poses, and every prefix of it",
  "No existing test feeds a triangulator corrupt or contradictory observations, or triangulates again as observations arrive; the tests sample a few random well-formed camera pairs.",
  TRI,
  [("chirality check in each triangulator", "cv-geom/src/triangulation.rs"), ("bearing and homogeneous point conversions", "cv-core/src/point.rs")],
  observe=["TriangulatorObservations::triangulate_observations", "TriangulatorRelative::triangulate_relative"])
prop("C02", "Once observations are exact, every triangulator recovers the landmark",
  "Once a system holds exact observations of a landmark from camera poses that determine it, and nothing corrupt remains, triangulation returns that landmark: its position for a finite landmark, near or far. A landmark at infinity is given its exact direction or, since rounding decides on which side of infinity it is seen, no point; looked at again and again it is seen. This holds for every number and order of observations, for the pairwise and the relative forms, for cameras anywhere and oriented any way, and at every scene scale.",
  ["inputs", "histories", "schedules"],
  "for every scene, camera motion and scale, and every delivery order after which the held observations are exact",
  "Existing tests triangulate a handful of random two-camera scenes of one scale; delivery order, many observers, repeated observations, far landmarks and landmarks at infinity are not sampled.",
  TRI,
  [("eigenvector of least design error", "cv-geom/src/triangulation.rs"), ("angular refinement and mid-point methods", "cv-geom/src/triangulation.rs")],
  observe=["TriangulatorObservations::triangulate_observations", "TriangulatorRelative::triangulate_relative"])
prop("C03", "Noisy triangulation is order-independent and as good as its method promises",
  "For noisy observations the triangulated landmark does not depend on the order in which observations arrived, and methods that promise to minimise an angular or algebraic error return a point that no nearby point or independent reference beats. Iterative refinement never makes its error worse as it is given more iterations, and converges to a point where further iterations change nothing.",
  ["inputs", "histories", "schedules", "configurations"],
  "for every noise level, delivery order, subset of observers and iteration budget",
  "The existing tests only compare against ground truth at fixed noise and the default budget; they never permute observations, vary budgets, or check optimality.",
  TRI,
  [("iterative reweighted refinement", "cv-geom/src/triangulation.rs"), ("closed-form optimal angular correction", "cv-geom/src/triangulation.rs")],
  observe=["TriangulatorObservations::triangulate_observations"])
prop("C04", "Running out of an iteration budget gives no answer, never a different one",
  "A solver that takes a convergence threshold and an iteration budget returns, at every budget, either no answer or the answer it gives with an ample budget; once it answers at some budget it answers at every larger one. With the default budget it answers every well-posed problem correctly, so a system that retries stalled jobs with growing budgets always finishes.",
  ["configurations", "schedules", "inputs", "fault_sequences"],
  "for every job, every iteration budget a deadline leaves it, and every sequence of stalls and retries",
  "All tests run the solvers once with default budgets and thresholds.",
  ["cv-pinhole/src/essential.rs", "cv-geom/src/triangulation.rs", "eight-point/src/lib.rs", "lambda-twist/src/lib.rs", "nister-stewenius/src/lib.rs"],
  [("bounded decompositions with early exit", "cv-pinhole/src/essential.rs"), ("bounded decompositions", "cv-geom/src/triangulation.rs")],
  observe=["EssentialMatrix::recondition/possible_rotations/possible_unscaled_poses", "LinearEigenTriangulator", "RelativeDltTriangulator", "EightPoint", "LambdaTwist", "NisterStewenius"])
prop("C05", "Eight exact matches always yield the true relative pose",
  "For every eight exact, non-degenerate matches in any order, the estimator returns exactly four candidate poses (two rotations, each with both unit translation directions) that all satisfy the sample's epipolar equations, one of them the true relative pose up to scale. For any finite sample, contaminated or degenerate, every candidate is a finite rigid motion, and a sample with non-numbers yields no candidate. Sampling consensus over a majority of exact matches therefore ends at the true pose whatever the sampling schedule.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "for every scene, sample, sample order, contamination and sampling schedule",
  "One existing test draws random scenes and checks one rotation-and-translation tolerance on clean data, always in the same order.",
  ["eight-point/src/lib.rs", "cv-pinhole/src/essential.rs", "cv-core/src/pose.rs"],
  [("null vector of the epipolar equations", "eight-point/src/lib.rs"), ("rank and singular value reconditioning, pose decomposition", "cv-pinhole/src/essential.rs")],
  observe=["EightPoint::from_matches", "Estimator::estimate"])
prop("C06", "Three exact landmarks always yield the true camera pose",
  "For every three exact, non-degenerate landmark observations in any order, the estimator returns at most four candidate poses, all rigid and all reprojecting the sample onto its bearings, one of them the true pose. Contaminated, duplicated or collinear samples yield only finite rigid candidates, and samples containing landmarks at infinity yield none. Sampling consensus over a majority of exact observations therefore ends at the true pose whatever the sampling schedule.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "for every scene and scale, sample, contamination and sampling schedule",
  "Existing tests draw a few hundred random clean samples near one scale and only check that one candidate is close.",
  ["lambda-twist/src/lib.rs", "cv-core/src/pose.rs", "cv-core/src/point.rs"],
  [("cubic root, depth recovery and refinement", "lambda-twist/src/lib.rs")],
  observe=["Estimator::estimate", "Model::residual"])
prop("C07", "Five exact matches yield the true relative pose, and the estimator always ends",
  "For five exact, non-degenerate matches in any order (planar and purely translating motions included) the true relative pose is among the candidates (up to scale), and candidates satisfy the sample's epipolar equations. For every sample, including duplicated matches, contradictory matches and non-numbers, the estimator terminates, and every candidate is a finite rigid motion with a unit translation. Sampling consensus over a majority of exact matches therefore ends at the true pose.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "for every scene, sample, contamination and sampling schedule (samples near double roots of the minimal problem may lose accuracy)",
  "The existing tests cover polynomial arithmetic helpers only; no test runs the estimator on a scene.",
  ["nister-stewenius/src/lib.rs", "cv-pinhole/src/essential.rs"],
  [("null space, polynomial elimination and action matrix", "nister-stewenius/src/lib.rs"), ("pose decomposition", "cv-pinhole/src/essential.rs")],
  observe=["Estimator::estimate"])
prop("C08", "A consensus score measures exactly how far a match is from a model",
  "The score of a match under a relative pose, a landmark under a camera pose, or a match under an essential matrix equals the cosine distance (relative and camera poses, from 0 to 2) or algebraic epipolar error that geometry defines, and is zero for exact matches with parallax under the true model. A cosine distance is in its range for every input, and 2, the worst, for matches that are not numbers or have no angle. Reprojection errors equal the distances between the projections of the triangulated point and the observations, and are absent exactly when that point is not visible. So ranking models by score ranks the true model first however matches arrive.",
  ["inputs", "histories", "schedules"],
  "for every candidate model produced during consensus and every match held, exact or corrupt",
  "No existing test evaluates residuals on candidate models, corrupt matches or points at infinity.",
  ["cv-core/src/pose.rs", "cv-pinhole/src/essential.rs", "cv-pinhole/src/lib.rs", "cv-geom/src/triangulation.rs"],
  [("relative and absolute pose residuals", "cv-core/src/pose.rs"), ("essential residual", "cv-pinhole/src/essential.rs"), ("reprojection errors", "cv-pinhole/src/lib.rs")],
  observe=["Model::residual", "pose_reprojection_error", "average_pose_reprojection_error"])
prop("C09", "Single-camera optimization never leaves SE(3) and moves toward the truth",
  "Optimizing a camera pose against landmark observations always returns a finite rigid pose, whatever the landmarks (corrupt, at infinity, none at all) and the iteration budget; no landmarks or no iterations leave the pose unchanged, and a pose that fits exactly stays put. Splitting a budget at any crash point and resuming from the saved pose gives the same pose as one uninterrupted call, and the order of landmarks does not matter. With exact landmarks at comparable ranges a slightly wrong pose ends closer to the true one.",
  ["inputs", "histories", "crash_points", "schedules"],
  "for every scene, initial pose, corruption, batch boundary, crash point and budget",
  "The repository has no test of its optimizers.",
  ["cv-optimize/src/single_view_optimizer.rs", "cv-core/src/pose.rs", "cv-core/src/so3.rs"],
  [("gradient accumulation and step", "cv-optimize/src/single_view_optimizer.rs"), ("tangent space maps", "cv-core/src/so3.rs")],
  observe=["single_view_simple_optimize_l1", "single_view_simple_optimize_l2"])
prop("C10", "Three-camera optimization never leaves SE(3) and keeps exact poses",
  "Jointly optimizing two camera poses relative to a third always returns finite rigid poses, whatever the matches (corrupt, at infinity, none at all) and the iteration budget; no matches or no iterations leave the poses unchanged. Poses that fit exact matches of finite, well-separated points stay put. Splitting a short budget at any crash point and resuming from saved poses equals one uninterrupted call, the order of matches does not matter, and slightly wrong poses usually end with a smaller misfit.",
  ["inputs", "histories", "crash_points", "schedules"],
  "for every scene, initial poses, corruption, crash point and budget",
  "The repository has no test of its optimizers.",
  ["cv-optimize/src/three_view_optimizer.rs", "cv-core/src/pose.rs"],
  [("gradient accumulation and step", "cv-optimize/src/three_view_optimizer.rs")],
  observe=["three_view_simple_optimize_l1", "three_view_simple_optimize_l2", "three_view_adaptive_optimize_l2"])
prop("C11", "What was saved and acknowledged is restored exactly; torn data is refused",
  "Poses, points, bearings, matches, calibrations and keypoints written to storage and acknowledged are restored equal in every bit after a crash and restart, in text and in binary form. A restore from torn, truncated or interrupted data is an error, never a silently different value or a panic. Values restored by one node behave exactly like the originals of another.",
  ["crash_points", "fault_sequences", "histories", "inputs"],
  "for every value, every write order, every crash point and every fault of the storage (short, torn, interrupted and refused writes and reads)",
  "No existing test serializes anything.",
  ["cv-core/src/pose.rs", "cv-core/src/point.rs", "cv-core/src/matches.rs", "cv-core/src/so3.rs", "cv-core/src/keypoint.rs", "cv-pinhole/src/lib.rs"],
  [("serialization of the public value types", "cv-core/src")],
  observe=["Serialize/Deserialize of the public types"])
prop("C12", "Poses exchanged between maps compose, invert and close loops consistently",
  "Relations between frames that nodes derive from each other's camera poses agree on every shared landmark: composing along any path, inverting, closing loops and converting through the compact exchange form and back give the same rigid motion, for every rotation including half turns and the identity. Rescaling moves positions and never directions, and the Jacobians of a pose predict what small moves of the point and the pose do. Maps that were partitioned converge to one consistent map once messages flow again, whatever the delivery order.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "for every set of poses, every message order, loss, duplication and partition, and every path through the frame graph",
  "Existing tests check a few fixed poses; no test composes paths, exchanges tangent-space forms or covers half turns.",
  ["cv-core/src/pose.rs", "cv-core/src/so3.rs", "cv-core/src/point.rs"],
  [("pose algebra", "cv-core/src/pose.rs"), ("exponential and logarithm maps", "cv-core/src/so3.rs")],
  observe=["Pose trait", "WorldToWorld::from_camera_poses", "Skew3", "Se3TangentSpace"])
prop("C13", "A session from pixels to map is consistent with what the cameras saw",
  "From pixels of a calibrated, possibly distorted camera, a session that calibrates keypoints, bootstraps a relative pose, triangulates, registers further cameras and survives crashes ends with the true motion and map up to scale, and projecting its landmarks gives back the pixels that were observed. Calibrating a pixel and projecting the bearing back is the identity for every pixel on the sensor, including the principal point and without distortion. Bearings always point in front of the camera.",
  ["inputs", "histories", "schedules", "crash_points", "fault_sequences"],
  "for every camera model, motion, pixel, delivery order and crash point",
  "Existing tests round-trip a few pixels; nothing runs the pipeline end to end or at the principal point.",
  ["cv-pinhole/src/lib.rs", "cv-pinhole/src/essential.rs", "cv-core/src/camera.rs", "eight-point/src/lib.rs", "lambda-twist/src/lib.rs", "cv-geom/src/triangulation.rs"],
  [("intrinsics with and without distortion", "cv-pinhole/src/lib.rs"), ("relative pose, registration and triangulation of a session", "eight-point/src/lib.rs")],
  observe=["CameraModel::calibrate/uncalibrate", "CameraSpecification", "Estimator::estimate", "TriangulatorObservations::triangulate_observations"])
prop("C14", "Features do not depend on how parallel work is scheduled",
  "Extracting features from an image gives bit for bit the same keypoints and descriptors in the same order, built for one thread or with parallelism, in whatever order the parallel tasks run, however often it is called and whatever was extracted before. A limit on the number of features keeps exactly the best of those found without one, in the same order.",
  ["schedules", "histories", "inputs"],
  "for every image, setting, order of parallel tasks, limit and history of earlier calls",
  "The existing akaze test extracts from two images with one build and counts features; no test varies schedules, limits or history.",
  ["akaze/src/lib.rs", "akaze/src/detector_response.rs", "akaze/src/descriptors.rs", "akaze/src/scale_space_extrema.rs"],
  [("parallel evolution of derivatives, responses and descriptors", "akaze/src"), ("limit on features", "akaze/src/lib.rs")],
  observe=["Akaze::extract", "Akaze::maximum_features"])
prop("C15", "Every camera frame is survived and yields only well-formed features",
  "Extracting features ends without a panic for every image: of any size including empty, in any pixel format, blank, saturated, torn or with pixels that are not numbers, and for every sensible setting. What it finds is well formed: as many descriptors as keypoints and no more than asked for, best first, each inside the image with a response above the threshold, an angle in one turn, a positive size, an octave that exists and no descriptor bits beyond those in use. A frame without anything on it has no features.",
  ["inputs", "fault_sequences", "histories"],
  "for every frame a faulty camera can deliver and every setting",
  "The existing akaze test uses two good images; no test covers degenerate sizes, blank frames, other formats or settings.",
  ["akaze/src/lib.rs", "akaze/src/evolution.rs", "akaze/src/image.rs", "akaze/src/scale_space_extrema.rs", "akaze/src/fed_tau.rs"],
  [("planning of the scale space", "akaze/src/evolution.rs"), ("keypoint search and refinement", "akaze/src/scale_space_extrema.rs")],
  observe=["Akaze::extract"])
prop("C16", "Features are those that AKAZE defines, wherever the camera looks",
  "The keypoints and descriptors of an image are those of the AKAZE method at the given settings: maxima of the scale-normalised determinant of the Hessian over a nonlinear scale space built by fast explicit diffusion, thinned across neighbouring levels, refined to less than a pixel, directed by the strongest gradient sum, and described by comparisons of averages over turned grids. Position, response, size, octave, angle and descriptor of each agree with an independent computation in double precision, up to rounding.",
  ["inputs", "histories", "fault_sequences"],
  "for every image a camera delivers, in every pixel format, and every setting",
  "The existing akaze test only counts the features and matches of two images at default settings.",
  ["akaze/src/nonlinear_diffusion.rs", "akaze/src/contrast_factor.rs", "akaze/src/derivatives.rs", "akaze/src/detector_response.rs", "akaze/src/scale_space_extrema.rs", "akaze/src/descriptors.rs", "akaze/src/fed_tau.rs", "akaze/src/image.rs"],
  [("diffusion and contrast", "akaze/src/nonlinear_diffusion.rs"), ("extrema, refinement and orientation", "akaze/src/scale_space_extrema.rs"), ("descriptors", "akaze/src/descriptors.rs")],
  observe=["Akaze::extract", "KeyPoint"])
prop("C17", "A map stays whole whatever happens to its frames and landmarks",
  "A mapping node survives every session without a panic, and its map stays whole after every step: every view belongs to one frame that knows it, no frame is in two places, every feature of a view has exactly one landmark and that landmark knows it, no landmark is without observations, constraints join three different views that exist, and every pose is a rigid motion of numbers. A landmark counts as robust exactly when enough views see it from directions far enough apart, and only then has it a place, the one its observations give. Merging two landmarks loses and invents no observation and, of two in one view, keeps the one nearer to its landmark; filtering separates exactly the observations that do not agree on where their landmark is; applying constraints moves every view by what its constraints ask of it; normalizing keeps the shape of the map; joining two maps keeps both where they were said to be, with the landmarks said to be the same as one, all others apart, and every view that came along tied to the rest by as many constraints as are demanded. An operation answers that a map is gone exactly when it is.",
  ["histories", "fault_sequences", "schedules", "inputs", "crash_points"],
  "for every sequence of frames, faults of frames, settings and operations on the map",
  "cv-sfm has no tests at all.",
  ["cv-sfm/src/lib.rs"],
  [("the map and what refers to what in it", "cv-sfm/src/lib.rs"), ("splitting, merging and filtering of landmarks", "cv-sfm/src/lib.rs"), ("constraints and their optimization", "cv-sfm/src/lib.rs")],
  observe=["VSlam::add_frame", "VSlam::optimize_reconstruction", "VSlam::apply_constraints", "VSlam::regenerate_reconstruction", "VSlam::filter_non_robust_observations", "VSlam::merge_landmarks_dedup", "VSlam::incorporate_reconstruction", "VSlam::normalize_reconstruction"])
prop("C18", "A map shows where cameras and landmarks really are, and tracking recovers",
  "A map built from exact sightings has its cameras and landmarks where they were in the world, up to the position, direction and size that cannot be known, after every step: while frames are added, maps of several feeds meet and become one, frames are blank, blurred, cluttered or occluded, and after crashes and optimizations. Frames of different places never share a map, and a landmark is one point of the world. Once its frames are good again, a camera is placed in one map within a few frames and stays in it.",
  ["histories", "fault_sequences", "schedules", "inputs", "crash_points"],
  "for every world, path of the cameras, order of frames of several feeds, fault of frames and crash point; cameras of a map stand well apart and see nothing along the lines between them",
  "cv-sfm has no tests at all.",
  ["cv-sfm/src/lib.rs", "cv-optimize/src", "cv-geom/src", "eight-point/src/lib.rs", "lambda-twist/src/lib.rs"],
  [("initialization, registration and merging of maps", "cv-sfm/src/lib.rs"), ("optimization of poses", "cv-sfm/src/lib.rs")],
  observe=["VSlam::add_frame", "VSlamData::pose", "VSlam::triangulate_landmark_robust"])
prop("C19", "A saved map is restored exactly, and settings left out are the defaults",
  "A map written to storage and read again, by this process or the one after a crash, is the same in every bit: feeds, frames with their features and descriptors, views, landmarks, constraints and what finds similar frames; and the session goes on from it as a whole map. A torn map is refused. Settings read from a file are what the file says, what it leaves out is the default, and a value of the wrong kind is refused.",
  ["crash_points", "fault_sequences", "histories", "inputs"],
  "for every map, every step at which it is saved, every crash point, every tear of the file and every set of settings left out",
  "cv-sfm has no tests at all.",
  ["cv-sfm/src/lib.rs", "cv-sfm/src/settings.rs"],
  [("serialization of the map", "cv-sfm/src/lib.rs"), ("settings and their defaults", "cv-sfm/src/settings.rs")],
  observe=["Serialize/Deserialize of VSlamData", "Deserialize of VSlamSettings"])
prop("C20", "Frames enter a map and maps are exported as they are",
  "Every frame added to a node has the features the camera found in it, no more than are to be tracked, best first, each with its own descriptor, the direction its pixel is seen in by the lens of its feed and the colour of the image there. An export of a map has every camera of the map where it is, facing and standing as it does, and exactly the robust landmarks, each where it is and in the colour of one of its observations, in a well-formed file.",
  ["inputs", "histories", "fault_sequences", "crash_points"],
  "for every image, lens, order in which features are found, limit, map and step at which it is exported",
  "cv-sfm has no tests at all.",
  ["cv-sfm/src/lib.rs", "cv-sfm/src/bicubic.rs", "cv-sfm/src/export.rs"],
  [("features of a frame and their colours", "cv-sfm/src/bicubic.rs"), ("export", "cv-sfm/src/export.rs")],
  observe=["VSlam::add_frame", "Frame::feature", "VSlam::export_reconstruction"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
