BUGS = []

def bug(id, prop, needs, breaks, edits, main):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main))

USE = """
use common::*;
use cv_core::nalgebra::{IsometryMatrix3, Point3, Rotation3, UnitVector3, Vector3};
use cv_core::sample_consensus::{Estimator, Model};
use cv_core::*;
"""
T = "cv-geom/src/triangulation.rs"
LT = "lambda-twist/src/lib.rs"
NS = "nister-stewenius/src/lib.rs"

bug("c03-origin-camera", "C03",
    "noisy observations where the camera at the world origin is not the first",
    "the linear method takes the pose of a camera at the world origin for an unset one, unless it comes first, so the arrival order decides the landmark",
    [(T, "            a += term.transpose() * term;\n        }\n\n        let se = a.try_symmetric_eigen(self.epsilon, self.max_iterations)?;\n",
      "            if a.norm() == 0.0 || trans.norm() > 0.0 {\n                a += term.transpose() * term;\n            }\n        }\n\n        let se = a.try_symmetric_eigen(self.epsilon, self.max_iterations)?;\n")],
    USE + """
fn main() {
    let mut g = Rng(50);
    for i in 0..100 {
        let p = g.vec(1.0) + Vector3::z() * 5.0;
        let mut obs: Vec<_> = (0..4)
            .map(|k| {
                let iso = if k == 0 { IsometryMatrix3::identity() } else { g.iso(1.5, 0.3) };
                (WorldToCamera(iso), unit(sees(&iso, p).into_inner() + g.vec(0.01)))
            })
            .collect();
        let at = |o: &[(WorldToCamera, UnitVector3<f64>)]| {
            cv_geom::triangulation::LinearEigenTriangulator::new()
                .triangulate_observations(o.iter().copied())
                .and_then(|q| q.point())
        };
        let first = at(&obs);
        obs.reverse();
        if let (Some(a), Some(b)) = (first, at(&obs)) {
            if (a - b).norm() > 1e-6 {
                fail(format!("scene {i}: the landmark moves by {:e} when the observations are reversed", (a - b).norm()));
            }
        }
    }
}
""")

bug("c06-small-scene", "C06",
    "a map in small units: the landmarks of the sample are less than a hundredth apart",
    "depth candidates are compared with a threshold in units of the map, so a map in small units gives no poses",
    [(LT, "            if d > 0.0 {\n", "            if d > 1e-4 {\n")],
    USE + """
fn main() {
    let mut g = Rng(51);
    for size in [1.0, 1e-3] {
        let mut bad = 0;
        for _ in 0..1000 {
            let mut iso = g.iso(2.0, 3.0);
            iso.translation.vector *= size;
            let back = iso.inverse();
            let ms: Vec<_> = (0..3)
                .map(|_| {
                    let c = (g.vec(2.0) + Vector3::z() * 4.0) * size;
                    FeatureWorldMatch(unit(c), world(back.rotation * c + back.translation.vector))
                })
                .collect();
            let got = lambda_twist::LambdaTwist::new().estimate(ms.iter().copied());
            let best = got
                .iter()
                .map(|c| (c.0.rotation.matrix() - iso.rotation.matrix()).norm() + (c.0.translation.vector - iso.translation.vector).norm() / size)
                .fold(f64::INFINITY, f64::min);
            bad += usize::from(!(best < 1e-4));
        }
        if bad > 20 {
            fail(format!("{bad} of 1000 exact samples in a map of size {size} do not give the true pose"));
        }
    }
}
""")

bug("c07-few-iterations", "C07",
    "a sample whose eigenvalue problem converges slowly",
    "the eigenvalue solver gives up early, so samples that need more steps than usual give no candidates",
    [(NS, "const EIGEN_ITERATIONS: usize = 1000;", "const EIGEN_ITERATIONS: usize = 22;")],
    USE + """
fn main() {
    let mut g = Rng(52);
    let mut bad = 0;
    let n = 2000;
    for _ in 0..n {
        let iso = g.iso(1.0, 0.4);
        let ms: Vec<_> = (0..5)
            .map(|_| {
                let p = g.vec(2.0) + Vector3::z() * 4.0;
                FeatureMatch(unit(p), sees(&iso, p))
            })
            .collect();
        bad += usize::from(nister_stewenius::NisterStewenius::new().estimate(ms.iter().copied()).is_empty());
    }
    if bad > n / 100 {
        fail(format!("{bad} of {n} exact samples give no candidates"));
    }
}
""")

S1 = "cv-optimize/src/single_view_optimizer.rs"
S3 = "cv-optimize/src/three_view_optimizer.rs"

bug("c10-steep-match", "C10",
    "a match whose bearings miss the epipolar planes of both outer cameras by far",
    "the L2 optimizer leaves out matches that ask for a large rotation but still divides by their number",
    [(S3, "            for (l2sum, &delta) in nets.iter_mut().zip(deltas.iter()) {\n",
      "            for (l2sum, &delta) in nets.iter_mut().zip(deltas.iter()).filter(|(_, d)| d.rotation.norm() < 0.9) {\n")],
    USE + """
fn main() {
    let mut g = Rng(60);
    let mut steep = 0;
    for i in 0..300 {
        let poses = [CameraToCamera(g.iso(1.0, 0.5)), CameraToCamera(g.iso(1.0, 0.5))];
        let m = [unit(g.vec(1.0)), unit(g.vec(1.0)), unit(g.vec(1.0))];
        let got = cv_optimize::three_view_simple_optimize_l2(poses, 0.1, 1, &[m]);
        // The planes through the baseline and each bearing, in the centre camera's frame.
        let back = poses.map(|p| p.0.inverse());
        let at = [Vector3::zeros(), back[0].translation.vector, back[1].translation.vector];
        let d = [m[0].into_inner(), back[0].rotation * m[1].into_inner(), back[1].rotation * m[2].into_inner()];
        let turn = |i: usize, j: usize| {
            let t = at[j] - at[i];
            d[j].cross(&t).normalize().cross(&d[i].cross(&t).normalize())
        };
        let asks = [(turn(0, 1) * 2.0 - turn(1, 2)) / 3.0, (turn(0, 2) * 2.0 + turn(1, 2)) / 3.0];
        steep += usize::from(asks[0].norm().max(asks[1].norm()) > 0.9);
        for k in 0..2 {
            let turned = (got[k].0.rotation.inverse() * poses[k].0.rotation).scaled_axis();
            if (turned - asks[k] * 0.1).norm() > 1e-6 {
                fail(format!("match {i} turned camera {k} by {turned:?} instead of {:?}", asks[k] * 0.1));
            }
        }
    }
    assert!(steep > 10);
}
""")

bug("c10-one-best", "C10",
    "a call of more than fifty iterations in which the translations have stopped improving and a rotation has not",
    "the L1 optimizer measures the rotation against the best translation, so a long call gives up while the rotations still improve",
    [(S3, "            let t = l1.translation.norm();\n            let r = l1.rotation.norm();\n            if *best_t > t {\n                *best_t = t;\n                no_improve_for = 0;\n            }\n            if *best_r > r {\n",
      "            let t = l1.translation.norm();\n            let r = l1.rotation.norm();\n            if *best_t > t {\n                *best_t = t;\n                no_improve_for = 0;\n            }\n            if *best_t > r {\n")],
    USE + """
fn main() {
    let mut g = Rng(61);
    for i in 0..60 {
        let truth = [g.iso(1.0, 0.3), g.iso(1.0, 0.3)];
        let ms: Vec<_> = (0..8)
            .map(|_| {
                let p = g.vec(2.0) + Vector3::z() * 5.0;
                [unit(p), sees(&truth[0], p), sees(&truth[1], p)]
            })
            .collect();
        let start = truth.map(|p| CameraToCamera(IsometryMatrix3::from_parts(g.vec(0.2).into(), g.rot(0.1)) * p));
        let n = 90;
        let (eps, rate) = (1e-9, 0.05);
        let whole = cv_optimize::three_view_simple_optimize_l1(start, eps, rate, n, &ms);
        // The same steps, one call each, and how long no total got smaller.
        let mut p = start;
        let (mut best, mut stale, mut stalest) = ([f64::INFINITY; 4], 0, 0);
        for _ in 0..n {
            let back = p.map(|p| p.0.inverse());
            let (b0, b1) = (back[0], back[1]);
            let mut sums = [Vector3::zeros(); 4];
            for m in &ms {
                let asks = cv_geom::epipolar::three_view_gradients(m[0], b0 * m[1], b0.translation.vector, b1 * m[2], b1.translation.vector);
                for k in 0..2 {
                    for (j, v) in [asks[k].translation, asks[k].rotation].into_iter().enumerate() {
                        if v.norm() > 0.0 {
                            sums[2 * k + j] += v.normalize();
                        }
                    }
                }
            }
            stale += 1;
            for (b, s) in best.iter_mut().zip(sums) {
                if s.norm() < *b * (1.0 - 1e-6) {
                    *b = s.norm();
                    stale = 0;
                }
            }
            stalest = stalest.max(stale);
            p = cv_optimize::three_view_simple_optimize_l1(p, eps, rate, 1, &ms);
        }
        if stalest > 40 {
            continue;
        }
        let gap = (0..2).map(|k| (p[k].0.to_homogeneous() - whole[k].0.to_homogeneous()).norm()).fold(0.0, f64::max);
        if gap > 1e-6 {
            fail(format!("scene {i}: {n} iterations end {gap:e} from where {n} single ones do"));
        }
    }
}
""")

bug("c09-one-best", "C09",
    "a call of more than fifty iterations in which the translation has stopped improving and the rotation has not",
    "the L2 optimizer measures the rotation against the best translation, so a long call gives up while the rotation still improves",
    [(S1, "        let r = l2sum.rotation.norm();\n        if best_trans > t {\n            best_trans = t;\n            no_improve_for = 0;\n        }\n        if best_rot > r {\n",
      "        let r = l2sum.rotation.norm();\n        if best_trans > t {\n            best_trans = t;\n            no_improve_for = 0;\n        }\n        if best_rot > r && best_trans >= r {\n")],
    USE + """
fn main() {
    let mut g = Rng(62);
    for i in 0..200 {
        let truth = g.iso(1.0, 1.0);
        let ms: Vec<_> = (0..8)
            .map(|_| {
                let p = g.vec(2.0) + Vector3::z() * 4.0;
                FeatureWorldMatch(unit(sees(&truth, p).into_inner() + g.vec(0.02)), world(p))
            })
            .collect();
        let start = WorldToCamera(IsometryMatrix3::from_parts(g.vec(0.5).into(), g.rot(0.3)) * truth);
        let n = 120;
        let whole = cv_optimize::single_view_simple_optimize_l2(start, 0.05, n, &ms);
        let mut p = start;
        let (mut best, mut stale, mut stalest) = ([f64::INFINITY; 2], 0, 0);
        for _ in 0..n {
            let mut sum = Se3TangentSpace::identity();
            for m in &ms {
                sum += cv_geom::epipolar::world_pose_gradient(p.transform(m.1).point().unwrap().coords, m.0);
            }
            stale += 1;
            for (b, x) in best.iter_mut().zip([sum.translation.norm(), sum.rotation.norm()]) {
                if x < *b * (1.0 - 1e-6) {
                    *b = x;
                    stale = 0;
                }
            }
            stalest = stalest.max(stale);
            p = cv_optimize::single_view_simple_optimize_l2(p, 0.05, 1, &ms);
        }
        if stalest > 40 {
            continue;
        }
        let gap = (p.0.to_homogeneous() - whole.0.to_homogeneous()).norm();
        if gap > 1e-9 {
            fail(format!("scene {i}: {n} iterations end {gap:e} from where {n} single ones do"));
        }
    }
}
""")
