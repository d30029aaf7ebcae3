BUGS = []

def bug(id, prop, needs, breaks, edits, main):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main))

USE = """
use common::*;
use cv_core::nalgebra::{IsometryMatrix3, Point3, Rotation3, UnitVector3, Vector3};
use cv_core::sample_consensus::{Estimator, Model};
use cv_core::*;
"""
E = "cv-pinhole/src/essential.rs"
EP = "eight-point/src/lib.rs"
LT = "lambda-twist/src/lib.rs"
NS = "nister-stewenius/src/lib.rs"
PL = "cv-pinhole/src/lib.rs"
PO = "cv-core/src/pose.rs"

EIGHT = USE + """
fn main() {
    let mut g = Rng(20);
    let mut bad = 0;
    let n = 200;
    for i in 0..n {
        let iso = g.iso(1.0, 0.6);
        let ms: Vec<_> = (0..8)
            .map(|k| {
                let p = %s;
                FeatureMatch(unit(p), sees(&iso, p))
            })
            .collect();
        let got = eight_point::EightPoint::new().estimate(ms.iter().copied());
        let best = got.iter().map(|c| motion_error(&c.0, &iso)).fold(f64::INFINITY, f64::min);
        if got.len() != 4 || !(best < 1e-3) {
            bad += 1;
        }
        let _ = i;
    }
    if bad > n / 20 {
        fail(format!("{bad} of {n} exact samples do not give the true pose"));
    }
}
"""
bug("c05-steep-bearings", "C05",
    "a match whose bearing in camera A is steeper than about 85 degrees or points backward",
    "the eight-point encoding clamps the depth of bearings, so steep and backward bearings are encoded wrong",
    [(EP, "let ap = a.into_inner() / a.z;", "let ap = nalgebra::Vector3::new(a.x, a.y, a.z.max(0.08)) / a.z.max(0.08);")],
    EIGHT % "g.vec(4.0) + Vector3::z() * if k % 4 == 3 { -6.0 } else { 3.0 }")

bug("c05-fourth-candidate", "C05",
    "a sample whose true pose is the last of the four candidates",
    "the fourth candidate repeats the third rotation, so one of the four combinations of rotation and translation is missing",
    [(E, """                    CameraToCamera::from_parts(-t, rot_a),
                    CameraToCamera::from_parts(-t, rot_b),""", """                    CameraToCamera::from_parts(-t, rot_a),
                    CameraToCamera::from_parts(-t, rot_b.inverse()),""")],
    EIGHT % "g.vec(1.5) + Vector3::z() * 4.0 + Vector3::x() * (k as f64) * 0.1")



P3P = USE + """
fn main() {
    let mut g = Rng(%d);
    let mut bad = 0;
    let n = 2000;
    for _ in 0..n {
        let iso = g.iso(2.0, 3.0);
        let back = iso.inverse();
        let ms: Vec<_> = (0..3)
            .map(|_| {
                let c = g.vec(2.0) + Vector3::z() * 4.0;
                FeatureWorldMatch(unit(c), world(back.rotation * c + back.translation.vector))
            })
            .collect();
        let got = lambda_twist::LambdaTwist::new().estimate(ms.iter().copied());
        let best = got
            .iter()
            .map(|c| (c.0.rotation.matrix() - iso.rotation.matrix()).norm() + (c.0.translation.vector - iso.translation.vector).norm())
            .fold(f64::INFINITY, f64::min);
        bad += usize::from(!(best < 1e-4));
    }
    if bad > n %s {
        fail(format!("{bad} of {n} exact samples do not give the true pose"));
    }
}
"""


bug("c06-lazy-newton", "C06",
    "a sample whose cubic converges slowly because two of its roots are close",
    "the cubic root solver stops at a coarse residual, so depths of some samples are inexact beyond what refinement repairs",
    [(LT, "    for _ in 0..7 {\n", "    for _ in 0..2 {\n"), (LT, "if fx.abs() > 1e-13 {", "if fx.abs() > 1e-1 {")],
    P3P % (24, "/ 400"))

bug("c06-far-at-infinity", "C06",
    "a sample containing a landmark at infinity",
    "landmarks at infinity are treated as points one million units away, so samples containing them give poses instead of none",
    [(LT, "let to_wp = |&FeatureWorldMatch(_, point)| point.point();", """let to_wp = |&FeatureWorldMatch(_, point)| {
            point
                .point()
                .or_else(|| Some((point.bearing().into_inner() * 1e6).into()))
        };""")],
    USE + """
fn main() {
    let mut g = Rng(25);
    for i in 0..500 {
        let iso = g.iso(2.0, 1.0);
        let ms: Vec<_> = (0..3)
            .map(|k| {
                let p = g.vec(2.0);
                if k == i % 3 {
                    let d = unit(p);
                    FeatureWorldMatch(unit(iso.rotation * d.into_inner()), WorldPoint(d.into_inner().push(0.0)))
                } else {
                    FeatureWorldMatch(sees(&iso, p), world(p))
                }
            })
            .collect();
        let got = lambda_twist::LambdaTwist::new().estimate(ms.iter().copied());
        if !got.is_empty() {
            fail(format!("sample {i}: {} poses from a sample with a landmark at infinity", got.len()));
        }
    }
}
""")

FIVE = USE + """
fn main() {
    let mut g = Rng(%d);
    let mut bad = 0;
    let n = 300;
    for _ in 0..n {
        let iso = g.iso(1.0, 0.4);
        let ms: Vec<_> = (0..5)
            .map(|_| {
                let p = %s;
                FeatureMatch(unit(p), sees(&iso, p))
            })
            .collect();
        let got = nister_stewenius::NisterStewenius::new().estimate(ms.iter().copied());
        let best = got.iter().map(|c| motion_error(&c.0, &iso)).fold(f64::INFINITY, f64::min);
        bad += usize::from(!(best < 1e-3));
    }
    if bad > n / %s {
        fail(format!("{bad} of {n} exact samples do not give the true pose"));
    }
}
"""
bug("c07-narrow-view", "C07",
    "five matches in a narrow field of view, where the smallest non-zero eigenvalue is small",
    "the null space test of the five-point solver refuses well-posed samples from narrow views",
    [(NS, "const EIGEN_THRESHOLD: f64 = 1e-12;", "const EIGEN_THRESHOLD: f64 = 1e-4;")],
    FIVE % (26, "g.vec(1.0) + Vector3::z() * 6.0", "3"))

bug("c07-positive-roots", "C07",
    "a sample whose true solution has a negative first coordinate in the null space basis",
    "only positive real roots of the five-point problem are considered",
    [(NS, "if e.im == 0.0 {", "if e.im == 0.0 && e.re >= 0.0 {")],
    FIVE % (27, "g.vec(2.0) + Vector3::z() * 4.0", "6"))


bug("c08-behind-scores-zero", "C08",
    "a landmark exactly behind the camera along its bearing",
    "the score of a landmark under a pose ignores on which side of the camera it is",
    [(PO, "        let observation_bearing = self.transform(world).bearing();\n", "        let direction = self.transform(world).bearing();\n        let observation_bearing = direction.into_inner() * keypoint_bearing.dot(&direction).signum();\n")],
    USE + """
fn main() {
    let mut g = Rng(29);
    for i in 0..500 {
        let iso = g.iso(2.0, 3.0);
        let p = g.vec(3.0);
        let b = sees(&iso, p);
        let r = WorldToCamera(iso).residual(&FeatureWorldMatch(b, world(p)));
        let m = WorldToCamera(iso).residual(&FeatureWorldMatch(-b, world(p)));
        if r.abs() > 1e-9 || (m - 2.0).abs() > 1e-9 {
            fail(format!("landmark {i}: residual {r} in front, {m} behind"));
        }
    }
}
""")

bug("c08-bad-match-scores-zero", "C08",
    "a match whose bearings are not numbers",
    "a match that cannot be triangulated scores as a perfect inlier",
    [(PO, "            .unwrap_or(2.0)\n", "            .unwrap_or(0.0)\n"), (PO, "            return 2.0;\n", "            return 0.0;\n")],
    USE + """
fn main() {
    let mut g = Rng(30);
    for i in 0..50 {
        let iso = g.iso(1.0, 1.0);
        let mut v = g.vec(1.0);
        v[i % 3] = f64::NAN;
        let r = CameraToCamera(iso).residual(&FeatureMatch(UnitVector3::new_unchecked(v), unit(g.vec(1.0))));
        if !(r >= 2.0) {
            fail(format!("a match that is not a number scores {r}"));
        }
    }
}
""")

bug("c08-root-mean-square", "C08",
    "a match whose reprojection errors differ between the two cameras",
    "the average reprojection error is the root mean square of the two distances",
    [(PL, "        .map(|errors| errors.iter().map(|v| v.norm()).sum::<f64>() * 0.5)", "        .map(|errors| Float::sqrt(errors.iter().map(|v| v.norm_squared()).sum::<f64>() * 0.5))")],
    USE + """
use cv_geom::triangulation::AngularL1Triangulator;
fn main() {
    let mut g = Rng(31);
    for i in 0..500 {
        let iso = g.iso(1.0, 0.3);
        let p = g.vec(1.0) + Vector3::z() * 4.0;
        let m = FeatureMatch(unit(unit(p).into_inner() + g.vec(0.02)), unit(sees(&iso, p).into_inner() + g.vec(0.02)));
        let pose = CameraToCamera(iso);
        if let (Some(e), Some(avg)) = (
            cv_pinhole::pose_reprojection_error(pose, m, AngularL1Triangulator),
            cv_pinhole::average_pose_reprojection_error(pose, m, AngularL1Triangulator),
        ) {
            let want = 0.5 * (e[0].norm() + e[1].norm());
            if (avg - want).abs() > 1e-9 {
                fail(format!("match {i}: average {avg} of {} and {}", e[0].norm(), e[1].norm()));
            }
        }
    }
}
""")
