BUGS = []

def bug(id, prop, needs, breaks, edits, main):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main))

USE = """
use common::*;
use cv_core::nalgebra::{IsometryMatrix3, Point2, Point3, Rotation3, UnitVector3, Vector2, Vector3, Vector4, Vector6};
use cv_core::*;
"""
S = "cv-optimize/src/single_view_optimizer.rs"
W = "cv-optimize/src/three_view_optimizer.rs"
SO = "cv-core/src/so3.rs"
PO = "cv-core/src/pose.rs"
PT = "cv-core/src/point.rs"
KP = "cv-core/src/keypoint.rs"
PL = "cv-pinhole/src/lib.rs"

SINGLE = USE + """
fn scene(g: &mut Rng, n: usize) -> (WorldToCamera, WorldToCamera, Vec<FeatureWorldMatch>) {
    let iso = g.iso(1.0, 0.5);
    let back = iso.inverse();
    let ms = (0..n)
        .map(|_| {
            let c = g.vec(1.5) + Vector3::z() * 4.0;
            FeatureWorldMatch(unit(c), world(back.rotation * c + back.translation.vector))
        })
        .collect();
    let start = g.iso(0.05, 0.02) * iso;
    (WorldToCamera(iso), WorldToCamera(start), ms)
}
fn dist(a: WorldToCamera, b: WorldToCamera) -> f64 {
    (a.0.rotation.matrix() - b.0.rotation.matrix()).norm() + (a.0.translation.vector - b.0.translation.vector).norm()
}
"""
bug("c09-decaying-rate", "C09",
    "an optimization split into two calls at a crash point",
    "the L2 rate decays with the iteration number inside one call, so resuming from a saved pose differs from one uninterrupted call",
    [(S, "let delta = tangent.scale(optimization_rate);", "let delta = tangent.scale(optimization_rate / (1.0 + 0.05 * iteration as f64));")],
    SINGLE + """
fn main() {
    let mut g = Rng(40);
    for i in 0..50 {
        let (_, start, ms) = scene(&mut g, 8);
        let whole = cv_optimize::single_view_simple_optimize_l2(start, 0.1, 20, &ms);
        let half = cv_optimize::single_view_simple_optimize_l2(start, 0.1, 10, &ms);
        let resumed = cv_optimize::single_view_simple_optimize_l2(half, 0.1, 10, &ms);
        if dist(whole, resumed) > 1e-9 {
            fail(format!("scene {i}: resuming differs by {}", dist(whole, resumed)));
        }
    }
}
""")
bug("c09-landmark-cap", "C09",
    "more landmarks than the cap, in an order that matters",
    "the L1 optimizer only looks at the first landmarks it is given, so their order changes the pose",
    [(S, """        let mut rs = 0.0;
        let mut constraints = 0;
        for &landmark in landmarks {""", """        let mut rs = 0.0;
        let mut constraints = 0;
        for &landmark in landmarks.iter().take(24) {""")],
    SINGLE + """
fn main() {
    let mut g = Rng(41);
    for i in 0..30 {
        let (_, start, mut ms) = scene(&mut g, 40);
        for m in ms.iter_mut() {
            m.0 = unit(m.0.into_inner() + g.vec(0.01));
        }
        let one = cv_optimize::single_view_simple_optimize_l1(start, 1e-9, 0.1, 30, &ms);
        ms.reverse();
        let two = cv_optimize::single_view_simple_optimize_l1(start, 1e-9, 0.1, 30, &ms);
        if dist(one, two) > 1e-7 {
            fail(format!("scene {i}: the order of landmarks changes the pose by {}", dist(one, two)));
        }
    }
}
""")
bug("c09-nan-rotation", "C09",
    "a landmark or bearing that is not a number among the others",
    "the tangent space only guards its translation against NaN, so one corrupt bearing turns the whole pose into NaN",
    [(SO, "if rotation.iter().any(|n| n.is_nan()) {", "if rotation.iter().any(|n| n.is_infinite()) {")],
    SINGLE + """
fn main() {
    let mut g = Rng(42);
    for i in 0..30 {
        let (_, start, mut ms) = scene(&mut g, 8);
        ms[i % 8].0 = UnitVector3::new_unchecked(Vector3::new(f64::NAN, 0.0, 1.0));
        for p in [
            cv_optimize::single_view_simple_optimize_l1(start, 1e-9, 0.1, 10, &ms),
            cv_optimize::single_view_simple_optimize_l2(start, 0.1, 10, &ms),
        ] {
            if p.0.to_homogeneous().iter().any(|n| !n.is_finite()) {
                fail(format!("scene {i}: the pose is not finite"));
            }
        }
    }
}
""")

THREE = USE + """
fn scene(g: &mut Rng, n: usize) -> ([CameraToCamera; 2], [CameraToCamera; 2], Vec<[UnitVector3<f64>; 3]>) {
    let (f, s) = (g.iso(1.0, 0.3), g.iso(1.0, 0.3));
    let ms = (0..n)
        .map(|_| {
            let c = g.vec(1.5) + Vector3::z() * 4.0;
            [unit(c), sees(&f, c), sees(&s, c)]
        })
        .collect();
    let start = [CameraToCamera(g.iso(0.02, 0.02) * f), CameraToCamera(g.iso(0.02, 0.02) * s)];
    ([CameraToCamera(f), CameraToCamera(s)], start, ms)
}
fn dist(a: &[CameraToCamera; 2], b: &[CameraToCamera; 2]) -> f64 {
    (0..2).map(|i| (a[i].0.to_homogeneous() - b[i].0.to_homogeneous()).norm()).sum()
}
"""
bug("c10-momentum", "C10",
    "an optimization split into two calls at a crash point",
    "the L2 optimizer carries momentum from step to step, which is lost when it resumes from saved poses",
    [(W, """    let mut no_improve_for = 0;
    for iteration in 0..iterations {
        // Collect the sums of all the L2 distances.""", """    let mut no_improve_for = 0;
    let mut last = [Se3TangentSpace::identity(); 2];
    for iteration in 0..iterations {
        // Collect the sums of all the L2 distances."""),
     (W, """        for (delta, l2sum) in deltas.iter_mut().zip(nets) {
            *delta = l2sum.scale(inv_landmark_len * optimization_rate);
        }
""", """        for ((delta, l2sum), last) in deltas.iter_mut().zip(nets).zip(last.iter_mut()) {
            *delta = l2sum.scale(inv_landmark_len * optimization_rate) + last.scale(0.2);
            *last = *delta;
        }
""")],
    THREE + """
fn main() {
    let mut g = Rng(43);
    for i in 0..40 {
        let (_, start, ms) = scene(&mut g, 10);
        let whole = cv_optimize::three_view_simple_optimize_l2(start, 0.1, 12, &ms);
        let half = cv_optimize::three_view_simple_optimize_l2(start, 0.1, 6, &ms);
        let resumed = cv_optimize::three_view_simple_optimize_l2(half, 0.1, 6, &ms);
        if dist(&whole, &resumed) > 1e-9 {
            fail(format!("scene {i}: resuming differs by {}", dist(&whole, &resumed)));
        }
    }
}
""")
bug("c10-last-step", "C10",
    "an optimization split into two calls at a crash point, or a budget of one",
    "the adaptive optimizer leaves its loop before applying the last step, so every call does one step too few",
    [(W, """        // Update the poses using the delta.
        for (pose, delta) in poses.iter_mut().zip(&gradients) {
            *pose = delta.isometry() * *pose;
        }
""", """        // Update the poses using the delta.
        if iteration + 1 < iterations || iterations == 1 {
            for (pose, delta) in poses.iter_mut().zip(&gradients) {
                *pose = delta.isometry() * *pose;
            }
        }
""")],
    THREE + """
fn main() {
    let mut g = Rng(44);
    for i in 0..40 {
        let (_, start, ms) = scene(&mut g, 10);
        let whole = cv_optimize::three_view_adaptive_optimize_l2(start, 6, &ms);
        let mut p = start;
        for _ in 0..6 {
            p = cv_optimize::three_view_adaptive_optimize_l2(p, 1, &ms);
        }
        if dist(&whole, &p) > 1e-9 {
            fail(format!("scene {i}: six steps differ from one call by {}", dist(&whole, &p)));
        }
    }
}
""")
bug("c10-zero-spread", "C10",
    "matches whose gradients vanish exactly, such as identical bearings in three cameras with no motion",
    "the adaptive rate is no longer guarded against zero spread, so exact data turns the poses into NaN",
    [(W, "let rrate = if rrate.is_finite() { rrate } else { 0.0 };", "let rrate = if rrate.is_infinite() { 0.0 } else { rrate };")],
    THREE + """
fn main() {
    let mut g = Rng(45);
    for i in 0..40 {
        // Every landmark is in the plane of the three centers as seen by cameras that did not rotate.
        let (x, y) = (Vector3::x(), Vector3::x() * 2.0);
        let f = IsometryMatrix3::from_parts((-x).into(), Rotation3::identity());
        let s = IsometryMatrix3::from_parts((-y).into(), Rotation3::identity());
        let ms: Vec<_> = (0..5)
            .map(|_| {
                let c = Vector3::x() * 10.0 * g.f(1.0, 2.0);
                [unit(c), unit(c), unit(c)]
            })
            .collect();
        let p = cv_optimize::three_view_adaptive_optimize_l2([CameraToCamera(f), CameraToCamera(s)], 3, &ms);
        if p.iter().any(|p| p.0.to_homogeneous().iter().any(|n| !n.is_finite())) {
            fail(format!("scene {i}: the poses are not finite"));
        }
    }
}
""")

bug("c11-normalizing-restore", "C11",
    "a point whose stored direction is not a fixed point of normalization, about every second one",
    "restoring a world point normalizes it again, so it is not the value that was saved",
    [(PT, """#[cfg_attr(feature = "serde-serialize", derive(Serialize, Deserialize))]
pub struct WorldPoint(pub Vector4<f64>);
""", """#[cfg_attr(
    feature = "serde-serialize",
    derive(Serialize, Deserialize),
    serde(from = "Vector4<f64>")
)]
pub struct WorldPoint(pub Vector4<f64>);

impl From<Vector4<f64>> for WorldPoint {
    fn from(point: Vector4<f64>) -> Self {
        Self::from_homogeneous(point)
    }
}
""")],
    USE + """
fn main() {
    let mut g = Rng(46);
    for i in 0..2000 {
        let p = world(g.vec(10.0));
        let text: WorldPoint = serde_json::from_str(&serde_json::to_string(&p).unwrap()).unwrap();
        let bin: WorldPoint = bincode::deserialize(&bincode::serialize(&p).unwrap()).unwrap();
        for q in [text, bin] {
            if p.0.iter().zip(q.0.iter()).any(|(a, b)| a.to_bits() != b.to_bits()) {
                fail(format!("point {i}: restored {q:?} from {p:?}"));
            }
        }
    }
}
""")
bug("c11-skipped-coefficient", "C11",
    "a camera without distortion, saved in the binary form",
    "a zero distortion coefficient is not written, which the binary form cannot represent",
    [(PL, """#[derive(Debug, Clone, Copy, PartialEq, PartialOrd)]
#[cfg_attr(feature = "serde-serialize", derive(Serialize, Deserialize))]
pub struct CameraIntrinsicsK1Distortion {
    pub simple_intrinsics: CameraIntrinsics,
    pub k1: f64,
}
""", """#[derive(Debug, Clone, Copy, PartialEq, PartialOrd)]
#[cfg_attr(
    feature = "serde-serialize",
    derive(Serialize, Deserialize),
    serde(rename_all = "camelCase")
)]
pub struct CameraIntrinsicsK1Distortion {
    pub simple_intrinsics: CameraIntrinsics,
    #[cfg_attr(
        feature = "serde-serialize",
        serde(default, skip_serializing_if = "is_zero")
    )]
    pub k1: f64,
}

#[cfg(feature = "serde-serialize")]
fn is_zero(n: &f64) -> bool {
    *n == 0.0
}
""")],
    USE + """
use cv_pinhole::*;
fn main() {
    for k1 in [0.1, -0.0, 0.0] {
        let c = CameraIntrinsicsK1Distortion::new(CameraIntrinsics::identity(), k1);
        let bin = bincode::serialize(&c).unwrap();
        match bincode::deserialize::<CameraIntrinsicsK1Distortion>(&bin) {
            Ok(d) if d == c && d.k1.to_bits() == k1.to_bits() => {}
            other => fail(format!("k1 {k1}: {other:?}")),
        }
    }
}
""")
bug("c11-lenient-skew", "C11",
    "a text record from which the skew is missing",
    "a calibration with a missing field is restored with a default instead of being refused",
    [(PL, """#[cfg_attr(feature = "serde-serialize", derive(Serialize, Deserialize))]
pub struct CameraIntrinsics {
    pub focals: Vector2<f64>,
    pub principal_point: Point2<f64>,
    pub skew: f64,
}
""", """#[cfg_attr(
    feature = "serde-serialize",
    derive(Serialize, Deserialize),
    serde(deny_unknown_fields)
)]
pub struct CameraIntrinsics {
    pub focals: Vector2<f64>,
    pub principal_point: Point2<f64>,
    #[cfg_attr(feature = "serde-serialize", serde(default))]
    pub skew: f64,
}
""")],
    USE + """
use cv_pinhole::*;
fn main() {
    let text = serde_json::to_string(&CameraIntrinsics::identity().skew(0.5)).unwrap();
    let cut = text.split(",\\"skew\\"").next().unwrap().to_string() + "}";
    assert!(serde_json::from_str::<CameraIntrinsics>(&text).is_ok());
    if let Ok(c) = serde_json::from_str::<CameraIntrinsics>(&cut) {
        fail(format!("{cut} was restored as {c:?}"));
    }
}
""")

bug("c12-small-angle", "C12",
    "a rotation between about a thousandth of a degree and a degree, exchanged in se(3) form",
    "the small-angle approximation of the exponential map is used for angles where it is not accurate",
    [(SO, "if theta2 <= f64::epsilon() {", "if theta2 <= 3e-4 {")],
    USE + """
fn main() {
    let mut g = Rng(47);
    for i in 0..500 {
        let s = 10f64.powf(g.f(-5.0, 0.0));
        let iso = IsometryMatrix3::from_parts(g.vec(1.0).into(), Rotation3::new(g.vec(s)));
        let back = CameraToCamera::from_se3(CameraToCamera(iso).se3());
        let e = (back.0.to_homogeneous() - iso.to_homogeneous()).norm();
        let ortho = (back.0.rotation.matrix() * back.0.rotation.matrix().transpose() - cv_core::nalgebra::Matrix3::identity()).norm();
        if e > 1e-7 || ortho > 1e-7 {
            fail(format!("pose {i}: angle scale {s:e} restored with error {e:e}"));
        }
    }
}
""")
bug("c12-point-jacobian", "C12",
    "a point whose homogeneous coordinate is not one, checked against a finite difference of the translation",
    "the Jacobian of a pose ignores the homogeneous coordinate of the point",
    [(PO, "let dp_dt = Matrix4::<f64>::identity() * output.w;", "let dp_dt = Matrix4::<f64>::identity() * output.w.signum();")],
    USE + """
fn main() {
    let mut g = Rng(48);
    for i in 0..100 {
        let iso = g.iso(1.0, 1.0);
        let p = world(g.vec(2.0) + Vector3::z() * 5.0);
        let (_, j) = WorldToCamera(iso).transform_jacobian_self(p);
        let h = 1e-6;
        for k in 0..3 {
            let mut d = Vector3::zeros();
            d[k] = h;
            let moved = IsometryMatrix3::from_parts((iso.translation.vector + d).into(), iso.rotation);
            let diff = (moved.to_homogeneous() * p.0 - iso.to_homogeneous() * p.0) / h;
            if (diff - j.column(k)).norm() > 1e-4 {
                fail(format!("pose {i}: column {k} is {:?}, should be {diff:?}", j.column(k)));
            }
        }
    }
}
""")
bug("c12-world-order", "C12",
    "a camera that is posed in two reconstructions which are rotated against each other",
    "the relation between two reconstructions applies the translation before the rotation",
    [(PO, "(b_pose.isometry().inverse() * a_pose.isometry()).into()", """{
            let a = a_pose.isometry();
            let b = b_pose.isometry();
            let rotation = b.rotation.inverse() * a.rotation;
            let translation = rotation * (a.translation.vector - b.translation.vector);
            Self::from_parts(translation, rotation)
        }""")],
    USE + """
fn main() {
    let mut g = Rng(49);
    for i in 0..100 {
        let (a, b) = (g.iso(2.0, 1.0), g.iso(2.0, 1.0));
        let w = WorldToWorld::from_camera_poses(WorldToCamera(a), WorldToCamera(b));
        let p = g.vec(3.0);
        let q = w.transform(world(p)).point().unwrap();
        let e = (b * q - a * Point3::from(p)).norm();
        if e > 1e-9 {
            fail(format!("relation {i}: off by {e}"));
        }
    }
}
""")

bug("c13-sensor-aspect", "C13",
    "a sensor whose pixels are not square",
    "the pixel height of a sensor is computed from the number of columns",
    [(PL, "sensor_dimensions.y / pixels.y as f64,", "sensor_dimensions.y / pixels.x as f64,")],
    USE + """
use cv_pinhole::*;
fn main() {
    let c = CameraSpecification::from_sensor(Vector2::new(640, 480), Vector2::new(0.0064, 0.0024));
    let e = (c.pixel_dimensions - Vector2::new(0.00001, 0.000005)).norm();
    if e > 1e-12 {
        fail(format!("pixels are {:?}", c.pixel_dimensions));
    }
}
""")
