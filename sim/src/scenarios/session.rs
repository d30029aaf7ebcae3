//! C13: a mapping session works from raw pixels of distorted cameras to a map: frames arrive over a
//! faulty network, the session crashes and restarts from its checkpoints, and when faults stop it
//! must end with the true motion and map, and see its landmarks where the cameras saw them.

use crate::geo::*;
use crate::rng::Rng;
use crate::runner::Scenario;
use crate::sim::*;
use cv_core::nalgebra::{Point2, Vector2};
use cv_core::sample_consensus::{Estimator, Model};
use cv_core::{
    CameraModel, CameraToCamera, FeatureMatch, FeatureWorldMatch, KeyPoint, Pose, Projective,
    TriangulatorObservations, WorldPoint, WorldToCamera,
};
use cv_geom::triangulation::*;
use cv_optimize::{single_view_simple_optimize_l1, single_view_simple_optimize_l2};
use cv_pinhole::{CameraIntrinsics, CameraIntrinsicsK1Distortion, CameraSpecification};
use eight_point::EightPoint;
use lambda_twist::LambdaTwist;
use nister_stewenius::NisterStewenius;
use std::collections::BTreeMap;

pub struct Session;
pub static C13: Session = Session;

const WIDTH: f64 = 1920.0;
const HEIGHT: f64 = 1080.0;
/// Cosine distance below which an observation agrees with a pose.
const AGREE: f64 = 1e-12;

/// A camera as a user of the library configures it.
#[derive(Clone, Copy, Debug)]
enum Lens {
    Plain(CameraIntrinsics),
    K1(CameraIntrinsicsK1Distortion),
}

impl Lens {
    fn calibrate(&self, p: &Vector2<f64>) -> U3 {
        let k = KeyPoint(Point2::from(*p));
        match self {
            Lens::Plain(c) => c.calibrate(k),
            Lens::K1(c) => c.calibrate(k),
        }
    }
    fn uncalibrate(&self, b: U3) -> Option<Vector2<f64>> {
        match self {
            Lens::Plain(c) => c.uncalibrate(b),
            Lens::K1(c) => c.uncalibrate(b),
        }
        .map(|k| k.0.coords)
    }
}

/// What the sensor of camera `i` really does.
fn sensor(plan: &Plan, i: usize) -> Sensor {
    let mut r = plan.entity("sensor", i, 0);
    let f = r.uni(900.0, 2500.0);
    let square = r.chance(0.3);
    Sensor {
        f: Vector2::new(f, if square { f } else { f * r.uni(0.8, 1.25) }),
        c: if r.chance(0.3) {
            Vector2::new((WIDTH - 1.0) / 2.0, (HEIGHT - 1.0) / 2.0)
        } else {
            Vector2::new(r.uni(800.0, 1100.0), r.uni(450.0, 650.0))
        },
        skew: if r.chance(0.5) { 0.0 } else { r.uni(-5.0, 5.0) },
        k1: match r.below(5) {
            0 => 0.0,
            1 => r.logu(1e-12, 1e-3) * if r.chance(0.5) { 1.0 } else { -1.0 },
            2 => r.uni(0.0, 0.3),
            _ => r.uni(-0.4, 0.0),
        },
    }
}

fn lens(s: &Sensor) -> Lens {
    let mut c = CameraIntrinsics::identity().skew(s.skew).principal_point(Point2::from(s.c));
    c = if s.f.x == s.f.y { c.focal(s.f.x) } else { c.focals(s.f) };
    if s.k1 == 0.0 && s.skew == 0.0 {
        Lens::Plain(c)
    } else {
        Lens::K1(CameraIntrinsicsK1Distortion::new(c, s.k1))
    }
}

#[derive(Clone, Copy, Debug)]
struct Key {
    lm: usize,
    px: Vector2<f64>,
    clean: bool,
}

struct Scene {
    cams: Vec<Rt>,
    lms: Vec<V3>,
    sensors: Vec<Sensor>,
    lenses: Vec<Lens>,
}

impl Scene {
    fn new(plan: &Plan) -> Scene {
        let scale = plan.k("scale");
        let mut r = plan.entity("arc", 0, 0);
        let axis = rand_unit(&mut r);
        let mut start = rand_unit(&mut r);
        while start.cross(&axis).norm() < 0.3 {
            start = rand_unit(&mut r);
        }
        let step = r.uni(0.15, 0.4);
        let shift = rand_unit(&mut r) * r.uni(0.0, 5.0);
        let world = rand_rot(&mut r);
        let cams = (0..plan.ku("cams"))
            .map(|i| {
                let mut r = plan.entity("cam", i, 0);
                let dir = rodrigues(&axis, step * i as f64 + r.uni(-0.02, 0.02)) * start;
                let c = dir * r.uni(4.0, 6.0) + rand_unit(&mut r) * 0.2;
                let target = rand_unit(&mut r) * 0.2;
                let roll = r.uni(0.0, std::f64::consts::TAU);
                let rt = look_at(&c, &target, roll, &mut r);
                // The world is turned, moved and scaled at will.
                let rt = Rt { r: rt.r * world.transpose(), t: rt.t };
                Rt { r: rt.r, t: (rt.t - rt.r * shift) * scale }
            })
            .collect();
        let lms = (0..plan.ku("lms"))
            .map(|i| {
                let mut r = plan.entity("lm", i, 0);
                (world * (rand_unit(&mut r) * r.f().cbrt()) + shift) * scale
            })
            .collect();
        let sensors: Vec<_> = (0..plan.ku("cams")).map(|i| sensor(plan, i)).collect();
        let lenses = sensors.iter().map(lens).collect();
        Scene { cams, lms, sensors, lenses }
    }

    /// The keypoints of a frame, some of them wrong.
    fn frame(&self, plan: &Plan, cam: usize) -> Vec<Key> {
        let mut out = vec![];
        for lm in 0..self.lms.len() {
            let mut r = plan.entity("key", cam, lm);
            let Some(px) = self.sensors[cam].project(&self.cams[cam].apply(&self.lms[lm])) else {
                continue;
            };
            if r.chance(plan.k("missed")) {
                continue;
            }
            let mut k = Key { lm, px, clean: true };
            if r.chance(plan.k("wrong")) {
                k.clean = false;
                k.px = Vector2::new(r.uni(0.0, WIDTH), r.uni(0.0, HEIGHT));
            }
            out.push(k);
        }
        out
    }

    /// Truth in the frame and scale of a session that started with cameras `a` and `b`.
    fn gauge(&self, a: usize, b: usize) -> (Rt, f64) {
        let rel = self.cams[b].after(&self.cams[a].inv());
        (self.cams[a], 1.0 / rel.t.norm())
    }
}

#[derive(Clone, Default)]
struct State {
    /// Cameras the session started with.
    base: Option<(usize, usize)>,
    poses: BTreeMap<usize, WorldToCamera>,
    /// Landmarks and whether only clean keypoints went into them.
    map: BTreeMap<usize, (WorldPoint, bool)>,
}

impl State {
    /// A checkpoint, through the serialization of the library.
    fn save(&self) -> String {
        let poses: Vec<_> = self.poses.iter().map(|(k, v)| (*k, *v)).collect();
        let map: Vec<_> = self.map.iter().map(|(k, v)| (*k, v.0, v.1)).collect();
        serde_json::to_string(&(self.base, poses, map)).unwrap()
    }
    fn load(s: &str) -> State {
        type Form = (Option<(usize, usize)>, Vec<(usize, WorldToCamera)>, Vec<(usize, WorldPoint, bool)>);
        let (base, poses, map): Form = serde_json::from_str(s).expect("checkpoint");
        State {
            base,
            poses: poses.into_iter().collect(),
            map: map.into_iter().map(|(k, p, c)| (k, (p, c))).collect(),
        }
    }
}

struct Node {
    frames: BTreeMap<usize, BTreeMap<usize, (U3, Key)>>,
    st: State,
    saved: String,
    tries: usize,
}

enum Ev {
    Frame(usize),
    Step(Op),
}

/// The camera model at single pixels.
fn pixels(plan: &Plan, cam: usize, salt: usize, s: &Scene, cx: &mut Cx) -> Res {
    let mut r = plan.entity("pixel", cam, salt);
    let (sen, lens) = (&s.sensors[cam], &s.lenses[cam]);
    cx.log(format!("pixels of {cam}"));
    for _ in 0..4 {
        let px = match r.below(5) {
            0 => sen.c,
            1 => sen.c + Vector2::new(r.logu(1e-9, 1.0), 0.0) * if r.chance(0.5) { 1.0 } else { -1.0 },
            2 => Vector2::new(
                *r.pick(&[0.0, WIDTH - 1.0]),
                *r.pick(&[0.0, HEIGHT - 1.0]),
            ),
            _ => Vector2::new(r.uni(-0.5, WIDTH - 0.5), r.uni(-0.5, HEIGHT - 0.5)),
        };
        let y = (px.y - sen.c.y) / sen.f.y;
        let x = (px.x - sen.c.x - sen.skew * y) / sen.f.x;
        let r2 = x * x + y * y;
        let by = 1.0 + sen.k1 * r2;
        // The lens model holds up to its pole and up to where it folds over.
        if by < 0.2 || sen.k1 * r2 > 0.9 {
            cx.probe("pixel-outside-lens-model");
            continue;
        }
        let b = lens.calibrate(&px);
        let want = V3::new(x / by, y / by, 1.0);
        cx.log(format!("pixel {} gives {}", bits(px.iter()), bits(b.iter())));
        cx.probe("pixel-judged");
        cx.within("calibrated-bearing", ang(&b, &want), 1e-14, || format!("pixel {px:?} of {sen:?} gave {b:?}"))?;
        cx.within("bearing-of-unit-length", (b.norm() - 1.0).abs(), 1e-13, || format!("{b:?}"))?;
        cx.ensure("bearing-in-front", b.z > 0.0, || format!("pixel {px:?} of {sen:?} gave {b:?}"))?;
        let back = lens.uncalibrate(b);
        cx.ensure("pixel-comes-back", back.is_some(), || format!("pixel {px:?} of {sen:?} is not projected back"))?;
        let fold = (1.0 - sen.k1 * r2).abs();
        cx.within("pixel-comes-back", (back.unwrap() - px).norm(), 5e-11 / fold, || {
            format!("pixel {px:?} of {sen:?} came back as {back:?}")
        })?;
        // Behind the camera and beside it, nothing is seen.
        for d in [-b.into_inner(), V3::new(b.x, b.y, -b.z), V3::new(1.0, 0.0, 0.0), unit(V3::new(x, y + 1e-3, 0.0)).into_inner()] {
            let p = lens.uncalibrate(U3::new_unchecked(d));
            cx.ensure("nothing-seen-behind", p.is_none(), || format!("{d:?} is seen at {p:?}"))?;
        }
        // The matrix form agrees.
        let c = match lens {
            Lens::Plain(c) => *c,
            Lens::K1(c) => c.simple_intrinsics,
        };
        let h = c.matrix() * V3::new(x, y, 1.0);
        cx.within("intrinsic-matrix", (h.xy() / h.z - px).norm(), 1e-9, || format!("{:?}", c.matrix()))?;
        let plain = c.calibrate(KeyPoint(Point2::from(px)));
        cx.within("calibrated-bearing", ang(&plain, &V3::new(x, y, 1.0)), 1e-13, || format!("pixel {px:?} gave {plain:?}"))?;
        let none = CameraIntrinsicsK1Distortion::new(c, 0.0);
        cx.within("no-distortion-is-plain", ang(&none.calibrate(KeyPoint(Point2::from(px))), &plain), 1e-14, || format!("{px:?}"))?;
        let q = none.uncalibrate(plain).map(|k| k.0.coords);
        cx.ensure("no-distortion-is-plain", q.map_or(false, |q| (q - px).norm() < 1e-9), || format!("{px:?} came back as {q:?}"))?;
    }
    // Directions no pixel of the lens sees.
    if sen.k1 > 1e-3 {
        let far = 0.5 / sen.k1.sqrt();
        let a = r.uni(0.0, std::f64::consts::TAU);
        let d = |k: f64| unit(V3::new(a.cos() * far * k, a.sin() * far * k, 1.0));
        let p = lens.uncalibrate(d(1.001));
        cx.ensure("beyond-the-lens", p.is_none(), || format!("a direction {sen:?} cannot see is at {p:?}"))?;
        let p = lens.uncalibrate(d(0.999));
        cx.ensure("within-the-lens", p.is_some(), || format!("a direction {sen:?} sees has no pixel"))?;
    }
    // The camera with one pixel per focal length, before anything is set on it.
    let id = CameraIntrinsics::identity();
    let q = Vector2::new(r.uni(-2.0, 2.0), r.uni(-2.0, 2.0));
    let b = id.calibrate(KeyPoint(Point2::from(q)));
    cx.within("identity-camera", ang(&b, &q.push(1.0)), 1e-14, || format!("{q:?} gave {b:?}"))?;
    cx.within("identity-camera", (id.matrix() - M3::identity()).norm(), 1e-15, || format!("{:?}", id.matrix()))?;
    // The parts of a camera can be set in any order, and the last word counts.
    let c = match lens {
        Lens::Plain(c) => *c,
        Lens::K1(c) => c.simple_intrinsics,
    };
    let mut parts = vec![0, 1, 2];
    r.shuffle(&mut parts);
    let mut built = CameraIntrinsics::identity().focal(r.uni(1.0, 9.0)).skew(1.0);
    for p in parts {
        built = match p {
            0 => built.focals(sen.f),
            1 => built.skew(sen.skew),
            _ => built.principal_point(Point2::from(sen.c)),
        };
    }
    cx.ensure("camera-as-configured", built == c, || format!("{built:?} instead of {c:?}"))?;
    let one = built.focal(sen.f.y);
    let want = CameraIntrinsics { focals: Vector2::repeat(sen.f.y), ..c };
    cx.ensure("camera-as-configured", one == want, || format!("{one:?} instead of {want:?}"))?;
    // A data sheet.
    let (w, h) = (r.range(1, 8000), r.range(1, 6000));
    let size = Vector2::new(r.uni(1e-3, 0.05), r.uni(1e-3, 0.05));
    let spec = CameraSpecification::from_sensor(Vector2::new(w, h), size);
    let pitch = Vector2::new(size.x / w as f64, size.y / h as f64);
    cx.within("pixel-pitch", (spec.pixel_dimensions - pitch).norm() / pitch.norm(), 1e-14, || format!("{spec:?}"))?;
    let square = CameraSpecification::from_sensor_square(Vector2::new(w, h), size.x);
    cx.within("pixel-pitch", (square.pixel_dimensions - Vector2::repeat(pitch.x)).norm() / pitch.x, 1e-14, || format!("{square:?}"))?;
    let f = r.uni(100.0, 3000.0);
    let c = spec.intrinsics_centered(f);
    let one = c.calibrate(KeyPoint(Point2::new(0.0, 0.0)));
    let two = c.calibrate(KeyPoint(Point2::new(w as f64 - 1.0, h as f64 - 1.0)));
    let mirrored = V3::new(-one.x, -one.y, one.z);
    cx.within("centred-sensor", ang(&mirrored, &two), 1e-12, || format!("{c:?}: corners at {one:?} and {two:?}"))?;
    cx.within("centred-sensor", (one.x / one.z * f + (w as f64 - 1.0) / 2.0).abs(), 1e-9, || format!("{c:?}"))
}

struct Sim<'a> {
    plan: &'a Plan,
    s: Scene,
    n: Node,
}

impl Sim<'_> {
    fn arrive(&mut self, cam: usize, cx: &mut Cx) -> Res {
        cx.sched(cam as u64);
        let mut list = BTreeMap::new();
        for k in self.s.frame(self.plan, cam) {
            let b = self.s.lenses[cam].calibrate(&k.px);
            if k.clean {
                let want = self.s.cams[cam].apply(&self.s.lms[k.lm]);
                cx.within("keypoint-points-at-landmark", ang(&b, &want), 1e-11, || {
                    format!("keypoint {:?} of {:?} gave {b:?}, the landmark is at {want:?}", k.px, self.s.sensors[cam])
                })?;
            } else {
                cx.fault("wrong-keypoint");
            }
            cx.ensure("bearing-in-front", b.z > 0.0, || format!("{k:?} gave {b:?}"))?;
            list.insert(k.lm, (b, k));
        }
        cx.log(format!("frame {cam}: {} keypoints", list.len()));
        if self.n.frames.insert(cam, list).is_some() {
            cx.probe("frame-again");
        }
        Ok(())
    }

    fn crash(&mut self, cx: &mut Cx) {
        cx.fault("crash");
        cx.log("crash".into());
        self.n.frames.clear();
        self.n.st = State::load(&self.n.saved);
        self.n.tries = 0;
        cx.probe("restored-from-checkpoint");
    }

    fn checkpoint(&mut self, cx: &mut Cx) -> Res {
        let text = self.n.st.save();
        let again = State::load(&text);
        let same = again.poses == self.n.st.poses && again.map == self.n.st.map && again.base == self.n.st.base;
        cx.ensure("checkpoint-is-exact", same, || "a checkpoint reads back differently".into())?;
        self.n.saved = text;
        cx.log("checkpoint".into());
        Ok(())
    }

    /// One unit of work of the session.
    fn work(&mut self, salt: usize, cx: &mut Cx) -> Res {
        let mut r = self.plan.entity("work", salt, self.n.tries);
        self.n.tries += 1;
        cx.sched(1000 + self.n.st.poses.len() as u64 * 64 + self.n.st.map.len() as u64);
        cx.state(&[self.n.frames.len() as u64, self.n.st.poses.len() as u64, self.n.st.map.len() as u64]);
        if self.n.st.base.is_none() {
            return self.bootstrap(&mut r, cx);
        }
        let next = self.n.frames.keys().copied().find(|c| !self.n.st.poses.contains_key(c));
        if let Some(c) = next {
            self.register(c, &mut r, cx)?;
        }
        self.extend(&mut r, cx)
    }

    fn bootstrap(&mut self, r: &mut Rng, cx: &mut Cx) -> Res {
        if self.n.frames.len() < 2 {
            return Ok(());
        }
        let ids: Vec<_> = self.n.frames.keys().copied().collect();
        let (a, b) = (ids[0], ids[1]);
        let (fa, fb) = (&self.n.frames[&a], &self.n.frames[&b]);
        let pairs: Vec<_> = fa
            .iter()
            .filter_map(|(l, x)| fb.get(l).map(|y| (FeatureMatch(x.0, y.0), x.1.clean && y.1.clean)))
            .collect();
        let five = self.plan.k("five") > 0.0;
        let need = if five { 5 } else { 8 };
        if pairs.len() < 14 {
            return Ok(());
        }
        let mut best: Option<(usize, f64, CameraToCamera)> = None;
        for round in 0..40 {
            if round >= 10 && best.map_or(false, |(n, ..)| n * 2 >= pairs.len()) {
                break;
            }
            let mut idx: Vec<_> = (0..pairs.len()).collect();
            r.shuffle(&mut idx);
            let sample = || idx[..need].iter().map(|i| pairs[*i].0);
            let list: Vec<CameraToCamera> = if five {
                NisterStewenius::new().estimate(sample()).iter().copied().collect()
            } else {
                EightPoint::new().estimate(sample()).iter().copied().collect()
            };
            for c in list {
                let res: Vec<f64> = pairs.iter().map(|p| c.residual(&p.0)).filter(|x| *x < AGREE).collect();
                let sum = res.iter().sum::<f64>() / res.len().max(1) as f64;
                if best.map_or(true, |(n, s, _)| res.len() > n || (res.len() == n && sum < s)) {
                    best = Some((res.len(), sum, c));
                }
            }
        }
        let Some((agree, _, pose)) = best else { return Ok(()) };
        cx.log(format!("bootstrap {a} {b}: {agree} of {}", pairs.len()));
        if agree * 2 < pairs.len() || agree < need + 4 {
            cx.probe("bootstrap-put-off");
            return Ok(());
        }
        cx.probe("bootstrapped");
        self.n.st.base = Some((a, b));
        let got = Rt::of_iso(&pose.isometry());
        let want = self.s.cams[b].after(&self.s.cams[a].inv());
        cx.within("bootstrap-finds-motion", rot_diff(&got.r, &want.r).max(ang(&got.t, &want.t)), 2e-6, || {
            format!("{got:?}, truth {want:?}")
        })?;
        cx.within("bootstrap-unit-step", (got.t.norm() - 1.0).abs(), 1e-9, || format!("{got:?}"))?;
        self.n.st.poses.insert(a, WorldToCamera::identity());
        self.n.st.poses.insert(b, WorldToCamera(pose.isometry()));
        Ok(())
    }

    fn truth(&self, cam: usize) -> Rt {
        let (a, b) = self.n.st.base.unwrap();
        let (g, k) = self.s.gauge(a, b);
        let mut rel = self.s.cams[cam].after(&g.inv());
        rel.t *= k;
        rel
    }

    fn register(&mut self, cam: usize, r: &mut Rng, cx: &mut Cx) -> Res {
        let frame = &self.n.frames[&cam];
        let seen: Vec<_> = frame
            .iter()
            .filter_map(|(l, x)| self.n.st.map.get(l).map(|p| (FeatureWorldMatch(x.0, p.0), x.1.clean && p.1)))
            .collect();
        if seen.len() < 10 {
            return Ok(());
        }
        let mut best: Option<(usize, f64, WorldToCamera)> = None;
        for _ in 0..12 {
            let mut idx: Vec<_> = (0..seen.len()).collect();
            r.shuffle(&mut idx);
            let list: Vec<WorldToCamera> = LambdaTwist::new().estimate(idx[..3].iter().map(|i| seen[*i].0)).iter().copied().collect();
            for c in list {
                let res: Vec<f64> = seen.iter().map(|p| c.residual(&p.0)).filter(|x| *x < AGREE).collect();
                let sum = res.iter().sum::<f64>() / res.len().max(1) as f64;
                if best.map_or(true, |(n, s, _)| res.len() > n || (res.len() == n && sum < s)) {
                    best = Some((res.len(), sum, c));
                }
            }
        }
        let Some((agree, _, pose)) = best else { return Ok(()) };
        cx.log(format!("register {cam}: {agree} of {}", seen.len()));
        if agree * 2 < seen.len() || agree < 7 {
            cx.probe("registration-put-off");
            return Ok(());
        }
        cx.probe("registered");
        let want = self.truth(cam);
        let gap = |p: &WorldToCamera| {
            let got = Rt::of_iso(&p.isometry());
            rot_diff(&got.r, &want.r).max((got.t - want.t).norm() / (1.0 + want.t.norm()))
        };
        cx.within("registration-finds-camera", gap(&pose), 3e-6, || format!("{pose:?}, truth {want:?}"))?;
        // A session may polish the pose with what agrees; it stays where it belongs.
        let mut kept: Vec<_> = seen.iter().filter(|p| pose.residual(&p.0) < AGREE).map(|p| p.0).collect();
        r.shuffle(&mut kept);
        let pose = match r.below(3) {
            0 => single_view_simple_optimize_l2(pose, 1.0, 5, &kept),
            1 => single_view_simple_optimize_l1(pose, 1e-11, 1.0, 5, &kept),
            _ => pose,
        };
        cx.within("polish-keeps-camera", gap(&pose), 3e-6, || format!("{pose:?}, truth {want:?}"))?;
        self.n.st.poses.insert(cam, pose);
        Ok(())
    }

    /// Triangulates everything that registered cameras see.
    fn extend(&mut self, r: &mut Rng, cx: &mut Cx) -> Res {
        let (a, b) = self.n.st.base.unwrap();
        let (g, k) = self.s.gauge(a, b);
        let method = r.below(2);
        for lm in 0..self.s.lms.len() {
            let mut obs: Vec<(usize, WorldToCamera, U3, bool)> = self
                .n
                .frames
                .iter()
                .filter_map(|(c, f)| Some((*c, *self.n.st.poses.get(c)?, f.get(&lm)?.0, f[&lm].1.clean)))
                .collect();
            if obs.len() < 2 {
                continue;
            }
            r.shuffle(&mut obs);
            let tri = |list: &[(usize, WorldToCamera, U3, bool)]| {
                let it = list.iter().map(|o| (o.1, o.2));
                match method {
                    0 => LinearEigenTriangulator::new().triangulate_observations(it),
                    _ => SineL1Triangulator::new().triangulate_observations(it),
                }
            };
            // The pair that most others agree with.
            let mut best: Vec<_> = vec![];
            for i in 0..obs.len() {
                for j in i + 1..obs.len() {
                    let Some(p) = LinearEigenTriangulator::new().triangulate_observations([obs[i], obs[j]].iter().map(|o| (o.1, o.2))) else {
                        continue;
                    };
                    let agree: Vec<_> = obs.iter().filter(|o| 1.0 - o.2.dot(&o.1.transform(p).bearing()) < AGREE).copied().collect();
                    if agree.len() > best.len() {
                        best = agree;
                    }
                }
            }
            if best.len() < 2 {
                continue;
            }
            let clean = best.iter().all(|o| o.3);
            let p = tri(&best);
            if !clean {
                // Two wrong keypoints may agree with each other; nobody can tell.
                cx.probe("landmark-from-wrong-keypoints");
                if let Some(p) = p {
                    self.n.st.map.insert(lm, (p, false));
                }
                continue;
            }
            cx.ensure("clean-landmark-triangulated", p.is_some(), || {
                format!("landmark {lm} from {} exact observations (method {method})", best.len())
            })?;
            let p = p.unwrap();
            let want = g.apply(&self.s.lms[lm]) * k;
            let got = p.point();
            cx.ensure("landmark-is-finite", got.is_some(), || format!("landmark {lm}: {p:?}"))?;
            let err = (got.unwrap().coords - want).norm() / (1.0 + want.norm());
            cx.within("landmark-in-place", err, 1e-5, || format!("landmark {lm} at {got:?}, truth {want:?} (method {method}, {} observations)", best.len()))?;
            for (c, pose, _, _) in &best {
                let px = self.s.lenses[*c].uncalibrate(pose.transform(p).bearing());
                let saw = self.n.frames[c][&lm].1.px;
                cx.ensure("landmark-is-seen", px.is_some(), || format!("landmark {lm} is not seen by camera {c}"))?;
                cx.within("landmark-seen-at-its-pixel", (px.unwrap() - saw).norm(), 1e-3, || {
                    format!("landmark {lm} in camera {c} is seen at {px:?}, the keypoint is at {saw:?}")
                })?;
                cx.probe("pixel-reprojected");
            }
            self.n.st.map.insert(lm, (p, true));
        }
        Ok(())
    }

    /// Once faults are over: the whole session is there and consistent.
    fn settled(&mut self, cx: &mut Cx) -> Res {
        let cams = self.s.cams.len();
        let rich = (0..cams).all(|c| {
            let f = self.s.frame(self.plan, c);
            f.iter().filter(|k| k.clean).count() * 20 >= f.len() * 17 && f.iter().filter(|k| k.clean).count() >= 20
        });
        if !rich || self.n.frames.len() < cams {
            return Ok(());
        }
        // What consensus can be asked for: enough that is right, and most of it.
        let fair = |clean: usize, all: usize, least: usize| clean >= least && clean * 10 >= all * 7;
        let Some(_) = self.n.st.base else {
            let f: Vec<_> = self.n.frames.values().take(2).collect();
            let both: Vec<_> = f[0].iter().filter_map(|(l, x)| Some(x.1.clean && f[1].get(l)?.1.clean)).collect();
            cx.ensure("session-bootstraps", !fair(both.iter().filter(|c| **c).count(), both.len(), 14), || {
                "no relative pose after faults stopped".into()
            })?;
            return Ok(());
        };
        for (c, f) in &self.n.frames {
            let seen: Vec<_> = f.iter().filter_map(|(l, x)| Some(x.1.clean && self.n.st.map.get(l)?.1)).collect();
            let due = fair(seen.iter().filter(|c| **c).count(), seen.len(), 10);
            if !self.n.st.poses.contains_key(c) {
                return cx.ensure("session-registers-all", !due, || format!("camera {c} is not registered after faults stopped"));
            }
        }
        let good = self.n.st.map.values().filter(|p| p.1).count();
        let due = (0..self.s.lms.len())
            .filter(|l| self.n.frames.values().filter(|f| f.get(l).map_or(false, |x| x.1.clean)).count() >= 2)
            .count();
        // A pair of wrong keypoints may by chance outvote a clean one.
        cx.ensure("session-maps", good + 2 >= due, || format!("{good} landmarks of {due} that two cameras saw"))?;
        cx.probe("session-complete");
        Ok(())
    }
}

impl Scenario for Session {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough {
            400_000
        } else {
            10_000
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &[
            "CameraIntrinsics, CameraIntrinsicsK1Distortion, CameraSpecification",
            "EightPoint, NisterStewenius, LambdaTwist and the residuals of poses",
            "LinearEigenTriangulator, SineL1Triangulator, single-view optimizers",
            "serialization of poses and points in checkpoints",
        ]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["cameras and their optics (reference lens model inverted by bisection)", "network, crashes, sampling loop of the session (simulator)"]
    }
    fn rule(&self) -> &'static str {
        "one case is one simulated mapping session from pixels to map; non-trivial when it judged pixels or poses; distinct by the order of frames, crashes and work"
    }
    fn floors(&self) -> &'static [(&'static str, f64)] {
        &[("scale", 1.0), ("wrong", 0.0), ("missed", 0.0)]
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut plan = Plan::empty();
        plan.world = rng.u64();
        let cams = rng.range(2, if thorough { 7 } else { 5 });
        plan.set("cams", cams as f64);
        plan.set("lms", rng.range(30, 60) as f64);
        plan.set("scale", if rng.chance(0.5) { 1.0 } else { rng.logu(1e-3, 1e3) });
        plan.set("wrong", if rng.chance(0.5) { 0.0 } else { rng.uni(0.0, 0.15) });
        plan.set("missed", rng.uni(0.0, 0.15));
        plan.set("five", f64::from(u8::from(rng.chance(0.3))));
        let link = Link::swarm(rng);
        let clean = Link::clean(rng);
        let crashes = if rng.chance(0.5) { 0.12 } else { 0.0 };
        let mut t = 0;
        for salt in 0..rng.range(5, if thorough { 60 } else { 25 }) {
            t += rng.range(1, 100_000) as u64;
            if rng.chance(crashes) {
                plan.ops.push(Op::new(t, "crash", vec![]));
                continue;
            }
            match rng.below(7) {
                0..=2 => {
                    let mut v = vec![rng.below(cams) as f64];
                    v.extend(link.fate(rng));
                    plan.ops.push(Op::new(t, "frame", v));
                }
                3 => plan.ops.push(Op::new(t, "pixels", vec![rng.below(cams) as f64, salt as f64])),
                4 => plan.ops.push(Op::new(t, "checkpoint", vec![])),
                _ => plan.ops.push(Op::new(t, "work", vec![salt as f64])),
            }
        }
        // Faults stop: every frame comes again, and the session gets a bounded number of steps.
        t += 3_000_000;
        let mut order: Vec<_> = (0..cams).collect();
        rng.shuffle(&mut order);
        for c in order {
            t += 1000;
            let mut v = vec![c as f64];
            v.extend(clean.fate(rng));
            plan.ops.push(Op::new(t, "frame", v));
        }
        t += 1_000_000;
        for i in 0..cams * 6 {
            t += 10_000;
            plan.ops.push(Op::new(t, "work", vec![(1000 + i) as f64]));
        }
        plan.ops.push(Op::new(t + 1, "settled", vec![]));
        plan
    }
    fn run(&self, plan: &Plan, cx: &mut Cx) -> Res {
        let empty = State::default().save();
        let mut sim = Sim {
            plan,
            s: Scene::new(plan),
            n: Node { frames: BTreeMap::new(), st: State::default(), saved: empty, tries: 0 },
        };
        let mut q = Queue::default();
        for op in &plan.ops {
            q.push(op.t, Ev::Step(op.clone()));
        }
        let work = plan.ops.iter().filter(|o| o.k == "work" && o.u(0) >= 1000).count();
        while let Some((t, ev)) = q.pop() {
            cx.sim_us = t;
            match ev {
                Ev::Frame(c) => sim.arrive(c, cx)?,
                Ev::Step(op) => match op.k.as_str() {
                    "frame" => {
                        let fate = &op.a[1.min(op.a.len())..];
                        note_fate(cx, fate);
                        for d in fate {
                            q.push(t + *d as u64, Ev::Frame(op.u(0).min(sim.s.cams.len() - 1)));
                        }
                    }
                    "pixels" => pixels(plan, op.u(0).min(sim.s.cams.len() - 1), op.u(1), &sim.s, cx)?,
                    "checkpoint" => sim.checkpoint(cx)?,
                    "crash" => sim.crash(cx),
                    "work" => sim.work(op.u(0), cx)?,
                    "settled" if work >= 6 * sim.s.cams.len() => sim.settled(cx)?,
                    _ => {}
                },
            }
        }
        Ok(())
    }
}
