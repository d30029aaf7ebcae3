//! C12: nodes with maps of their own exchange camera poses and landmarks over a faulty network,
//! through partitions and crashes, and must end with one consistent map.

use crate::geo::*;
use crate::rng::Rng;
use crate::runner::Scenario;
use crate::sim::*;
use cv_core::nalgebra::{IsometryMatrix3, Matrix4, Rotation3, Vector6};
use cv_core::{
    CameraPoint, CameraToCamera, CameraToWorld, Pose, Projective, Se3TangentSpace, Skew3,
    WorldPoint, WorldToCamera, WorldToWorld,
};
use std::collections::{BTreeMap, BTreeSet};

pub struct Merge;
pub static C12: Merge = Merge;

/// What the simulated fleet looks like: every node's map frame relative to the true world, and
/// every camera relative to the true world.
struct Fleet {
    frames: Vec<Rt>,
    cams: Vec<Rt>,
    lms: Vec<V4>,
    scale: f64,
}

/// A rotation as maps really meet them: generic, none at all, half turns exact and nearly so,
/// quarter turns, and tiny ones.
fn turn(r: &mut Rng) -> M3 {
    match r.below(9) {
        0 => M3::identity(),
        1 => *r.pick(&[
            M3::from_diagonal(&V3::new(1.0, -1.0, -1.0)),
            M3::from_diagonal(&V3::new(-1.0, 1.0, -1.0)),
            M3::from_diagonal(&V3::new(-1.0, -1.0, 1.0)),
        ]),
        2 => rodrigues(&rand_unit(r), std::f64::consts::PI),
        3 => rodrigues(&rand_unit(r), std::f64::consts::PI - r.logu(1e-12, 1e-2)),
        4 => rodrigues(&rand_unit(r), r.logu(1e-10, 1e-2)),
        5 => {
            let mut m = M3::identity();
            for _ in 0..r.below(4) + 1 {
                let axis = *r.pick(&[V3::x(), V3::y(), V3::z()]);
                m = rodrigues(&axis, std::f64::consts::FRAC_PI_2).map(|x| x.round()) * m;
            }
            m
        }
        _ => rand_rot(r),
    }
}

impl Fleet {
    fn new(plan: &Plan) -> Fleet {
        let scale = plan.k("scale");
        let pose = |kind: &str, i: usize| {
            let mut r = plan.entity(kind, i, 0);
            let m = turn(&mut r);
            let t = match r.below(6) {
                0 => V3::zeros(),
                1 => rand_unit(&mut r) * r.logu(1e-6, 1.0),
                _ => rand_unit(&mut r) * r.uni(0.1, 10.0),
            };
            Rt { r: m, t: t * scale }
        };
        Fleet {
            frames: (0..plan.ku("nodes")).map(|i| pose("frame", i)).collect(),
            cams: (0..plan.ku("cams")).map(|i| pose("cam", i)).collect(),
            lms: (0..plan.ku("lms"))
                .map(|i| {
                    let mut r = plan.entity("lm", i, 0);
                    let d = rand_unit(&mut r);
                    let w = match r.below(5) {
                        0 => 0.0,
                        1 => r.logu(1e-9, 1e-2),
                        _ => 1.0 / r.uni(1.0, 20.0),
                    };
                    d.push(w / scale)
                })
                .collect(),
            scale,
        }
    }
    /// Camera `c` as node `n` holds it.
    fn cam_in(&self, n: usize, c: usize) -> Rt {
        self.cams[c].after(&self.frames[n].inv())
    }
    fn lm_in(&self, n: usize, l: usize) -> V4 {
        norm_h(&apply_h(&self.frames[n], &self.lms[l]))
    }
    /// The relation that takes the frame of `a` to the frame of `b`.
    fn rel(&self, a: usize, b: usize) -> Rt {
        self.frames[b].after(&self.frames[a].inv())
    }
    /// Cameras that node `n` registered in its own map.
    fn has(&self, plan: &Plan, n: usize, c: usize) -> bool {
        // A chain guarantees that the fleet is connected; the rest is chance.
        c == n || c + 1 == n || plan.entity("has", n, c).chance(plan.k("overlap"))
    }
}

fn apply_h(p: &Rt, h: &V4) -> V4 {
    (p.r * h.xyz() + p.t * h.w).push(h.w)
}
fn norm_h(h: &V4) -> V4 {
    h / h.xyz().norm()
}

/// Distance of two rigid motions: the angle, and the translation relative to `scale`.
fn apart(a: &Rt, b: &Rt, scale: f64) -> f64 {
    rot_diff(&a.r, &b.r).max((a.t - b.t).norm() / scale)
}

fn same_point(name: &'static str, got: V4, want: &V4, scale: f64, tol: f64, cx: &mut Cx) -> Res {
    // Rounding of a position is relative to the positions that were added up to get it.
    let near = 1.0 / (1e-300 + want.xyz().norm());
    let want = norm_h(want);
    cx.within(name, ang(&got.xyz(), &want.xyz()), tol * (1.0 + scale * near), || {
        format!("direction {got:?}, expected {want:?}")
    })?;
    cx.within(name, (got.w - want.w).abs() * scale, tol * (1.0 + scale * near).powi(2), || {
        format!("inverse distance {got:?}, expected {want:?}")
    })?;
    cx.within("point-is-normalized", (got.xyz().norm() - 1.0).abs(), 1e-12, || format!("{got:?}"))?;
    cx.ensure("inverse-distance-not-negative", got.w >= 0.0, || format!("{got:?}"))
}

fn x_size(x: &V4, far: f64) -> f64 {
    1.0 + x.w.abs() * far
}

/// Every way one pose can be used agrees with the rigid motion that it stands for.
fn judge<P: Pose>(p: P, truth: &Rt, pts: &[V4], scale: f64, cx: &mut Cx) -> Res {
    let iso = Rt::of_iso(&p.isometry());
    let far = scale.max(truth.t.norm());
    cx.within("pose-is-the-motion", apart(&iso, truth, far), 1e-9, || format!("{iso:?}, expected {truth:?}"))?;
    cx.within("pose-rigid", rot_defect(&iso.r), 1e-9, || format!("{iso:?}"))?;
    // Everything below is judged against the isometry the pose holds.
    let m = Matrix4::new(
        iso.r[(0, 0)], iso.r[(0, 1)], iso.r[(0, 2)], iso.t.x,
        iso.r[(1, 0)], iso.r[(1, 1)], iso.r[(1, 2)], iso.t.y,
        iso.r[(2, 0)], iso.r[(2, 1)], iso.r[(2, 2)], iso.t.z,
        0.0, 0.0, 0.0, 1.0,
    );
    cx.within("homogeneous-matrix", (p.homogeneous() - m).norm() / (1.0 + far), 1e-14, || format!("{:?}", p.homogeneous()))?;
    let inv = Rt::of_iso(&p.inverse().isometry());
    cx.within("inverse", apart(&inv, &iso.inv(), far), 1e-12, || format!("{inv:?} of {iso:?}"))?;
    // The compact exchange form, and back.
    let se3 = p.se3();
    cx.ensure("se3-translation-first", se3.xyz() == iso.t, || format!("{se3:?} of {iso:?}"))?;
    let turn = V3::new(se3[3], se3[4], se3[5]);
    let angle = turn.norm();
    let built = if angle == 0.0 { M3::identity() } else { rodrigues(&turn, angle) };
    cx.within("se3-rotation", rot_diff(&built, &iso.r), 1e-9, || format!("{se3:?} of {iso:?}"))?;
    cx.ensure("se3-shortest-turn", angle <= std::f64::consts::PI + 1e-9, || format!("{se3:?}"))?;
    let back = Rt::of_iso(&P::from_se3(se3).isometry());
    cx.within("se3-round-trip", apart(&back, &iso, far), 1e-9, || format!("{back:?} from {iso:?}"))?;
    let parts = P::from_parts(iso.t, Rotation3::from_matrix_unchecked(iso.r));
    cx.ensure("from-parts", Rt::of_iso(&parts.isometry()).r == iso.r && Rt::of_iso(&parts.isometry()).t == iso.t, || {
        format!("{:?}", parts.isometry())
    })?;
    for h in pts {
        let input = P::InputPoint::from_homogeneous(*h);
        let raw = apply_h(&iso, &input.homogeneous());
        if raw.xyz().norm() < 1e-6 {
            continue;
        }
        cx.probe(if h.w == 0.0 { "transform-infinite" } else { "transform-finite" });
        let out = p.transform(input).homogeneous();
        same_point("transform", out, &raw, far * h.w.abs(), 1e-12, cx)?;
        // The variants with derivatives see the same point.
        let (a, ji) = p.transform_jacobian_input(input);
        let (b, js) = p.transform_jacobian_self(input);
        let (c, ji2, js2) = p.transform_jacobians(input);
        let near = |x: V4| (x - out).norm() / (1.0 + out.w);
        let d = near(a.homogeneous()).max(near(b.homogeneous())).max(near(c.homogeneous()));
        let d = d.max((ji - ji2).norm() / (1.0 + far)).max((js - js2).norm() / (1.0 + x_size(&input.homogeneous(), far)));
        cx.within("variants-agree", d, 1e-12 * (1.0 + 1.0 / raw.xyz().norm()), || {
            format!("{out:?} {:?} {:?} {:?}", a.homogeneous(), b.homogeneous(), c.homogeneous())
        })?;
        // Derivatives predict what small moves do.
        let x = input.homogeneous();
        let size = x_size(&x, far);
        for k in 0..4 {
            let want = m.column(k);
            cx.within("derivative-by-input", (ji.column(k) - want).norm() / (1.0 + far), 1e-12, || format!("{ji:?}"))?;
        }
        let e = 1e-6;
        for k in 0..6 {
            let moved = |s: f64| {
                let mut q = iso;
                if k < 3 {
                    q.t[k] += s * e * far;
                } else {
                    let mut axis = V3::zeros();
                    axis[k - 3] = 1.0;
                    q.r = rodrigues(&axis, s * e) * q.r;
                }
                apply_h(&q, &x)
            };
            let step = if k < 3 { e * far } else { e };
            let want = (moved(1.0) - moved(-1.0)) / (2.0 * step);
            let err = (js.column(k) - want).norm() / if k < 3 { 1.0 + x.w } else { size };
            cx.within("derivative-by-pose", err, 1e-7, || {
                format!("column {k} of {js:?}, finite differences give {want:?}")
            })?;
        }
        // There and back again.
        let home = p.inverse();
        let ret = Rt::of_iso(&home.isometry());
        let raw = apply_h(&ret, &out);
        if raw.xyz().norm() > 1e-6 {
            let want = input.homogeneous();
            let got = norm_h(&raw);
            let near = 1.0 / raw.xyz().norm();
            let tol = 1e-12 * (1.0 + far * want.w.abs()) * (1.0 + near) * (1.0 + 1.0 / apply_h(&iso, &want).xyz().norm());
            cx.within("there-and-back", ang(&got.xyz(), &want.xyz()), tol, || format!("{got:?} {want:?}"))?;
        }
    }
    // Rescaling a map moves positions and never directions.
    let k = 0.37;
    let big = Rt::of_iso(&p.scale(k).isometry());
    cx.ensure("scale-keeps-rotation", (big.r - iso.r).norm() < 1e-14, || format!("{big:?} of {iso:?}"))?;
    cx.within("scale-moves-translation", (big.t - iso.t * k).norm() / far, 1e-14, || format!("{big:?} of {iso:?}"))?;
    Ok(())
}

/// The exchange form of small steps and rotations.
fn tangent(plan: &Plan, salt: usize, cx: &mut Cx) -> Res {
    let mut r = plan.entity("tangent", salt, 0);
    let v = |r: &mut Rng| -> V3 {
        let n = match r.below(5) {
            0 => 0.0,
            1 => r.logu(1e-12, 1e-6),
            2 => std::f64::consts::PI,
            3 => r.logu(1e-9, 1e-7),
            _ => r.uni(1e-3, 3.1),
        };
        rand_unit(r) * n
    };
    let exp = |w: &V3| if w.norm() == 0.0 { M3::identity() } else { rodrigues(w, w.norm()) };
    let (a, b) = (v(&mut r), v(&mut r));
    cx.log(format!("tangent {} {}", bits(a.iter()), bits(b.iter())));
    cx.probe("tangent-judged");
    let (sa, sb) = (Skew3(a), Skew3(b));
    let rot: Rotation3<f64> = sa.into();
    cx.within("exponential", rot_diff(rot.matrix(), &exp(&a)), 1e-13, || format!("{a:?} became {rot:?}"))?;
    cx.within("exponential-rigid", rot_defect(rot.matrix()), 1e-12, || format!("{a:?} became {rot:?}"))?;
    cx.within("rotation-method", rot_diff(sa.rotation().matrix(), rot.matrix()), 1e-13, || "differs from the conversion".into())?;
    let log: Skew3 = rot.into();
    cx.within("logarithm", rot_diff(&exp(&log.0), rot.matrix()), 1e-13, || format!("{a:?} came back as {log:?}"))?;
    if a.norm() < 3.0 {
        cx.within("logarithm-is-inverse", (log.0 - a).norm() / (1.0 + a.norm()), 1e-12, || format!("{a:?} came back as {log:?}"))?;
    }
    // Full turns more or less are the same rotation.
    if a.norm() > 1e-3 {
        let around = a * (1.0 + std::f64::consts::TAU / a.norm());
        let rot2: Rotation3<f64> = Skew3(around).into();
        cx.within("full-turn", rot_diff(rot2.matrix(), rot.matrix()), 1e-12, || format!("{a:?} and {around:?}"))?;
    }
    let tiny = a * 1e-6;
    let small = Skew3(tiny).rotation_small();
    cx.within("small-rotation", rot_diff(small.matrix(), &exp(&tiny)), 1e-14 + tiny.norm_squared(), || format!("{tiny:?} became {small:?}"))?;
    cx.within("small-rotation-rigid", rot_defect(small.matrix()), 1e-12, || format!("{tiny:?} became {small:?}"))?;
    // The algebra: hat is the cross product, vee undoes it, the bracket is the commutator.
    let x = rand_unit(&mut r);
    cx.within("hat", (sa.hat() * x - a.cross(&x)).norm(), 1e-14, || format!("{:?}", sa.hat()))?;
    cx.ensure("vee", (Skew3::vee(sa.hat()).0 - a).norm() < 1e-14, || format!("{:?}", Skew3::vee(sa.hat())))?;
    cx.within("hat2", (sa.hat2() * x - a.cross(&a.cross(&x))).norm(), 1e-13, || format!("{:?}", sa.hat2()))?;
    cx.within("bracket", (sa.bracket(sb).0 - a.cross(&b)).norm(), 1e-13, || format!("{:?}", sa.bracket(sb)))?;
    cx.within("rotation-derivative-by-input", (sa.jacobian_input() * x.push(1.0) - (exp(&a) * x).push(1.0)).norm(), 1e-12, || format!("{:?}", sa.jacobian_input()))?;
    let y = rand_unit(&mut r) * r.uni(0.1, 10.0);
    let js = Skew3::jacobian_self(y);
    let d = rand_unit(&mut r);
    let e = 1e-6;
    let want = (rodrigues(&d, e) * y - rodrigues(&d, -e) * y) / (2.0 * e);
    cx.within("rotation-derivative-by-rotation", (js * d - want).norm() / y.norm(), 1e-9, || format!("{js:?} at {y:?}"))?;
    // Steps of an optimizer.
    let t = rand_unit(&mut r) * r.uni(0.0, 2.0);
    let step = Se3TangentSpace::new(t, a);
    let iso = Rt::of_iso(&step.isometry());
    let want = Rt { r: exp(&a), t: exp(&a) * t };
    cx.within("step-motion", apart(&iso, &want, 1.0), 1e-12, || format!("{step:?} became {iso:?}"))?;
    let und = Rt::of_iso(&step.inverse().isometry()).after(&iso);
    cx.within("step-inverse", apart(&und, &Rt::identity(), 1.0), 1e-12 + a.norm() * t.norm() * 1.001, || format!("{step:?} undone leaves {und:?}"))?;
    let pure = Se3TangentSpace::new(V3::zeros(), a);
    let und = Rt::of_iso(&pure.inverse().isometry()).after(&Rt::of_iso(&pure.isometry()));
    cx.within("step-inverse", apart(&und, &Rt::identity(), 1.0), 1e-12, || format!("{pure:?} undone leaves {und:?}"))?;
    let (ta, ra) = Se3TangentSpace::new(b, a).rotations();
    cx.within("step-rotations", rot_diff(ta.matrix(), &exp(&b)).max(rot_diff(ra.matrix(), &exp(&a))), 1e-12, || format!("{ta:?} {ra:?}"))?;
    let back = Se3TangentSpace::from_vec(step.to_vec());
    cx.ensure("step-vector", back == step && step.to_vec() == Vector6::new(t.x, t.y, t.z, a.x, a.y, a.z), || format!("{:?}", step.to_vec()))?;
    let k = r.uni(-2.0, 2.0);
    let eq = |s: Se3TangentSpace, t: V3, r: V3| (s.translation - t).norm() + (s.rotation - r).norm() < 1e-14;
    cx.ensure("step-scale", eq(step.scale(k), t * k, a * k), || format!("{:?}", step.scale(k)))?;
    cx.ensure("step-scale-translation", eq(step.scale_translation(k), t * k, a), || format!("{:?}", step.scale_translation(k)))?;
    cx.ensure("step-scale-rotation", eq(step.scale_rotation(k), t, a * k), || format!("{:?}", step.scale_rotation(k)))?;
    let other = Se3TangentSpace::new(b, x);
    let mut acc = step;
    acc += other;
    cx.ensure(
        "step-sum",
        eq(step + other, t + b, a + x) && eq(acc, t + b, a + x) && eq([step, other].iter().copied().sum(), t + b, a + x),
        || format!("{:?}", step + other),
    )?;
    let l1 = step.l1();
    let dir = |v: V3| if v.norm() == 0.0 { V3::zeros() } else { v / v.norm() };
    cx.ensure("step-l1", eq(l1, dir(t), dir(a)), || format!("{step:?} became {l1:?}"))?;
    let bad = Se3TangentSpace::new(V3::new(f64::NAN, 1.0, 1.0), a);
    cx.ensure("step-refuses-nan", bad.translation == V3::zeros() && bad.rotation == a, || format!("{bad:?}"))?;
    Ok(())
}

/// A camera pose or a map relation as it travels.
#[derive(Clone, Debug)]
enum Wire {
    Iso(IsometryMatrix3<f64>),
    Vec(Vec<f64>),
    Text(String),
    Bytes(Vec<u8>),
}

/// Encodes with real code only. `Inverse` forms send the opposite motion.
fn encode<P: Pose>(p: P, form: usize) -> (Wire, bool)
where
    P::Inverse: Pose,
{
    match form {
        0 => (Wire::Iso(p.isometry()), false),
        1 => (Wire::Vec(p.se3().iter().copied().collect()), false),
        2 => (Wire::Iso(p.inverse().isometry()), true),
        3 => (Wire::Text(serde_json::to_string(&p.isometry()).unwrap()), false),
        4 => (Wire::Bytes(bincode::serialize(&p.isometry()).unwrap()), false),
        _ => (Wire::Vec(p.inverse().se3().iter().copied().collect()), true),
    }
}

fn decode<P: Pose, Q: Pose<Inverse = P>>(w: &Wire, inverted: bool) -> P {
    let iso = match w {
        Wire::Iso(i) => *i,
        Wire::Vec(v) => {
            let v = Vector6::from_column_slice(v);
            if inverted {
                return Q::from_se3(v).inverse();
            }
            return P::from_se3(v);
        }
        Wire::Text(s) => serde_json::from_str(s).unwrap(),
        Wire::Bytes(b) => bincode::deserialize(b).unwrap(),
    };
    if inverted {
        Q::from(iso).inverse()
    } else {
        P::from(iso)
    }
}

#[derive(Clone)]
enum Msg {
    /// Camera `cam` in the frame of the sender.
    Cam { cam: usize, wire: Wire, inv: bool },
    /// Relation between two frames that the sender derived.
    Rel { a: usize, b: usize, wire: Wire, inv: bool },
    /// Landmark `lm` in the frame of the sender.
    Lm { lm: usize, h: V4 },
}

enum Ev {
    Deliver { from: usize, to: usize, msg: Msg },
    Step(Op),
}

#[derive(Default)]
struct Node {
    up: bool,
    /// Relations this node knows (volatile).
    rels: BTreeMap<(usize, usize), WorldToWorld>,
    /// Landmarks of other nodes, in this node's frame (volatile).
    lms: BTreeMap<(usize, usize), WorldPoint>,
    /// Landmarks that no relation can place yet.
    waiting: Vec<(usize, usize, V4)>,
}

struct Sim<'a> {
    plan: &'a Plan,
    f: Fleet,
    nodes: Vec<Node>,
    cut: BTreeSet<usize>,
    q: Queue<Ev>,
}

impl Sim<'_> {
    fn split(&self, a: usize, b: usize) -> bool {
        self.cut.contains(&a) != self.cut.contains(&b)
    }

    /// Camera `c` in the map of node `n`, as the real type.
    fn own(&self, n: usize, c: usize) -> WorldToCamera {
        WorldToCamera(self.f.cam_in(n, c).iso())
    }

    fn send(&mut self, now: u64, from: usize, to: usize, msg: Msg, delays: &[f64], cx: &mut Cx) {
        note_fate(cx, delays);
        if self.split(from, to) {
            cx.fault("partition-drop");
            return;
        }
        for d in delays {
            self.q.push(now + *d as u64, Ev::Deliver { from, to, msg: msg.clone() });
        }
    }

    /// A chain of relations from frame `a` to frame `b`, composed with the real poses.
    fn path(&self, n: usize, a: usize, b: usize) -> Option<(WorldToWorld, usize)> {
        let rels = &self.nodes[n].rels;
        let mut seen = BTreeMap::from([(a, (WorldToWorld::identity(), 0))]);
        let mut next = vec![a];
        while let Some(x) = next.pop() {
            for (&(i, j), r) in rels {
                for (i, j, r) in [(i, j, *r), (j, i, r.inverse())] {
                    if i == x && !seen.contains_key(&j) {
                        let (p, len) = seen[&x];
                        let q = WorldToWorld(r.isometry() * p.isometry());
                        seen.insert(j, (q, len + 1));
                        next.insert(0, j);
                    }
                }
            }
        }
        seen.get(&b).copied()
    }

    fn learn(&mut self, n: usize, a: usize, b: usize, rel: WorldToWorld, cx: &mut Cx) -> Res {
        let want = self.f.rel(a, b);
        let far = self.f.scale * 30.0;
        let got = Rt::of_iso(&rel.isometry());
        cx.within("relation-is-true", apart(&got, &want, far), 1e-10, || {
            format!("node {n} relates map {a} to map {b} by {got:?}, the truth is {want:?}")
        })?;
        // Whatever this node already knew about these maps says the same.
        if let Some((old, len)) = self.path(n, a, b) {
            cx.probe(if len > 1 { "loop-closed" } else { "relation-again" });
            let old = Rt::of_iso(&old.isometry());
            cx.within("paths-agree", apart(&old, &got, far), 1e-10, || {
                format!("node {n}: a path of {len} gives {old:?}, the new relation {got:?}")
            })?;
        }
        self.nodes[n].rels.insert((a, b), rel);
        cx.state(&[n as u64, self.nodes[n].rels.len() as u64, self.nodes[n].lms.len() as u64]);
        let waiting = std::mem::take(&mut self.nodes[n].waiting);
        for (from, lm, h) in waiting {
            self.place(n, from, lm, h, cx)?;
        }
        Ok(())
    }

    fn place(&mut self, n: usize, from: usize, lm: usize, h: V4, cx: &mut Cx) -> Res {
        let Some((rel, len)) = self.path(n, from, n) else {
            self.nodes[n].waiting.push((from, lm, h));
            cx.probe("landmark-waits");
            return Ok(());
        };
        let got = rel.transform(WorldPoint::from_homogeneous(h));
        let want = self.f.lm_in(n, lm);
        let raw = apply_h(&Rt::of_iso(&rel.isometry()), &h);
        // A landmark at the origin of a frame has no direction there.
        if raw.xyz().norm() > 1e-4 {
            same_point("landmark-agrees", got.homogeneous(), &(want * raw.xyz().norm()), self.f.scale * 30.0 * h.w.abs(), 1e-10 * (len + 1) as f64, cx)?;
            cx.probe("landmark-placed");
        }
        self.nodes[n].lms.insert((from, lm), got);
        Ok(())
    }

    fn deliver(&mut self, from: usize, to: usize, msg: Msg, cx: &mut Cx) -> Res {
        if self.split(from, to) {
            cx.fault("partition-drop");
            return Ok(());
        }
        if !self.nodes[to].up {
            cx.fault("message-to-a-dead-node");
            return Ok(());
        }
        match msg {
            Msg::Cam { cam, wire, inv } => {
                cx.sched((from * 8 + to) as u64);
                let theirs: WorldToCamera = decode::<WorldToCamera, CameraToWorld>(&wire, inv);
                cx.log(format!("{to} gets camera {cam} of {from}"));
                let far = self.f.scale * 30.0;
                let want = self.f.cam_in(from, cam);
                let got = Rt::of_iso(&theirs.isometry());
                cx.within("exchange-form-keeps-pose", apart(&got, &want, far), 1e-10, || {
                    format!("camera {cam} of {from} arrived as {got:?}, sent {want:?} ({wire:?})")
                })?;
                if !self.f.has(self.plan, to, cam) || from == to {
                    return Ok(());
                }
                let mine = self.own(to, cam);
                self.learn(to, from, to, WorldToWorld::from_camera_poses(theirs, mine), cx)?;
                // The other direction is its inverse.
                let back = WorldToWorld::from_camera_poses(mine, theirs);
                let d = apart(&Rt::of_iso(&back.isometry()), &self.f.rel(to, from), far);
                cx.within("relation-is-true", d, 1e-10, || "the opposite relation is wrong".into())
            }
            Msg::Rel { a, b, wire, inv } => {
                cx.sched((64 + from * 8 + to) as u64);
                let rel: WorldToWorld = decode::<WorldToWorld, WorldToWorld>(&wire, inv);
                cx.log(format!("{to} gets relation {a}-{b} from {from}"));
                self.learn(to, a, b, rel, cx)
            }
            Msg::Lm { lm, h } => {
                cx.sched((128 + from * 8 + to) as u64);
                cx.log(format!("{to} gets landmark {lm} of {from}"));
                self.place(to, from, lm, h, cx)
            }
        }
    }

    fn step(&mut self, op: &Op, cx: &mut Cx) -> Res {
        let n = self.nodes.len();
        match op.k.as_str() {
            "cam" => {
                let (from, to, cam, form) = (op.u(0) % n, op.u(1) % n, op.u(2) % self.f.cams.len(), op.u(3));
                if !self.nodes[from].up || !self.f.has(self.plan, from, cam) {
                    return Ok(());
                }
                let (wire, inv) = encode(self.own(from, cam), form);
                self.send(op.t, from, to, Msg::Cam { cam, wire, inv }, &op.a[4.min(op.a.len())..], cx);
            }
            "rel" => {
                let (from, to, i, form) = (op.u(0) % n, op.u(1) % n, op.u(2), op.u(3));
                let rels: Vec<_> = self.nodes[from].rels.iter().map(|(k, v)| (*k, *v)).collect();
                if !self.nodes[from].up || rels.is_empty() {
                    return Ok(());
                }
                let ((a, b), r) = rels[i % rels.len()];
                let (wire, inv) = encode(r, form);
                self.send(op.t, from, to, Msg::Rel { a, b, wire, inv }, &op.a[4.min(op.a.len())..], cx);
            }
            "gossip" => {
                let (from, to, form) = (op.u(0) % n, op.u(1) % n, op.u(2));
                if self.nodes[from].up {
                    let rels: Vec<_> = self.nodes[from].rels.iter().map(|(k, v)| (*k, *v)).collect();
                    for ((a, b), r) in rels {
                        let (wire, inv) = encode(r, form);
                        self.send(op.t, from, to, Msg::Rel { a, b, wire, inv }, &op.a[3.min(op.a.len())..], cx);
                    }
                }
            }
            "lm" => {
                let (from, to, lm) = (op.u(0) % n, op.u(1) % n, op.u(2) % self.f.lms.len());
                if !self.nodes[from].up {
                    return Ok(());
                }
                let h = self.f.lm_in(from, lm);
                self.send(op.t, from, to, Msg::Lm { lm, h }, &op.a[3.min(op.a.len())..], cx);
            }
            "cut" => {
                self.cut = (0..n).filter(|i| op.u(0) >> i & 1 == 1).collect();
                if !self.cut.is_empty() && self.cut.len() < n {
                    cx.fault("partition");
                }
                cx.log(format!("partition {:?}", self.cut));
            }
            "crash" => {
                let x = op.u(0) % n;
                cx.fault("crash");
                cx.log(format!("crash {x}"));
                self.nodes[x] = Node::default();
                self.q.push(op.t + op.f(1) as u64, Ev::Step(Op::new(op.t + op.f(1) as u64, "up", vec![x as f64])));
            }
            "up" => {
                self.nodes[op.u(0) % n].up = true;
                cx.log(format!("restart {}", op.u(0) % n));
            }
            "judge" => {
                // A node uses one of its poses in every way there is.
                let (x, cam) = (op.u(0) % n, op.u(1) % self.f.cams.len());
                let mut r = self.plan.entity("judge", op.u(2), 0);
                let lms: Vec<V4> = (0..3).map(|_| self.f.lm_in(x, r.below(self.f.lms.len()))).collect();
                let pose = self.f.cam_in(x, cam);
                let s = self.f.scale;
                cx.log(format!("judge {x} {cam}"));
                judge(self.own(x, cam), &pose, &lms, s, cx)?;
                judge(self.own(x, cam).inverse(), &pose.inv(), &lms, s, cx)?;
                let other = self.f.cam_in(x, op.u(3) % self.f.cams.len());
                let rel = other.after(&pose.inv());
                judge(CameraToCamera(rel.iso()), &rel, &lms, s, cx)?;
                let w = self.f.rel(x, op.u(3) % n);
                judge(WorldToWorld(w.iso()), &w, &lms, s, cx)?;
                self.types(&pose, &lms, cx)?;
            }
            "drift" => {
                // A landmark handed back and forth many times stays where it is.
                let (x, y, lm) = (op.u(0) % n, op.u(1) % n, op.u(2) % self.f.lms.len());
                let there = WorldToWorld::from_camera_poses(self.own(x, x % self.f.cams.len()), self.own(y, x % self.f.cams.len()));
                let back = there.inverse();
                let start = self.f.lm_in(x, lm);
                let mut p = WorldPoint::from_homogeneous(start);
                let mut worst: f64 = 1e-3;
                let rounds = 1 + op.u(3);
                for _ in 0..rounds {
                    worst = worst.min(apply_h(&Rt::of_iso(&there.isometry()), &p.homogeneous()).xyz().norm());
                    p = back.transform(there.transform(p));
                }
                cx.log(format!("drift {x} {y} {lm} {rounds}"));
                if worst >= 1e-3 {
                    let far = 1.0 + self.f.scale * 30.0 * start.w;
                    let tol = 1e-12 * rounds as f64 * far * far / worst;
                    let got = p.homogeneous();
                    cx.within("no-drift", ang(&got.xyz(), &start.xyz()), tol, || format!("{rounds} rounds moved {start:?} to {got:?}"))?;
                    cx.within("no-drift", (got.w - start.w).abs() / (start.w + 1e-300), tol * far, || format!("{rounds} rounds moved {start:?} to {got:?}")).or_else(|e| {
                        if start.w == 0.0 && got.w == 0.0 { Ok(()) } else { Err(e) }
                    })?;
                }
            }
            "tangent" => tangent(self.plan, op.u(0), cx)?,
            _ => {}
        }
        Ok(())
    }

    /// Points in their different forms.
    fn types(&self, pose: &Rt, lms: &[V4], cx: &mut Cx) -> Res {
        for h in lms {
            let p = WorldPoint::from_homogeneous(*h);
            let flipped = WorldPoint::from_homogeneous(-*h * 3.0);
            if h.w > 0.0 {
                cx.within("homogeneous-scale-free", (p.homogeneous() - flipped.homogeneous()).norm() / (1.0 + h.w), 1e-14, || format!("{p:?} {flipped:?}"))?;
                let e = h.xyz() / h.w;
                let q = p.point();
                cx.ensure("finite-point", q.is_some(), || format!("{p:?} has no position"))?;
                let q = q.unwrap();
                cx.within("finite-point", (q.coords - e).norm() / e.norm(), 1e-13, || format!("{p:?} is at {q:?}"))?;
                let again = WorldPoint::from_point(q);
                cx.within("point-round-trip", (again.homogeneous() - p.homogeneous()).norm() / (1.0 + h.w), 1e-13, || format!("{p:?} {again:?}"))?;
                // Rescaled with the map, it is seen in the same direction.
                let k = 7.3;
                let far = CameraToWorld(pose.inv().iso());
                let cam = far.inverse();
                let a = cam.transform(p);
                let b = cam.scale(k).transform(WorldPoint::from_point(q * k));
                let raw = pose.apply(&e);
                let tol = 1e-12 * (1.0 + (pose.t.norm() + e.norm()) / raw.norm().max(1e-300));
                cx.within("scale-keeps-bearings", ang(&a.bearing(), &b.bearing()), tol, || format!("{a:?} {b:?}"))?;
                let da = a.homogeneous().w;
                let db = b.homogeneous().w * k;
                cx.within("scale-moves-points", (da - db).abs() / da, tol, || format!("{a:?} {b:?}"))?;
            } else {
                cx.ensure("no-position-at-infinity", p.point().is_none(), || format!("{p:?} is at {:?}", p.point()))?;
                let d = WorldToCamera(pose.iso()).transform(p);
                cx.ensure("infinity-stays-infinite", d.homogeneous().w == 0.0, || format!("{d:?}"))?;
                cx.within("infinity-only-turns", ang(&d.bearing(), &(pose.r * h.xyz())), 1e-13, || format!("{d:?}"))?;
            }
            let b = p.bearing();
            cx.within("bearing", ang(&b, &h.xyz()), 1e-14, || format!("{p:?} {b:?}"))?;
            let c = CameraPoint::from_homogeneous(*h);
            cx.ensure("frames-share-form", c.homogeneous() == p.homogeneous(), || format!("{p:?} {c:?}"))?;
        }
        let id = WorldToCamera::identity();
        cx.ensure("identity", id.homogeneous() == Matrix4::identity(), || format!("{id:?}"))
    }
}

impl Scenario for Merge {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough {
            6_000_000
        } else {
            150_000
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &[
            "Pose and its four implementations: compose, inverse, scale, transform, Jacobians, se(3) form",
            "WorldToWorld::from_camera_poses",
            "Skew3 and Se3TangentSpace",
            "Projective points",
            "serialization of isometries",
        ]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["nodes, network, partitions, crashes, path search over relations (simulator)"]
    }
    fn rule(&self) -> &'static str {
        "one case is one simulated fleet history: exchanges, losses, partitions, crashes and a final anti-entropy round; non-trivial when relations or poses were judged; distinct by the order of deliveries"
    }
    fn floors(&self) -> &'static [(&'static str, f64)] {
        &[("scale", 1.0), ("overlap", 0.0)]
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut plan = Plan::empty();
        plan.world = rng.u64();
        let nodes = rng.range(2, if thorough { 7 } else { 5 });
        plan.set("nodes", nodes as f64);
        plan.set("cams", (nodes + rng.below(4)) as f64);
        plan.set("lms", rng.range(2, 8) as f64);
        plan.set("scale", if rng.chance(0.5) { 1.0 } else { rng.logu(1e-3, 1e3) });
        plan.set("overlap", rng.uni(0.0, 0.6));
        let link = Link::swarm(rng);
        let clean = Link::clean(rng);
        let cuts = rng.chance(0.5);
        let crashes = if rng.chance(0.5) { 0.06 } else { 0.0 };
        let mut t = 0;
        for salt in 0..rng.range(10, if thorough { 120 } else { 50 }) {
            t += rng.range(1, 50_000) as u64;
            let (a, b) = (rng.below(nodes) as f64, rng.below(nodes) as f64);
            if cuts && rng.chance(0.08) {
                let mask = if rng.chance(0.4) { 0 } else { rng.below(1 << nodes) };
                plan.ops.push(Op::new(t, "cut", vec![mask as f64]));
                continue;
            }
            if rng.chance(crashes) {
                plan.ops.push(Op::new(t, "crash", vec![a, rng.range(1, 300_000) as f64]));
                continue;
            }
            let op = match rng.below(12) {
                0..=3 => {
                    let mut v = vec![a, b, rng.below(nodes + 3) as f64, rng.below(6) as f64];
                    v.extend(link.fate(rng));
                    Op::new(t, "cam", v)
                }
                4 | 5 => {
                    let mut v = vec![a, b, rng.below(20) as f64, rng.below(6) as f64];
                    v.extend(link.fate(rng));
                    Op::new(t, "rel", v)
                }
                6..=8 => {
                    let mut v = vec![a, b, rng.below(8) as f64];
                    v.extend(link.fate(rng));
                    Op::new(t, "lm", v)
                }
                9 => Op::new(t, "judge", vec![a, rng.below(8) as f64, salt as f64, rng.below(8) as f64]),
                10 => Op::new(t, "drift", vec![a, b, rng.below(8) as f64, rng.below(100) as f64]),
                _ => Op::new(t, "tangent", vec![salt as f64]),
            };
            plan.ops.push(op);
        }
        // Faults stop; everything is sent again, in any order, and gossip closes the gaps.
        t += 3_000_000;
        plan.ops.push(Op::new(t, "cut", vec![0.0]));
        for n in 0..nodes {
            plan.ops.push(Op::new(t, "up", vec![n as f64]));
        }
        let mut last = vec![];
        for n in 1..nodes {
            for (a, b) in [(n - 1, n), (n, n - 1)] {
                last.push(Op::new(0, "cam", vec![a as f64, b as f64, (n - 1) as f64, rng.below(6) as f64]));
            }
        }
        rng.shuffle(&mut last);
        for mut op in last {
            t += rng.range(1, 1000) as u64;
            op.t = t;
            op.a.extend(clean.fate(rng));
            plan.ops.push(op);
        }
        // As many rounds of gossip as the chain is long.
        for _ in 0..nodes {
            t += 100_000;
            for a in 0..nodes {
                for b in [a.wrapping_sub(1), a + 1] {
                    if b < nodes {
                        let mut v = vec![a as f64, b as f64, rng.below(6) as f64];
                        v.extend(clean.fate(rng));
                        t += 1;
                        plan.ops.push(Op::new(t, "gossip", v));
                    }
                }
            }
        }
        t += 100_000;
        for from in 0..nodes {
            for to in 0..nodes {
                if from != to {
                    let mut v = vec![from as f64, to as f64, rng.below(8) as f64];
                    v.extend(clean.fate(rng));
                    plan.ops.push(Op::new(t, "lm", v));
                }
            }
        }
        plan
    }
    fn run(&self, plan: &Plan, cx: &mut Cx) -> Res {
        let mut sim = Sim {
            plan,
            f: Fleet::new(plan),
            nodes: (0..plan.ku("nodes")).map(|_| Node { up: true, ..Node::default() }).collect(),
            cut: BTreeSet::new(),
            q: Queue::default(),
        };
        for op in &plan.ops {
            sim.q.push(op.t, Ev::Step(op.clone()));
        }
        while let Some((t, ev)) = sim.q.pop() {
            cx.sim_us = t;
            match ev {
                Ev::Step(op) => sim.step(&Op { t, ..op }, cx)?,
                Ev::Deliver { from, to, msg } => sim.deliver(from, to, msg, cx)?,
            }
        }
        // Convergence: every node can place every map, and nothing still waits.
        if sim.complete(plan) {
            for n in 0..sim.nodes.len() {
                for a in 0..sim.nodes.len() {
                    cx.ensure("maps-converge", sim.path(n, a, n).is_some(), || {
                        format!("node {n} cannot place the map of node {a} after faults stopped")
                    })?;
                }
                cx.ensure("nothing-waits", sim.nodes[n].waiting.is_empty(), || {
                    format!("landmarks still wait at node {n}")
                })?;
            }
            cx.probe("converged");
        }
        Ok(())
    }
}

impl Sim<'_> {
    /// Whether the last round of exchanges is still whole, as generated (the minimiser drops steps).
    fn complete(&self, plan: &Plan) -> bool {
        let n = self.nodes.len();
        let Some(heal) = plan.ops.iter().rposition(|o| o.k == "cut") else {
            return false;
        };
        let tail = &plan.ops[heal..];
        let cams = tail.iter().filter(|o| o.k == "cam" && o.a.len() > 4).count();
        let rels = tail.iter().filter(|o| o.k == "gossip" && o.a.len() > 3).count();
        let ups = tail.iter().filter(|o| o.k == "up").count();
        cams == 2 * (n - 1) && rels == n * 2 * (n - 1) && ups == n
    }
}
