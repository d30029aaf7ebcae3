//! C09: a tracking node refines a camera pose against landmarks that mapping nodes send it, in time
//! slices between deliveries, and crashes back to its last saved pose now and then.

use crate::geo::*;
use crate::rng::Rng;
use crate::runner::Scenario;
use crate::sim::*;
use cv_core::{FeatureWorldMatch, Projective, WorldPoint, WorldToCamera};
use cv_optimize::{single_view_simple_optimize_l1, single_view_simple_optimize_l2};
use std::collections::BTreeMap;

pub struct Track;
pub static C09: Track = Track;

const KINDS: [&str; 9] = [
    "exact",
    "noisy-bearing",
    "outlier-bearing",
    "landmark-at-infinity",
    "nan-bearing",
    "nan-landmark",
    "landmark-behind",
    "landmark-at-center",
    "landmark-very-far",
];

#[derive(Clone, Copy, Debug)]
struct Seen {
    kind: usize,
    b: V3,
    h: V4,
}

impl Seen {
    fn of(plan: &Plan, w: &Scene, seq: usize, lm: usize, kind: usize) -> Seen {
        let mut r = plan.entity("seen", seq, lm);
        let p = w.lms[lm % w.lms.len()];
        let mut b = w.truth.apply(&p).normalize();
        let mut h = p.push(1.0);
        match kind {
            1 => {
                let a = r.logu(1e-6, 2e-2);
                b = tilt(&b, a, &mut r);
            }
            2 => b = rand_unit(&mut r),
            3 => h = (w.truth.r.transpose() * b).push(0.0),
            4 => b = V3::repeat(f64::NAN),
            5 => h[r.below(4)] = f64::NAN,
            6 => {
                let c = w.truth.center();
                h = (c - (p - c)).push(1.0);
            }
            7 => h = w.truth.center().push(1.0),
            8 => h = (w.truth.center() + (p - w.truth.center()) * 1e9).push(1.0),
            _ => {}
        }
        Seen { kind, b, h }
    }
    fn arg(&self) -> FeatureWorldMatch {
        FeatureWorldMatch(U3::new_unchecked(self.b), WorldPoint::from_homogeneous(self.h))
    }
    fn has_nan(&self) -> bool {
        // The origin itself has no homogeneous form with unit xyz: it becomes NaN.
        matches!(self.kind, 4 | 5) || self.h.xyz().norm() == 0.0
    }
}

struct Scene {
    truth: Rt,
    start: Rt,
    lms: Vec<V3>,
    scale: f64,
}

impl Scene {
    /// Knobs: `lms`, `scale`, `spread` (how unequal the ranges are), `off` (size of the initial
    /// error), `shift` (distance of the world origin), `grid` (everything in round numbers).
    fn new(plan: &Plan) -> Scene {
        if plan.k("grid") > 0.0 {
            return Scene::grid(plan);
        }
        let scale = plan.k("scale");
        let mut r = plan.entity("scene", 0, 0);
        let rot = rand_rot(&mut r);
        let center = rand_unit(&mut r) * plan.k("shift");
        let truth = Rt { r: rot, t: -(rot * center) * scale };
        // Landmarks around the camera's axis, one beside the other.
        let lms = (0..plan.ku("lms").max(1))
            .map(|j| {
                let mut r = plan.entity("lm", j, 0);
                let d = V3::new(r.uni(-0.8, 0.8), r.uni(-0.8, 0.8), 1.0).normalize();
                let d = if plan.k("omni") > 0.0 { rand_unit(&mut r) } else { d };
                let p = d * (4.0 * r.uni(-1.0, 1.0).mul_add(plan.k("spread"), 1.0));
                truth.inv().apply(&(p * scale))
            })
            .collect();
        let off = plan.k("off");
        let d = Rt {
            r: rodrigues(&rand_unit(&mut r), off * r.uni(0.2, 1.0)),
            t: rand_unit(&mut r) * off * 4.0 * scale * r.uni(0.2, 1.0),
        };
        Scene { truth, start: d.after(&truth), lms, scale }
    }
    /// A rig as one would draw it on paper: quarter turns, landmarks on a lattice around the axis,
    /// and an initial pose that is exact, moved along one axis or turned around one axis.
    fn grid(plan: &Plan) -> Scene {
        let scale = plan.k("scale");
        let mut r = plan.entity("rig", 0, 0);
        let rot = if r.chance(0.3) { M3::identity() } else { quarter_turns(r.below(24)) };
        let mut whole = |n: i64| V3::from_fn(|_, _| (r.below((2 * n + 1) as usize) as i64 - n) as f64);
        let center = if plan.k("shift") > 0.0 { whole(3) } else { V3::zeros() };
        let truth = Rt { r: rot, t: -(rot * center) * scale };
        let lms = (0..plan.ku("lms").max(1))
            .map(|j| {
                let d = V3::new((j % 3) as f64 - 1.0, (j / 3 % 3) as f64 - 1.0, 0.0);
                let d = if plan.k("omni") > 0.0 {
                    // The faces of a cube around the camera.
                    let f = j % 6;
                    let mut v = V3::zeros();
                    v[f % 3] = if f < 3 { 4.0 } else { -4.0 };
                    v[(f + 1) % 3] = (j / 6 % 3) as f64 - 1.0;
                    v
                } else if plan.k("spread") > 0.0 {
                    V3::new(d.x * 2.0, d.y * 2.0, 4.0 + (j / 9) as f64)
                } else {
                    let v = V3::new(d.x * 0.75, d.y * 0.75, 1.0);
                    v * (4.0 / v.norm())
                };
                truth.inv().apply(&(d * scale))
            })
            .collect();
        let off = plan.k("off");
        let mut axis = V3::zeros();
        axis[r.below(3)] = if r.chance(0.5) { 1.0 } else { -1.0 };
        let d = match r.below(3) {
            0 => Rt { r: M3::identity(), t: V3::zeros() },
            1 => Rt { r: M3::identity(), t: axis * off * 4.0 * scale },
            _ => Rt { r: rodrigues(&axis, off), t: V3::zeros() },
        };
        Scene { truth, start: d.after(&truth), lms, scale }
    }
    fn dist(&self, a: &Rt, b: &Rt) -> f64 {
        // The rotation error moves the scene, not the world origin.
        let c = a.center() - b.center();
        rot_diff(&a.r, &b.r).max(c.norm() / (4.0 * self.scale))
    }
}

/// Difference between two results of the same computation, relative to the numbers in it.
fn gap(sc: &Scene, a: &Rt, b: &Rt) -> f64 {
    let size = (4.0 * sc.scale).max(a.t.norm()).max(b.t.norm());
    let d = rot_diff(&a.r, &b.r).max((a.t - b.t).norm() / size);
    let sound = a.t.iter().chain(b.t.iter()).chain(a.r.iter()).chain(b.r.iter()).all(|x| x.is_finite());
    if !sound || d.is_nan() {
        f64::INFINITY
    } else {
        d
    }
}

#[derive(Clone, Copy, Debug)]
struct How {
    l1: bool,
    rate: f64,
    eps: f64,
    iters: usize,
}

fn real(how: How, pose: &Rt, seen: &[Seen]) -> Rt {
    let list: Vec<FeatureWorldMatch> = seen.iter().map(Seen::arg).collect();
    let p = WorldToCamera(pose.iso());
    let out = if how.l1 {
        single_view_simple_optimize_l1(p, how.eps, how.rate, how.iters, &list)
    } else {
        single_view_simple_optimize_l2(p, how.rate, how.iters, &list)
    };
    Rt::of_iso(&out.0)
}

/// Executable reference of the optimizer: also says how small the smallest correction was, because
/// the direction of a vanishing correction is noise.
fn model(how: How, pose: &Rt, seen: &[Seen]) -> (Rt, f64, f64) {
    let mut pose = *pose;
    let mut nearest = f64::INFINITY;
    let mut least = f64::INFINITY;
    let (mut bt, mut br, mut idle) = (f64::INFINITY, f64::INFINITY, 0);
    for _ in 0..how.iters {
        let mut corr = vec![];
        for s in seen.iter().filter(|s| s.h.w != 0.0) {
            let p = pose.apply(&(s.h.xyz() / s.h.w));
            nearest = nearest.min(p.norm());
            corr.push((s.b * s.b.dot(&p) - p, p.normalize().cross(&s.b)));
        }
        if corr.is_empty() {
            break;
        }
        let size = pose.t.norm();
        let (mut st, mut sr, mut wt, mut wr) = (V3::zeros(), V3::zeros(), 0.0, 0.0);
        for (t, r) in &corr {
            least = least.min(r.norm());
            if how.l1 {
                st += t.normalize();
                sr += r.normalize();
                wt += 1.0 / (t.norm() + size * how.eps);
                wr += 1.0 / (r.norm() + how.eps);
            } else {
                st += t;
                sr += r;
                wt = seen.len() as f64;
                wr = wt;
            }
        }
        // A correction that shrinks neither in translation nor in rotation for 50 steps ends it.
        idle += 1;
        if st.norm() < bt {
            bt = st.norm();
            idle = 0;
        }
        if sr.norm() < br {
            br = sr.norm();
            idle = 0;
        }
        if idle >= 50 {
            break;
        }
        let (dt, dr) = (st * how.rate / wt, sr * how.rate / wr);
        let r = if dr.norm() > 0.0 { rodrigues(&dr, dr.norm()) } else { M3::identity() };
        pose = Rt { r: r * pose.r, t: r * (pose.t + dt) };
    }
    (pose, least, nearest)
}

/// How far the summed corrections of a pose are from cancelling in translation and in rotation, each with
/// a size below which it is noise, and the smallest single correction.
fn summed(l1: bool, pose: &Rt, seen: &[Seen]) -> ([(f64, f64); 2], f64) {
    let (mut st, mut sr, mut least) = (V3::zeros(), V3::zeros(), f64::INFINITY);
    let mut size = 0.0;
    for s in seen.iter().filter(|s| s.h.w != 0.0) {
        let p = pose.apply(&(s.h.xyz() / s.h.w));
        let (t, r) = (s.b * s.b.dot(&p) - p, p.normalize().cross(&s.b));
        let far = (s.h.xyz() / s.h.w).norm() + pose.t.norm();
        size += if l1 { 1.0 } else { far };
        least = least.min(r.norm()).min(t.norm() / far);
        // A landmark at the camera's own position has no direction and asks nothing.
        let told = |v: V3| if v.iter().any(|x| x.is_nan()) { V3::zeros() } else { v };
        st += told(if l1 { t.normalize() } else { t });
        sr += told(if l1 { r.normalize() } else { r });
    }
    let n = seen.len() as f64;
    ([(st.norm(), 1e-8 * size), (sr.norm(), 1e-8 * n)], least)
}

enum Ev {
    Seen(usize, Seen),
    Slice(How, usize),
    Checkpoint,
    Crash,
    Calm,
}

struct Node {
    pose: Rt,
    held: BTreeMap<usize, Seen>,
}

/// Checks of one optimization call, whatever the landmarks are.
fn judge(sc: &Scene, how: How, pose: &Rt, list: &[Seen], got: &Rt, salt: usize, plan: &Plan, cx: &mut Cx) -> Res {
    let what = || format!("{how:?} with {} landmarks from {pose:?}", list.len());
    cx.ensure(
        "pose-finite",
        got.r.iter().chain(got.t.iter()).all(|x| x.is_finite()),
        || format!("{} gave {got:?}", what()),
    )?;
    cx.within("pose-rigid", rot_defect(&got.r), 1e-9, || format!("{} gave {got:?}", what()))?;
    let idle = list.is_empty() || how.iters == 0 || list.iter().all(|s| s.kind == 3);
    if idle {
        let same = bits(got.r.iter().chain(got.t.iter())) == bits(pose.r.iter().chain(pose.t.iter()));
        let d = gap(sc, got, pose);
        cx.probe("nothing-to-do");
        return cx.within("pose-unchanged", if same { 0.0 } else { d }, 1e-14, || {
            format!("{} moved the pose", what())
        });
    }
    let nan = list.iter().any(Seen::has_nan);
    // A crash inside the call: what was done before it plus what is done after it is the whole.
    if how.iters >= 2 && how.iters < 50 {
        let cut = 1 + salt % (how.iters - 1);
        let mid = real(How { iters: cut, ..how }, pose, list);
        let end = real(How { iters: how.iters - cut, ..how }, &mid, list);
        cx.probe("resumed-call");
        cx.within("resume-equals-whole", gap(sc, &end, got), 1e-12, || {
            format!("{} cut after {cut} iterations ended at {end:?} instead of {got:?}", what())
        })?;
    }
    // A long call does not give up while its corrections still get clearly smaller.
    if how.iters > 50 && !nan {
        let (mut p, mut best, mut stale, mut stalest, mut least) = (*pose, [f64::INFINITY; 2], 0, 0, f64::INFINITY);
        for _ in 0..how.iters {
            let (sums, l) = summed(how.l1, &p, list);
            least = least.min(l);
            stale += 1;
            for (b, (x, noise)) in best.iter_mut().zip(sums) {
                if x < *b * (1.0 - 1e-6) && x > noise {
                    stale = 0;
                }
                *b = b.min(x);
            }
            stalest = stalest.max(stale);
            p = real(How { iters: 1, ..how }, &p, list);
        }
        if stalest > 40 || how.l1 && !(least > 1e-6) {
            cx.probe("stalled-call");
        } else {
            cx.probe("long-call");
            cx.within("keeps-going", gap(sc, &p, got), 1e-10, || {
                format!("{} ended at {got:?}, its single steps lead to {p:?}", what())
            })?;
        }
    }
    let short = How { iters: how.iters.min(6), ..how };
    let base = real(short, pose, list);
    let (want, least, nearest) = model(short, pose, list);
    // Where every correction is well away from zero the step is a smooth function of its inputs.
    // How much this history amplifies a disturbance far above rounding, of pose and landmarks.
    let mut r = plan.entity("bump", salt, 2);
    let e = 1e-11;
    let bumped = Rt { r: rodrigues(&rand_unit(&mut r), e) * pose.r, t: pose.t + rand_unit(&mut r) * e * pose.t.norm().max(sc.scale) };
    let shaken: Vec<Seen> = list
        .iter()
        .map(|o| Seen { h: (o.h.xyz() + rand_unit(&mut r) * e * o.h.xyz().norm()).push(o.h.w), ..*o })
        .collect();
    // An oscillating history hides the disturbance in every other iteration.
    let amp = (1..=short.iters)
        .map(|iters| {
            let how = How { iters, ..how };
            if nan {
                gap(sc, &real(how, &bumped, &shaken), &real(how, pose, list))
            } else {
                gap(sc, &model(how, &bumped, &shaken).0, &model(how, pose, list).0)
            }
        })
        .fold(0.0, f64::max);
    // The position of a landmark far away is itself rounded.
    let far = list.iter().filter(|s| s.h.w != 0.0).map(|s| (s.h.xyz() / s.h.w).norm()).fold(0.0, f64::max);
    let tol = 1e-10 + 10.0 * amp + 20.0 * f64::EPSILON * far / (4.0 * sc.scale);
    let smooth = (nan || !how.l1 || least > 1e-6) && (nan || nearest > 1e-3 * sc.scale) && tol < 1e-4;
    if nan {
        // The order still must not matter.
    } else if smooth {
        cx.within(if how.l1 { "matches-l1-model" } else { "matches-l2-model" }, gap(sc, &base, &want), tol, || {
            format!("{short:?} from {pose:?} gave {base:?}, the model says {want:?}")
        })?;
        // One rigid motion of the world, or one change of units, changes nothing else.
        let mut r = plan.entity("frame", salt, 0);
        let g = Rt { r: rand_rot(&mut r), t: rand_unit(&mut r) * if how.l1 { 0.0 } else { r.uni(0.0, 5.0) * sc.scale } };
        let s = *r.pick(&[1.0, 1e-3, 0.5, 2.0, 40.0]);
        let moved: Vec<Seen> = list
            .iter()
            .map(|o| Seen { h: (g.apply(&(o.h.xyz() / if o.h.w == 0.0 { 1.0 } else { o.h.w })) - if o.h.w == 0.0 { g.t } else { V3::zeros() }).component_mul(&V3::repeat(s)).push(if o.h.w == 0.0 { 0.0 } else { 1.0 }), ..*o })
            .collect();
        let from = pose.after(&g.inv());
        let from = Rt { r: from.r, t: from.t * s };
        let other = real(short, &from, &moved);
        let back = Rt { r: other.r, t: other.t / s }.after(&g);
        cx.within("frame-independent", gap(sc, &back, &base), tol, || {
            format!("{short:?} in a world moved by {g:?} and scaled by {s} gave {back:?} instead of {base:?}")
        })?;
    }
    if smooth {
        let mut r = plan.entity("order", salt, 1);
        let mut other = list.to_vec();
        r.shuffle(&mut other);
        let p = real(short, pose, &other);
        cx.within("order-independent", gap(sc, &p, &base), tol, || {
            format!("{short:?} with landmarks in another order gave {p:?} instead of {base:?}")
        })?;
        let twice: Vec<Seen> = list.iter().chain(list).copied().collect();
        let p = real(short, pose, &twice);
        cx.within("duplicates-change-nothing", gap(sc, &p, &base), tol, || {
            format!("{short:?} with every landmark delivered twice gave {p:?} instead of {base:?}")
        })?;
    }
    Ok(())
}

impl Scenario for Track {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough {
            3_000_000
        } else {
            100_000
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &["cv-optimize single-view L1 and L2 optimizers", "cv-geom pose gradients", "cv-core tangent space and poses"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["mapping nodes, network, clock, pose store (simulator)"]
    }
    fn rule(&self) -> &'static str {
        "one case is one simulated tracking session: landmarks, corruption, delivery order, slice budgets and crash points come from the seed; non-trivial when optimizations ran and were judged; distinct by the sequence of deliveries and slices"
    }
    fn floors(&self) -> &'static [(&'static str, f64)] {
        &[("scale", 1.0), ("shift", 0.0), ("omni", 0.0), ("grid", 0.0)]
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut plan = Plan::empty();
        plan.world = rng.u64();
        let lms = rng.range(1, if thorough { 60 } else { 30 });
        plan.set("lms", lms as f64);
        plan.set("scale", if rng.chance(0.6) { 1.0 } else { rng.logu(0.02, 500.0) });
        plan.set("spread", *rng.pick(&[0.0, 0.1, 0.3, 0.9]));
        plan.set("off", rng.logu(1e-3, 0.2));
        plan.set("grid", f64::from(u8::from(rng.chance(0.2))));
        plan.set("omni", f64::from(u8::from(rng.chance(0.25))));
        plan.set("shift", if rng.chance(0.4) { 0.0 } else { rng.uni(0.0, 10.0) });
        let link = Link::swarm(rng);
        let bad = if rng.chance(0.35) { 0.0 } else { rng.uni(0.05, 0.7) };
        let kinds: Vec<usize> = (1..KINDS.len()).filter(|_| rng.chance(0.4)).collect();
        let l1 = rng.chance(0.5);
        let mut t = 0;
        let mut seq = 0;
        for _ in 0..rng.range(1, lms + 6) {
            t += rng.range(10, 20_000) as u64;
            let kind = if !kinds.is_empty() && rng.chance(bad) { *rng.pick(&kinds) } else { 0 };
            let mut a = vec![seq as f64, rng.below(lms) as f64, kind as f64];
            seq += 1;
            a.extend(link.fate(rng));
            plan.ops.push(Op::new(t, "seen", a));
            if rng.chance(0.25) {
                let l1 = if rng.chance(0.8) { l1 } else { !l1 };
                let iters = *rng.pick(&[0usize, 1, 1, 2, 3, 7, 20, 49, 50, 51, 120, 400]);
                let rate = if rng.chance(0.3) { 1.0 } else { rng.uni(0.01, 1.0) };
                let eps = *rng.pick(&[1e-12, 1e-9, 1e-6, 1e-4]);
                plan.ops.push(Op::new(
                    t + rng.range(1, 30_000) as u64,
                    "slice",
                    vec![f64::from(u8::from(l1)), rate, eps, iters as f64, rng.below(1000) as f64],
                ));
            }
            if rng.chance(0.08) {
                plan.ops.push(Op::new(t + 3, "ckpt", vec![]));
            }
            if rng.chance(0.06) {
                plan.ops.push(Op::new(t + 5, "crash", vec![]));
            }
        }
        plan.ops.push(Op::new(t + 4_000_000, "calm", vec![rng.uni(0.05, 0.5), *rng.pick(&[1e-12, 1e-9, 1e-6])]));
        plan
    }
    fn run(&self, plan: &Plan, cx: &mut Cx) -> Res {
        let sc = Scene::new(plan);
        let mut q: Queue<Ev> = Queue::default();
        let mut calm = (0.1, 1e-9);
        for op in &plan.ops {
            match op.k.as_str() {
                "seen" => {
                    let s = Seen::of(plan, &sc, op.u(0), op.u(1), op.u(2));
                    let delays = &op.a[3.min(op.a.len())..];
                    note_fate(cx, delays);
                    if s.kind != 0 {
                        cx.fault(KINDS[s.kind]);
                    }
                    for d in delays {
                        q.push(op.t + *d as u64, Ev::Seen(op.u(1), s));
                    }
                }
                "slice" => q.push(
                    op.t,
                    Ev::Slice(How { l1: op.f(0) > 0.0, rate: op.f(1), eps: op.f(2), iters: op.u(3) }, op.u(4)),
                ),
                "ckpt" => q.push(op.t, Ev::Checkpoint),
                "crash" => q.push(op.t, Ev::Crash),
                "calm" => {
                    calm = (op.f(0), op.f(1));
                    q.push(op.t, Ev::Calm);
                }
                _ => {}
            }
        }
        let mut node = Node { pose: sc.start, held: BTreeMap::new() };
        let save = |n: &Node| -> String { serde_json::to_string(&WorldToCamera(n.pose.iso())).unwrap() };
        let mut durable = (save(&node), node.held.clone());
        let mut step = 0;
        while let Some((t, ev)) = q.pop() {
            cx.sim_us = t;
            step += 1;
            match ev {
                Ev::Seen(lm, s) => {
                    cx.sched(lm as u64 * 16 + s.kind as u64);
                    cx.log(format!("seen {lm} {}", KINDS[s.kind]));
                    node.held.insert(lm, s);
                }
                Ev::Slice(how, salt) => {
                    let list: Vec<Seen> = node.held.values().copied().collect();
                    let got = real(how, &node.pose, &list);
                    cx.sched(1 << 20 | how.iters as u64);
                    cx.log(format!("slice {how:?} {} landmarks: {}", list.len(), bits(got.r.iter().chain(got.t.iter()))));
                    judge(&sc, how, &node.pose, &list, &got, salt + step, plan, cx)?;
                    cx.state(&[
                        u64::from(how.l1),
                        how.iters.min(64) as u64,
                        list.len() as u64,
                        list.iter().filter(|s| s.kind != 0).count() as u64,
                        list.iter().fold(0, |m, s| m | 1 << s.kind),
                    ]);
                    node.pose = got;
                }
                Ev::Checkpoint => {
                    durable = (save(&node), node.held.clone());
                    cx.log("checkpoint".into());
                }
                Ev::Crash => {
                    cx.fault("crash");
                    cx.sched(7);
                    let p: WorldToCamera = serde_json::from_str(&durable.0).expect("saved pose");
                    node = Node { pose: Rt::of_iso(&p.0), held: durable.1.clone() };
                    cx.log("crash and restart".into());
                }
                Ev::Calm => settle(&sc, calm, cx)?,
            }
        }
        Ok(())
    }
}

/// Faults have stopped and every landmark is held exactly.
fn settle(sc: &Scene, (rate, eps): (f64, f64), cx: &mut Cx) -> Res {
    let all: Vec<Seen> = sc
        .lms
        .iter()
        .map(|p| Seen { kind: 0, b: sc.truth.apply(p).normalize(), h: p.push(1.0) })
        .collect();
    for l1 in [false, true] {
        let stay = How { l1, rate, eps, iters: 12 };
        let got = real(stay, &sc.truth, &all);
        let d = sc.dist(&got, &sc.truth);
        // An L1 step is a unit direction times at most the threshold.
        let slack = 1e-8 + if l1 { 4.0 * eps * 12.0 * rate * (1.0 + sc.truth.t.norm() / sc.scale) } else { 0.0 };
        cx.within(if l1 { "exact-pose-stays-l1" } else { "exact-pose-stays-l2" }, d, slack, || {
            format!("{stay:?} moved the exact pose by {d:e}")
        })?;
        // Enough landmarks, all directions constrained and ranges comparable.
        let spread: f64 = {
            let mut m = M3::zeros();
            for s in &all {
                let c = V3::from(s.b);
                m += M3::identity() - c * c.transpose();
            }
            let e = (m / all.len() as f64).symmetric_eigenvalues();
            e.iter().fold(f64::INFINITY, |a, b| a.min(*b))
        };
        let ranges: Vec<f64> = sc.lms.iter().map(|p| sc.truth.apply(p).norm()).collect();
        let (lo, hi) = ranges.iter().fold((f64::INFINITY, 0.0_f64), |(a, b), r| (a.min(*r), b.max(*r)));
        let e0 = sc.dist(&sc.start, &sc.truth);
        if all.len() < 6 || spread < 0.15 || hi / lo > 1.3 || e0 < 1e-3 {
            continue;
        }
        let how = How { l1, rate, eps, iters: 3000 };
        let end = real(how, &sc.start, &all);
        let e1 = sc.dist(&end, &sc.truth);
        cx.log(format!("settled {how:?} {e0:e} -> {e1:e}"));
        cx.probe("settled");
        cx.within(if l1 { "ends-closer-l1" } else { "ends-closer-l2" }, e1 / e0, if l1 { 1.1 } else { 1.0 }, || {
            format!("{how:?} with exact landmarks went from error {e0:e} to {e1:e}")
        })?;
    }
    Ok(())
}
