//! C10: a mapping node refines the poses of two cameras relative to a third from three-way matches
//! that arrive over the network, in time slices, and crashes back to its last saved poses.

use crate::geo::*;
use crate::rng::Rng;
use crate::runner::Scenario;
use crate::sim::*;
use cv_core::CameraToCamera;
use cv_geom::epipolar::three_view_gradients;
use cv_optimize::{
    three_view_adaptive_optimize_l2, three_view_simple_optimize_l1, three_view_simple_optimize_l2,
};
use std::collections::BTreeMap;

pub struct Trio;
pub static C10: Trio = Trio;

const KINDS: [&str; 9] = [
    "exact",
    "noisy-bearings",
    "outlier-bearing",
    "match-at-infinity",
    "nan-bearing",
    "match-on-baseline",
    "mirrored-bearing",
    "swapped-cameras",
    "repeated-match",
];
const METHODS: [&str; 3] = ["l1", "l2", "adaptive-l2"];

type Two = [Rt; 2];
type Match = [V3; 3];

struct Scene {
    truth: Two,
    start: Two,
    pts: Vec<V3>,
    scale: f64,
}

impl Scene {
    /// Knobs: `lms`, `scale`, `off`, `motion` (0 general, 1 forward, 2 pure rotation of the first
    /// camera, 3 both cameras at the same place), `grid` (a rig of parallel or squared cameras).
    fn new(plan: &Plan) -> Scene {
        let scale = plan.k("scale");
        let mut r = plan.entity("scene", 0, 0);
        let mut cam = || {
            let angle = r.uni(0.0, 0.5);
            let rot = rodrigues(&rand_unit(&mut r), angle);
            let c = match plan.ku("motion") {
                1 => V3::new(0.02 * r.normal(), 0.02 * r.normal(), r.uni(0.2, 1.0)),
                _ => rand_unit(&mut r) * r.uni(0.3, 1.2),
            };
            Rt { r: rot, t: -(rot * c) * scale }
        };
        let mut truth = [cam(), cam()];
        let grid = plan.k("grid") > 0.0;
        if grid {
            let mut r = plan.entity("rig", 0, 0);
            let turn = |r: &mut Rng| match r.below(3) {
                0 => quarter_turns(r.below(24)),
                _ => M3::identity(),
            };
            let (ra, rb) = (turn(&mut r), turn(&mut r));
            let mut axis = V3::zeros();
            axis[r.below(3)] = if r.chance(0.5) { 1.0 } else { -1.0 };
            let other = if r.chance(0.5) { axis * 2.0 } else { -axis };
            truth = [Rt { r: ra, t: -(ra * axis) * scale }, Rt { r: rb, t: -(rb * other) * scale }];
        }
        match plan.ku("motion") {
            2 => truth[0].t = V3::zeros(),
            3 => truth[1].t = truth[1].r * (truth[0].r.transpose() * truth[0].t),
            _ => {}
        }
        let pts = (0..plan.ku("lms").max(1))
            .map(|j| {
                let mut r = plan.entity("lm", j, 0);
                if grid {
                    return V3::new((j % 5) as f64 - 2.0, (j / 5 % 5) as f64 - 2.0, 4.0 + (j % 2) as f64) * scale;
                }
                V3::new(r.uni(-2.0, 2.0), r.uni(-2.0, 2.0), r.uni(2.5, 7.0)) * scale
            })
            .collect();
        let off = plan.k("off");
        let start = truth.map(|p| {
            let (a, b) = (off * r.uni(0.2, 1.0), off * r.uni(0.2, 1.0));
            let d = Rt { r: rodrigues(&rand_unit(&mut r), a), t: rand_unit(&mut r) * b * scale };
            if grid && plan.ku("motion") < 2 && plan.world % 3 == 0 {
                return p;
            }
            d.after(&p)
        });
        Scene { truth, start, pts, scale }
    }
    /// Whether some pair of cameras sees some point with next to no parallax, or along its baseline.
    fn degenerate(&self) -> bool {
        let inv = self.truth.map(|p| p.inv());
        let c = [V3::zeros(), inv[0].t, inv[1].t];
        self.pts.iter().any(|p| {
            [(0, 1), (0, 2), (1, 2)].iter().any(|&(i, j)| {
                let (a, b, t) = (p - c[i], p - c[j], c[i] - c[j]);
                let off = |v: &V3| v.cross(&t).norm() / (v.norm() * t.norm());
                !(a.cross(&b).norm() / (a.norm() * b.norm()) > 1e-3 && off(&a) > 1e-2 && off(&b) > 1e-2)
            })
        })
    }
    fn exact(&self, p: &V3) -> Match {
        [p.normalize(), self.truth[0].apply(p).normalize(), self.truth[1].apply(p).normalize()]
    }
    fn gap(&self, a: &Two, b: &Two) -> f64 {
        let size = a.iter().chain(b).map(|p| p.t.norm()).fold(self.scale, f64::max);
        let d = (0..2)
            .map(|i| rot_diff(&a[i].r, &b[i].r).max((a[i].t - b[i].t).norm() / size))
            .fold(0.0, |m, x| if x.is_nan() { f64::INFINITY } else { f64::max(m, x) });
        d
    }
    fn matched(&self, plan: &Plan, seq: usize, lm: usize, kind: usize) -> Match {
        let mut r = plan.entity("match", seq, lm);
        let p = self.pts[lm % self.pts.len()];
        let mut m = self.exact(&p);
        match kind {
            1 => {
                let s = r.logu(1e-6, 1e-2);
                for b in &mut m {
                    *b = tilt(b, s * r.normal(), &mut r);
                }
            }
            2 => m[r.below(3)] = rand_unit(&mut r),
            3 => {
                let d = p.normalize();
                m = [d, self.truth[0].r * d, self.truth[1].r * d];
            }
            4 => {
                let i = r.below(3);
                m[i] = if r.chance(0.5) { V3::repeat(f64::NAN) } else { V3::new(0.0, f64::NAN, 1.0) };
            }
            5 => {
                // In line with the centre camera and the first one.
                let c = self.truth[0].center();
                if c.norm() > 0.0 {
                    m = self.exact(&(c * r.uni(2.0, 5.0)));
                    m[0] = c.normalize();
                    m[1] = self.truth[0].r * c.normalize();
                }
            }
            6 => {
                let i = r.below(3);
                m[i] = -m[i];
            }
            7 => m.swap(1, 2),
            _ => {}
        }
        m
    }
}

#[derive(Clone, Copy, Debug)]
struct How {
    method: usize,
    rate: f64,
    eps: f64,
    iters: usize,
}

fn real(how: How, poses: &Two, list: &[Match]) -> Two {
    let list: Vec<[U3; 3]> = list.iter().map(|m| m.map(U3::new_unchecked)).collect();
    let p = poses.map(|p| CameraToCamera(p.iso()));
    let out = match how.method {
        0 => three_view_simple_optimize_l1(p, how.eps, how.rate, how.iters, &list),
        1 => three_view_simple_optimize_l2(p, how.rate, how.iters, &list),
        _ => three_view_adaptive_optimize_l2(p, how.iters, &list),
    };
    out.map(|p| Rt::of_iso(&p.0))
}

/// Mean angle by which the matches miss the epipolar geometry of the three pairs of cameras.
fn misfit(poses: &Two, list: &[Match]) -> f64 {
    let inv = poses.map(|p| p.inv());
    let centers = [V3::zeros(), inv[0].t, inv[1].t];
    let mut sum = 0.0;
    for m in list {
        let d = [m[0], inv[0].r * m[1], inv[1].r * m[2]];
        for (i, j) in [(0, 1), (0, 2), (1, 2)] {
            let t = (centers[j] - centers[i]).normalize();
            let (ni, nj) = (d[i].cross(&t), d[j].cross(&t));
            sum += ang(&ni, &nj);
        }
    }
    sum / (3 * list.len()) as f64
}

/// What one match asks of the two poses, each taken from its camera to the centre one: a translation
/// and a rotation per pose. The rotation turns the bearings of each pair of cameras into one epipolar
/// plane; what a pair asks of the centre camera, which stays, is left out, and what the outer pair asks
/// is shared. What cannot be told asks nothing. The translation is the library's own.
fn asked(poses: &Two, m: &Match) -> [(V3, V3); 2] {
    let at = [V3::zeros(), poses[0].t, poses[1].t];
    let d = [m[0], poses[0].r * m[1], poses[1].r * m[2]];
    let u = d.map(U3::new_unchecked);
    let own = three_view_gradients(u[0], u[1], at[1], u[2], at[2]);
    let turn = |i: usize, j: usize| {
        let t = at[j] - at[i];
        d[j].cross(&t).normalize().cross(&d[i].cross(&t).normalize())
    };
    let told = |v: V3| if v.iter().any(|x| x.is_nan()) { V3::zeros() } else { v };
    let both = turn(1, 2);
    [
        (own[0].translation, told((turn(0, 1) * 2.0 - both) / 3.0)),
        (own[1].translation, told((turn(0, 2) * 2.0 + both) / 3.0)),
    ]
}

/// The reference for a whole call that nothing stops early, for how long at most no summed
/// correction got clearly smaller than it had been.
fn reference(how: How, poses: &Two, list: &[Match]) -> (Two, usize) {
    let mut poses = poses.map(|p| p.inv());
    let n = list.len() as f64;
    let (mut best, mut stale, mut stalest) = ([f64::INFINITY; 4], 0, 0);
    for _ in 0..how.iters {
        let all: Vec<_> = list.iter().map(|m| asked(&poses, m)).collect();
        let tscale = poses[0].t.norm() + poses[1].t.norm();
        let mut next = poses;
        stale += 1;
        for i in 0..2 {
            let part = |rot: bool, eps: f64| -> (V3, f64) {
                let g: Vec<V3> = all.iter().map(|a| if rot { a[i].1 } else { a[i].0 }).collect();
                let sum: V3 = g.iter().sum();
                match how.method {
                    0 => {
                        let unit: V3 = g.iter().map(|v| v.try_normalize(0.0).unwrap_or(V3::zeros())).sum();
                        let w: f64 = g.iter().map(|v| 1.0 / (v.norm() + eps)).sum();
                        (unit * (how.rate / w), unit.norm())
                    }
                    1 => (sum * (how.rate / n), sum.norm()),
                    _ => {
                        let spread: f64 = g.iter().map(|v| v.norm()).sum();
                        let rate = if spread > 0.0 { sum.norm() / spread } else { 0.0 };
                        (sum * (rate / n), sum.norm())
                    }
                }
            };
            let ((t, nt), (w, nw)) = (part(false, tscale * how.eps), part(true, how.eps));
            // The direction of a vanishing correction is noise.
            let tiny = |v: f64, least: f64| v > 0.0 && v < least;
            if how.method == 0 && all.iter().any(|a| tiny(a[i].0.norm(), 1e-7 * tscale) || tiny(a[i].1.norm(), 1e-7)) {
                stalest = usize::MAX;
            }
            let units = if how.method == 0 { [n, n] } else { [n * tscale, n] };
            for ((b, x), unit) in best[2 * i..].iter_mut().zip([nt, nw]).zip(units) {
                if x < *b * (1.0 - 1e-6) && x > 1e-8 * unit {
                    stale = 0;
                }
                *b = b.min(x);
            }
            let r = if w.norm() > 0.0 { rodrigues(&w.normalize(), w.norm()) } else { M3::identity() };
            next[i] = Rt { r, t: r * t }.after(&poses[i]);
        }
        stalest = stalest.max(stale);
        poses = next;
    }
    (poses.map(|p| p.inv()), stalest)
}

fn bits_of(p: &Two) -> String {
    bits(p.iter().flat_map(|p| p.r.iter().chain(p.t.iter())))
}

fn judge(sc: &Scene, how: How, poses: &Two, list: &[Match], got: &Two, salt: usize, plan: &Plan, cx: &mut Cx) -> Res {
    let name = METHODS[how.method];
    let what = || format!("{name} {how:?} with {} matches from {poses:?}", list.len());
    cx.ensure(
        "poses-finite",
        got.iter().all(|p| p.r.iter().chain(p.t.iter()).all(|x| x.is_finite())),
        || format!("{} gave {got:?}", what()),
    )?;
    for p in got {
        cx.within("poses-rigid", rot_defect(&p.r), 1e-9, || format!("{} gave {got:?}", what()))?;
    }
    if list.is_empty() || how.iters == 0 {
        cx.probe("nothing-to-do");
        return cx.within("poses-unchanged", sc.gap(got, poses), 1e-11, || format!("{} moved the poses", what()));
    }
    // On a lattice, contradictory matches sit exactly on the boundary between two cases.
    let grid = plan.k("grid") > 0.0;
    if grid && !list.iter().all(|m| sc.pts.iter().any(|p| sc.exact(p) == *m)) {
        cx.probe("contradictory-on-lattice");
        return Ok(());
    }
    let mut r = plan.entity("judge", salt, 0);
    let short = How { iters: how.iters.min(if salt % 4 == 0 { 40 } else { 5 }), ..how };
    let base = real(short, poses, list);
    // How much this history amplifies a disturbance far above rounding.
    let e = 1e-9;
    let bump = |r: &mut Rng| -> Two {
        poses.map(|p| Rt {
            r: rodrigues(&rand_unit(r), e) * p.r,
            t: p.t + rand_unit(r) * e * p.t.norm(),
        })
    };
    let shake = |r: &mut Rng| -> Vec<Match> { list.iter().map(|m| m.map(|b| tilt(&b, e, r))).collect() };
    let nan = list.iter().flatten().any(|b| b.iter().any(|x| x.is_nan()));
    let floor = 1e-9 + if how.method == 0 { 20.0 * short.iters as f64 * how.eps } else { 0.0 };
    let mut amp = 0.0_f64;
    // An oscillating history hides the disturbance in every other iteration.
    let before = How { iters: short.iters - 1, ..short };
    let base_before = real(before, poses, list);
    for _ in 0..if grid { 12 } else { 3 } {
        let b = bump(&mut r);
        let l = if nan { list.to_vec() } else { shake(&mut r) };
        amp = amp.max(sc.gap(&real(short, &b, &l), &base));
        amp = amp.max(sc.gap(&real(before, &b, &l), &base_before));
    }
    let tol = floor + 20.0 * amp;
    let size = |p: &Two| p[0].t.norm().max(p[1].t.norm());
    if tol > 1e-3 || size(&base).max(size(poses)) > 100.0 * sc.scale {
        cx.probe("too-sensitive-to-compare");
        return Ok(());
    }
    // One step, and the whole of a long call that keeps improving, against the reference.
    let long = how.method < 2 && how.iters > 50 && salt % 2 == 0;
    for (name, iters) in [("one-step", 1), ("long-call", how.iters)] {
        if iters > 1 && !long {
            continue;
        }
        let h = How { iters, ..how };
        let (got, (want, stalest)) = (real(h, poses, list), reference(h, poses, list));
        if iters > 1 && stalest > 40 {
            cx.probe("stalled-call");
            continue;
        }
        let mut amp = 0.0_f64;
        for _ in 0..if grid { 8 } else { 4 } {
            let b = bump(&mut r);
            let l = if nan { list.to_vec() } else { shake(&mut r) };
            amp = amp.max(sc.gap(&real(h, &b, &l), &got)).max(sc.gap(&reference(h, &b, &l).0, &want));
        }
        let tol = 1e-9 + 20.0 * amp + if how.method == 0 { 20.0 * iters as f64 * how.eps } else { 0.0 };
        // A long call that amplifies much is chaotic.
        if tol > 1e-3 || iters > 1 && amp > 1e-6 || size(&got).max(size(&want)) > 100.0 * sc.scale {
            cx.probe("too-sensitive-to-step");
            continue;
        }
        cx.probe(name);
        cx.within(if iters == 1 { "step-is-mean" } else { "keeps-going" }, sc.gap(&got, &want), tol, || {
            format!("{name} of {} went to {got:?} instead of {want:?}", what())
        })?;
    }
    // A crash inside the call: what was done before it plus what is done after it is the whole.
    if short.iters >= 2 {
        let cut = 1 + salt % (short.iters - 1);
        let mid = real(How { iters: cut, ..short }, poses, list);
        let end = real(How { iters: short.iters - cut, ..short }, &mid, list);
        cx.probe("resumed-call");
        cx.within("resume-equals-whole", sc.gap(&end, &base), tol, || {
            format!("{} cut after {cut} iterations ended at {end:?} instead of {base:?}", what())
        })?;
    }
    let mut other = list.to_vec();
    r.shuffle(&mut other);
    let p = real(short, poses, &other);
    cx.within("order-independent", sc.gap(&p, &base), tol, || {
        format!("{} in another order gave {p:?} instead of {base:?}", what())
    })?;
    let twice: Vec<Match> = list.iter().chain(list).copied().collect();
    let p = real(short, poses, &twice);
    cx.within("duplicates-change-nothing", sc.gap(&p, &base), tol, || {
        format!("{} with every match delivered twice gave {p:?} instead of {base:?}", what())
    })?;
    // The two outer cameras play the same part in a correction of the rotations.
    let swapped: Vec<Match> = list.iter().map(|m| [m[0], m[2], m[1]]).collect();
    let one = How { iters: 1, ..how };
    let (p, q) = (real(one, &[poses[1], poses[0]], &swapped), real(one, poses, list));
    let d = rot_diff(&p[0].r, &q[1].r).max(rot_diff(&p[1].r, &q[0].r));
    cx.within("cameras-interchangeable", d, tol, || {
        format!("{} with the outer cameras swapped gave {p:?} instead of {q:?}", what())
    })?;
    // Neither does it matter how each camera's frame is turned, nor the unit of length.
    let g = [rand_rot(&mut r), rand_rot(&mut r), rand_rot(&mut r)];
    let s = *r.pick(&[1.0, 1e-3, 0.5, 2.0, 40.0]);
    let turn = |p: &Two, s: f64| -> Two {
        [0, 1].map(|i| Rt { r: g[i + 1] * p[i].r * g[0].transpose(), t: g[i + 1] * p[i].t * s })
    };
    let turned: Vec<Match> = list.iter().map(|m| [g[0] * m[0], g[1] * m[1], g[2] * m[2]]).collect();
    if !nan {
        let p = real(short, &turn(poses, s), &turned);
        let want = turn(&base, s);
        let small = Scene { truth: sc.truth, start: sc.start, pts: vec![], scale: sc.scale * s };
        cx.within("frame-independent", small.gap(&p, &want), tol, || {
            format!("{} with turned frames and unit {s} gave {p:?} instead of {want:?}", what())
        })?;
    }
    Ok(())
}

enum Ev {
    Match(usize, usize, Match),
    Slice(How, usize),
    Checkpoint,
    Crash,
    Calm,
}

impl Scenario for Trio {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough {
            1_000_000
        } else {
            30_000
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &["cv-optimize three-view L1, L2 and adaptive optimizers", "cv-geom three-view gradients", "cv-core tangent space and poses"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["matching nodes, network, clock, pose store (simulator)"]
    }
    fn rule(&self) -> &'static str {
        "one case is one simulated mapping session: matches, corruption, delivery order, slice budgets and crash points come from the seed; non-trivial when optimizations ran and were judged; distinct by the sequence of deliveries and slices"
    }
    fn floors(&self) -> &'static [(&'static str, f64)] {
        &[("scale", 1.0), ("motion", 0.0), ("fleet", 0.0), ("grid", 0.0)]
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut plan = Plan::empty();
        plan.world = rng.u64();
        let lms = rng.range(1, if thorough { 50 } else { 24 });
        plan.set("lms", lms as f64);
        plan.set("scale", if rng.chance(0.6) { 1.0 } else { rng.logu(0.02, 500.0) });
        plan.set("off", if rng.chance(0.5) { rng.logu(1e-4, 0.03) } else { rng.uni(0.03, 0.5) });
        plan.set("motion", if rng.chance(0.6) { 0.0 } else { rng.range(1, 3) as f64 });
        plan.set("grid", f64::from(u8::from(rng.chance(0.2))));
        plan.set("fleet", f64::from(u8::from(rng.chance(0.05))));
        let link = Link::swarm(rng);
        let bad = if rng.chance(0.35) { 0.0 } else { rng.uni(0.05, 0.7) };
        let kinds: Vec<usize> = (1..KINDS.len()).filter(|_| rng.chance(0.4)).collect();
        let method = rng.below(3);
        let (mut t, mut seq) = (0, 0);
        for _ in 0..rng.range(1, lms + 6) {
            t += rng.range(10, 20_000) as u64;
            let kind = if !kinds.is_empty() && rng.chance(bad) { *rng.pick(&kinds) } else { 0 };
            let mut a = vec![seq as f64, rng.below(lms) as f64, kind as f64];
            seq += 1;
            a.extend(link.fate(rng));
            plan.ops.push(Op::new(t, "match", a));
            if rng.chance(0.25) {
                let method = if rng.chance(0.7) { method } else { rng.below(3) };
                let iters = *rng.pick(&[0usize, 1, 1, 2, 3, 7, 20, 49, 50, 51, 120]);
                let rate = if rng.chance(0.3) { 1.0 } else { rng.uni(0.01, 1.0) };
                let eps = *rng.pick(&[1e-12, 1e-9, 1e-6]);
                plan.ops.push(Op::new(
                    t + rng.range(1, 30_000) as u64,
                    "slice",
                    vec![method as f64, rate, eps, iters as f64, rng.below(1000) as f64],
                ));
            }
            if rng.chance(0.08) {
                plan.ops.push(Op::new(t + 3, "ckpt", vec![]));
            }
            if rng.chance(0.06) {
                plan.ops.push(Op::new(t + 5, "crash", vec![]));
            }
        }
        plan.ops.push(Op::new(t + 4_000_000, "calm", vec![rng.uni(0.1, 1.0), *rng.pick(&[1e-12, 1e-9])]));
        plan
    }
    fn run(&self, plan: &Plan, cx: &mut Cx) -> Res {
        let sc = Scene::new(plan);
        let mut q: Queue<Ev> = Queue::default();
        let mut calm = (0.5, 1e-9);
        for op in &plan.ops {
            match op.k.as_str() {
                "match" => {
                    let kind = op.u(2).min(KINDS.len() - 1);
                    let m = sc.matched(plan, op.u(0), op.u(1), kind);
                    let delays = &op.a[3.min(op.a.len())..];
                    note_fate(cx, delays);
                    if kind != 0 {
                        cx.fault(KINDS[kind]);
                    }
                    for d in delays {
                        // A repeated match is held twice; any other replaces what was held.
                        let slot = if kind == 8 { 30_000 + op.u(0) } else { op.u(1) };
                        q.push(op.t + *d as u64, Ev::Match(slot, kind, m));
                    }
                }
                "slice" => q.push(
                    op.t,
                    Ev::Slice(How { method: op.u(0).min(2), rate: op.f(1), eps: op.f(2), iters: op.u(3) }, op.u(4)),
                ),
                "ckpt" => q.push(op.t, Ev::Checkpoint),
                "crash" => q.push(op.t, Ev::Crash),
                "calm" => {
                    calm = (op.f(0), op.f(1));
                    q.push(op.t, Ev::Calm);
                }
                _ => {}
            }
        }
        let mut poses = sc.start;
        let mut held: BTreeMap<usize, (usize, Match)> = BTreeMap::new();
        let save = |p: &Two| serde_json::to_string(&p.map(|p| CameraToCamera(p.iso()))).unwrap();
        let mut durable = (save(&poses), held.clone());
        let mut step = 0;
        while let Some((t, ev)) = q.pop() {
            cx.sim_us = t;
            step += 1;
            match ev {
                Ev::Match(slot, kind, m) => {
                    cx.sched(slot as u64 * 16 + kind as u64);
                    cx.log(format!("match {slot} {}", KINDS[kind]));
                    held.insert(slot, (kind, m));
                }
                Ev::Slice(how, salt) => {
                    let list: Vec<Match> = held.values().map(|x| x.1).collect();
                    let got = real(how, &poses, &list);
                    cx.sched(1 << 20 | (how.iters * 4 + how.method) as u64);
                    cx.log(format!("slice {how:?} {} matches: {}", list.len(), bits_of(&got)));
                    judge(&sc, how, &poses, &list, &got, salt + step, plan, cx)?;
                    cx.state(&[
                        how.method as u64,
                        how.iters.min(64) as u64,
                        list.len() as u64,
                        held.values().fold(0, |m, s| m | 1 << s.0),
                        plan.ku("motion") as u64,
                    ]);
                    poses = got;
                }
                Ev::Checkpoint => {
                    durable = (save(&poses), held.clone());
                    cx.log("checkpoint".into());
                }
                Ev::Crash => {
                    cx.fault("crash");
                    cx.sched(7);
                    let p: [CameraToCamera; 2] = serde_json::from_str(&durable.0).expect("saved poses");
                    poses = p.map(|p| Rt::of_iso(&p.0));
                    held = durable.1.clone();
                    cx.log("crash and restart".into());
                }
                Ev::Calm => settle(&sc, plan, calm, cx)?,
            }
        }
        Ok(())
    }
}

/// Faults have stopped and every match is held exactly.
fn settle(sc: &Scene, plan: &Plan, (rate, eps): (f64, f64), cx: &mut Cx) -> Res {
    let all: Vec<Match> = sc.pts.iter().map(|p| sc.exact(p)).collect();
    for method in 0..3 {
        let stay = How { method, rate, eps, iters: 5 };
        let got = real(stay, &sc.truth, &all);
        let d = sc.gap(&got, &sc.truth);
        let slack = 1e-7 + if method == 0 { 4.0 * eps * 5.0 } else { 0.0 };
        let degenerate = sc.degenerate();
        cx.within("exact-poses-stay", if degenerate { 0.0 } else { d }, slack, || {
            format!("{} {stay:?} moved the exact poses by {d:e}", METHODS[method])
        })?;
    }
    if plan.k("fleet") > 0.0 {
        fleet(plan, rate, eps, cx)?;
    }
    Ok(())
}

/// Slightly wrong poses fit exact matches better after optimization. A single trio may end in
/// another minimum, so this is judged over the median of a fleet of independent trios.
fn fleet(plan: &Plan, rate: f64, eps: f64, cx: &mut Cx) -> Res {
    const NAMES: [&str; 3] = ["fits-better-l1", "fits-better-l2", "fits-better-adaptive"];
    let mut ratios = [vec![], vec![], vec![]];
    let mut i = 0;
    while ratios[0].len() < 21 {
        i += 1;
        let mut sub = plan.clone();
        sub.world = plan.entity("fleet", i, 0).u64();
        for (k, v) in [("lms", 10.0), ("off", 0.02), ("motion", 0.0), ("grid", 0.0)] {
            sub.set(k, v);
        }
        let sc = Scene::new(&sub);
        if sc.degenerate() {
            continue;
        }
        let all: Vec<Match> = sc.pts.iter().map(|p| sc.exact(p)).collect();
        for (method, out) in ratios.iter_mut().enumerate() {
            let how = How { method, rate: 0.5 * rate, eps, iters: 250 };
            out.push(misfit(&real(how, &sc.start, &all), &all) / misfit(&sc.start, &all));
        }
    }
    for (name, r) in NAMES.iter().zip(&mut ratios) {
        r.sort_by(f64::total_cmp);
        let median = r[r.len() / 2];
        cx.log(format!("{name}: median {median:e}"));
        cx.probe("fleet-settled");
        cx.within(name, median, 1.0, || format!("misfit ratios of {} trios: {r:?}", r.len()))?;
    }
    Ok(())
}
