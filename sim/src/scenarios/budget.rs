//! C04: a scheduler under deadlines gives solver jobs whatever iteration budget is left, retries the
//! ones that gave no answer with more, and loses uncheckpointed answers when it crashes.

use crate::geo::*;
use crate::rng::Rng;
use crate::runner::Scenario;
use crate::sim::*;
use cv_core::nalgebra::Matrix3;
use cv_core::sample_consensus::Estimator;
use cv_core::{
    CameraToCamera, FeatureMatch, FeatureWorldMatch, Projective, TriangulatorObservations,
    TriangulatorRelative, WorldPoint, WorldToCamera,
};
use cv_geom::triangulation::{LinearEigenTriangulator, RelativeDltTriangulator};
use cv_pinhole::EssentialMatrix;
use eight_point::EightPoint;
use lambda_twist::LambdaTwist;
use nister_stewenius::NisterStewenius;

pub struct Budget;
pub static C04: Budget = Budget;

const KINDS: [&str; 9] = [
    "linear-triangulation",
    "relative-triangulation",
    "eight-point-matrix",
    "eight-point-poses",
    "essential-poses",
    "essential-bearings",
    "essential-recondition",
    "five-point-poses",
    "three-point-poses",
];
const QUALITY: [&str; 4] = ["exact", "noisy", "arbitrary", "nan"];
const AMPLE: usize = 100_000;

/// What a job works on.
struct Job {
    kind: usize,
    quality: usize,
    rel: Rt,
    cams: Vec<Rt>,
    pts: Vec<V3>,
    /// Bearings of the points in the identity camera and in `rel`.
    a: Vec<V3>,
    b: Vec<V3>,
    essential: M3,
    /// Whether the exact problem determines its answer well.
    well_posed: bool,
}

fn jitter(v: &V3, quality: usize, r: &mut Rng) -> V3 {
    match quality {
        1 => {
            let s = r.logu(1e-6, 3e-2) * r.normal();
            tilt(v, s, r)
        }
        2 => rand_unit(r),
        _ => *v,
    }
}

impl Job {
    fn new(plan: &Plan, id: usize, kind: usize, quality: usize) -> Job {
        let mut r = plan.entity("job", id, kind * 8 + quality);
        let angle = match r.below(3) {
            0 => r.uni(0.0, 0.5),
            1 => r.uni(0.0, 3.14),
            _ => r.logu(1e-5, 0.1),
        };
        let scale = plan.k("scale");
        let rel = {
            let m = rodrigues(&rand_unit(&mut r), angle);
            let base = r.logu(0.1, 2.0);
            let pivot = V3::new(0.0, 0.0, 4.0);
            let t = if angle > 0.5 { pivot - m * pivot } else { V3::zeros() };
            Rt { r: m, t: (t + rand_unit(&mut r) * base) * scale }
        };
        let pts: Vec<V3> = (0..8)
            .map(|_| V3::new(r.uni(-1.5, 1.5), r.uni(-1.5, 1.5), r.uni(2.5, 6.0)) * scale)
            .collect();
        let mut cams = vec![Rt::identity(), rel];
        for _ in 0..r.below(4) {
            let c = rand_unit(&mut r) * r.uni(0.2, 2.0);
            let roll = r.uni(0.0, 6.0);
            let mut cam = look_at(&c, &V3::new(0.0, 0.0, 4.0), roll, &mut r);
            cam.t *= scale;
            cams.push(cam);
        }
        let mut a: Vec<V3> = pts.iter().map(|p| jitter(&p.normalize(), quality, &mut r)).collect();
        let mut b: Vec<V3> = pts
            .iter()
            .map(|p| jitter(&rel.apply(p).normalize(), quality, &mut r))
            .collect();
        let mut essential = rel.t.cross_matrix() * rel.r;
        match quality {
            1 => {
                let s = r.logu(1e-9, 1e-1) * essential.norm();
                essential += M3::from_fn(|_, _| s * r.normal());
            }
            2 => {
                essential = M3::from_fn(|_, _| r.uni(-1.0, 1.0));
                match r.below(4) {
                    0 => essential = rand_unit(&mut r) * rand_unit(&mut r).transpose(),
                    1 => essential = M3::zeros(),
                    _ => {}
                }
            }
            3 => {
                let i = r.below(9);
                essential[i] = f64::NAN;
                a[r.below(3)] = V3::repeat(f64::NAN);
                b[0] = V3::new(0.0, f64::NAN, 1.0);
            }
            _ => {}
        }
        let rows = |n: usize| -> Vec<Vec<f64>> {
            (0..n).map(|i| (0..9).map(|k| a[i][k / 3] * b[i][k % 3]).collect()).collect()
        };
        let well_posed = quality == 0
            && match kind {
                0 | 1 => {
                    let n = if kind == 0 { cams.len() } else { 2 };
                    let obs = cams[..n].iter().map(|c| (*c, c.apply(&pts[0]).normalize()));
                    super::world::Lines::of(obs).curvature() > 1e-3
                }
                2 | 3 => {
                    let s = jacobi_svd(&rows(8));
                    s[1].0 / s[8].0 > 1e-5 && pts.iter().all(|p| p.z > 0.05 * p.norm())
                }
                7 => {
                    let s = jacobi_svd(&rows(5));
                    s[4].0 / s[8].0 > 1e-2
                }
                8 => {
                    let tri = |v: &[V3]| (v[1] - v[0]).cross(&(v[2] - v[0])).norm();
                    tri(&pts) > 0.2 * scale * scale && tri(&b) > 2e-2
                }
                _ => true,
            };
        Job { kind, quality, rel, cams, pts, a, b, essential, well_posed }
    }

    fn matches(&self, n: usize) -> impl Iterator<Item = FeatureMatch> + Clone + '_ {
        (0..n).map(move |i| FeatureMatch(U3::new_unchecked(self.a[i]), U3::new_unchecked(self.b[i])))
    }

    /// Runs the solver with a budget: no answer, or its candidates as plain numbers.
    fn solve(&self, budget: usize, eps: f64) -> Option<Vec<Vec<f64>>> {
        self.dispatch(Some((budget, eps)))
    }

    /// Runs the solver with one budget and threshold, or the way it comes out of the box.
    fn dispatch(&self, with: Option<(usize, f64)>) -> Option<Vec<Vec<f64>>> {
        // The decomposition of an essential matrix has no default; callers pass these.
        let (budget, eps) = with.unwrap_or((100, 1e-12));
        let eight = if with.is_some() {
            EightPoint { epsilon: eps, iterations: budget }
        } else {
            EightPoint::new()
        };
        let flat = |c: &CameraToCamera| -> Vec<f64> {
            c.0.rotation.matrix().iter().chain(c.0.translation.vector.iter()).copied().collect()
        };
        match self.kind {
            0 => {
                let mut r = self.pts[0];
                if self.quality == 3 {
                    r.x = f64::NAN;
                }
                let pairs = self.cams.iter().enumerate().map(|(i, c)| {
                    let mut d = c.apply(&r).normalize();
                    if self.quality == 1 {
                        // Reproducible disagreement between the observers.
                        d = (d + 1e-3 * self.a[i % 8].cross(&d)).normalize();
                    } else if self.quality == 2 {
                        d = self.a[i % 8];
                    }
                    (WorldToCamera(c.iso()), U3::new_unchecked(d))
                });
                let tri = LinearEigenTriangulator::new();
                let tri = if with.is_some() { tri.epsilon(eps).max_iterations(budget) } else { tri };
                tri.triangulate_observations(pairs)
                    .map(|p| vec![p.homogeneous().iter().copied().collect()])
            }
            1 => {
                let tri = RelativeDltTriangulator::new();
                let tri = if with.is_some() { tri.epsilon(eps).max_iterations(budget) } else { tri };
                tri.triangulate_relative(
                    CameraToCamera(self.rel.iso()),
                    U3::new_unchecked(self.a[0]),
                    U3::new_unchecked(self.b[0]),
                )
                .map(|p| vec![p.homogeneous().iter().copied().collect()])
            }
            2 => eight.from_matches(self.matches(8))
                .map(|m| vec![m.0.iter().copied().collect()]),
            3 => {
                let v = eight.estimate(self.matches(8));
                (!v.is_empty()).then(|| v.iter().map(flat).collect())
            }
            4 => EssentialMatrix(self.essential)
                .possible_unscaled_poses(eps, budget)
                .map(|v| v.iter().map(flat).collect()),
            5 => EssentialMatrix(self.essential)
                .possible_unscaled_poses_bearing(eps, budget)
                .map(|v| v.iter().map(flat).collect()),
            6 => EssentialMatrix(self.essential)
                .recondition(eps, budget)
                .map(|m| vec![m.0.iter().copied().collect()]),
            7 => {
                let five = if with.is_some() {
                    NisterStewenius { epsilon: eps, iterations: budget }
                } else {
                    NisterStewenius::new()
                };
                let v = five.estimate(self.matches(5));
                (!v.is_empty()).then(|| v.iter().map(flat).collect())
            }
            _ => {
                let e = LambdaTwist::new();
                let e = if with.is_some() {
                    e.rotation_convergence_iterations(budget).rotation_convergence_epsilon(eps)
                } else {
                    e
                };
                let v = e.estimate((0..3).map(|i| {
                    FeatureWorldMatch(
                        U3::new_unchecked(self.b[i]),
                        WorldPoint::from_homogeneous(self.pts[i].push(1.0)),
                    )
                }));
                (!v.is_empty()).then(|| {
                    v.iter()
                        .map(|c| flat(&CameraToCamera(c.0)))
                        .collect()
                })
            }
        }
    }

    fn pose_kind(&self) -> bool {
        matches!(self.kind, 3 | 4 | 5 | 7 | 8)
    }

    /// Checks that hold for every answer at any budget and threshold.
    fn sane(&self, ans: &[Vec<f64>], cx: &mut Cx) -> Res {
        let finite = ans.iter().flatten().all(|x| x.is_finite());
        if self.quality == 3 {
            // The landmark solver does not look at every number of a job it can refuse early.
            // Pure matrix algebra may hand NaN on; an estimator must not.
            return cx.ensure("nan-job-refused", finite || matches!(self.kind, 4 | 5 | 6), || {
                format!("{} answered a job that holds NaN with NaN", KINDS[self.kind])
            });
        }
        cx.ensure("finite-answer", finite, || {
            format!("{} answered {ans:?}", KINDS[self.kind])
        })?;
        if self.pose_kind() {
            for c in ans {
                let r = M3::from_column_slice(&c[..9]);
                cx.within("proper-rotation", rot_defect(&r), 1e-9, || {
                    format!("{} gave rotation {r:?}", KINDS[self.kind])
                })?;
                if self.kind != 8 {
                    let n = V3::from_column_slice(&c[9..]).norm();
                    cx.within("unit-translation", (n - 1.0).abs(), 1e-9, || {
                        format!("{} gave a translation of length {n}", KINDS[self.kind])
                    })?;
                }
            }
        }
        if self.kind == 6 {
            let m = Matrix3::from_column_slice(&ans[0]);
            let (s, _) = reference(&m);
            let top = s[2].max(1e-300);
            cx.within("recondition-shape", (s[0] / top).max((s[2] - s[1]) / top), 1e-7, || {
                format!("reconditioned singular values {s:?}")
            })?;
        }
        Ok(())
    }

    /// Distance of the closest candidate to the truth of an exact, well-posed job.
    fn truth_error(&self, ans: &[Vec<f64>]) -> f64 {
        let pose = |c: &Vec<f64>| Rt {
            r: M3::from_column_slice(&c[..9]),
            t: V3::from_column_slice(&c[9..]),
        };
        let up_to_sign = |m: &M3, n: &M3| {
            let (m, n) = (m / m.norm(), n / n.norm());
            (m - n).norm().min((m + n).norm())
        };
        let best = |f: &dyn Fn(&Vec<f64>) -> f64| ans.iter().map(f).fold(f64::INFINITY, f64::min);
        match self.kind {
            0 | 1 => {
                let h = V4::from_column_slice(&ans[0]);
                (h.xyz() / h.w - self.pts[0]).norm() / self.pts[0].norm()
            }
            2 => {
                let m = M3::from_column_slice(&ans[0]);
                up_to_sign(&m, &(self.rel.t.cross_matrix() * self.rel.r))
            }
            3 | 4 | 7 => best(&|c| {
                let p = pose(c);
                rot_diff(&p.r, &self.rel.r).max(ang(&p.t, &self.rel.t))
            }),
            5 => best(&|c| {
                let p = pose(c);
                let t = ang(&p.t, &self.rel.t);
                rot_diff(&p.r, &self.rel.r).max(t.min(std::f64::consts::PI - t))
            }),
            6 => up_to_sign(&M3::from_column_slice(&ans[0]), &(self.rel.t.cross_matrix() * self.rel.r)),
            _ => best(&|c| {
                let p = pose(c);
                rot_diff(&p.r, &self.rel.r).max((p.t - self.rel.t).norm() / self.rel.t.norm().max(self.pts[0].norm()))
            }),
        }
    }
}

/// Singular values (ascending) and right singular vectors of a 3x3 matrix, by Jacobi rotations.
fn reference(m: &M3) -> ([f64; 3], Vec<Vec<f64>>) {
    let rows: Vec<Vec<f64>> = (0..3).map(|i| m.row(i).iter().copied().collect()).collect();
    let s = jacobi_svd(&rows);
    ([s[0].0, s[1].0, s[2].0], s.into_iter().map(|x| x.1).collect())
}

fn distance(a: &[f64], b: &[f64]) -> f64 {
    let size = b.iter().fold(1e-300_f64, |m, x| m.max(x.abs()));
    a.iter().zip(b).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max) / size
}

/// How far the candidates of `a` are from being among those of `b`.
fn missing_from(a: &[Vec<f64>], b: &[Vec<f64>]) -> f64 {
    a.iter()
        .map(|x| b.iter().map(|y| distance(x, y)).fold(f64::INFINITY, f64::min))
        .fold(0.0, f64::max)
}

struct State {
    id: usize,
    job: Job,
    ample: Option<Vec<Vec<f64>>>,
    /// Smallest budget that has answered so far.
    answered_at: Option<usize>,
    /// Answer on record, lost when the scheduler crashes before a checkpoint.
    answer: Option<Vec<Vec<f64>>>,
    attempts: u32,
}

enum Ev {
    Submit { id: usize, kind: usize, quality: usize },
    Slice { pick: usize, budget: usize },
    Threshold { pick: usize, eps: f64 },
    Checkpoint,
    Crash,
    Calm,
}

/// One attempt with a budget, or with the defaults of the solver.
fn attempt(s: &mut State, with: Option<usize>, cx: &mut Cx) -> Res {
    let got = s.job.dispatch(with.map(|b| (b, 1e-12)));
    // What the defaults document.
    let budget = with.unwrap_or(match s.job.kind {
        4 | 5 | 6 | 8 => 100,
        _ => 1000,
    });
    s.attempts += 1;
    cx.sched(s.id as u64 * 1000 + budget.min(999) as u64);
    cx.log(format!(
        "job {} {} {} budget {budget}: {}",
        s.id,
        KINDS[s.job.kind],
        QUALITY[s.job.quality],
        got.as_ref().map_or("no answer".to_string(), |a| bits(a.iter().flatten()))
    ));
    let name = KINDS[s.job.kind];
    match &got {
        None => {
            cx.probe("attempt-without-answer");
            cx.fault("budget-exhausted");
            let early = s.answered_at.map_or(false, |b| b <= budget);
            cx.ensure("answers-are-monotone", !early || s.job.kind == 8, || {
                format!("{name} answered with budget {:?} but not with {budget}", s.answered_at)
            })
        }
        Some(ans) => {
            cx.probe("attempt-with-answer");
            s.job.sane(ans, cx)?;
            if s.job.quality == 3 {
                return Ok(());
            }
            if s.job.kind == 8 {
                // The rotation fit is an any-time method: rigid at every budget, exact at ample ones.
                if budget >= 100 && s.job.well_posed {
                    let e = missing_from(ans, s.ample.as_deref().unwrap_or(&[]));
                    cx.within("same-three-point-answer", e, 1e-5, || {
                        format!("{name} with budget {budget}")
                    })?;
                }
            } else {
                let Some(full) = &s.ample else {
                    return fail(
                        "answers-are-monotone",
                        format!("{name} answered with budget {budget} but not with an ample one"),
                    );
                };
                cx.within("same-answer-at-any-budget", missing_from(ans, full), 1e-9, || {
                    format!("{name} with budget {budget} answered {ans:?}, with an ample one {full:?}")
                })?;
            }
            if let Some(old) = &s.answer {
                let e = missing_from(old, ans).min(missing_from(ans, old));
                cx.within("retry-agrees", if s.job.kind == 8 { 0.0 } else { e }, 1e-9, || {
                    format!("{name} answered a retried job differently")
                })?;
            }
            s.answered_at = Some(s.answered_at.map_or(budget, |b| b.min(budget)));
            s.answer = got;
            Ok(())
        }
    }
}

impl Scenario for Budget {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough {
            600_000
        } else {
            12_000
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &[
            "cv-geom linear and relative triangulation",
            "cv-pinhole essential decomposition and reconditioning",
            "eight-point",
            "nister-stewenius",
            "lambda-twist",
        ]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["job queue, workers, clock and checkpoint store (simulator)"]
    }
    fn rule(&self) -> &'static str {
        "one case is one simulated job queue: jobs, arrival order, budgets, stalls, retries and crashes come from the seed; non-trivial when attempts were made and judged; distinct by the sequence of attempts with their budgets"
    }
    fn floors(&self) -> &'static [(&'static str, f64)] {
        &[("scale", 1.0)]
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut plan = Plan::empty();
        plan.world = rng.u64();
        plan.set("scale", if rng.chance(0.6) { 1.0 } else { rng.logu(0.05, 200.0) });
        let jobs = rng.range(3, if thorough { 24 } else { 12 });
        let kinds: Vec<usize> = (0..KINDS.len()).filter(|_| rng.chance(0.5)).collect();
        let bad = if rng.chance(0.3) { 0.0 } else { rng.uni(0.1, 0.7) };
        let mut t = 0;
        // How starved the workers are: the largest budget a slice may have in this run.
        let most = *rng.pick(&[3usize, 8, 20, 60, 300]);
        for id in 0..jobs {
            t += rng.range(100, 5000) as u64;
            let kind = if kinds.is_empty() { rng.below(KINDS.len()) } else { *rng.pick(&kinds) };
            let quality = if rng.chance(bad) { rng.range(1, 4) } else { 0 };
            plan.ops.push(Op::new(t, "submit", vec![id as f64, kind as f64, quality as f64]));
            for _ in 0..rng.below(5) {
                t += rng.range(10, 500) as u64;
                plan.ops.push(Op::new(t, "slice", vec![rng.below(64) as f64, rng.range(1, most + 1) as f64]));
            }
            if rng.chance(0.1) {
                plan.ops.push(Op::new(t + 1, "ckpt", vec![]));
            }
            if rng.chance(0.1) {
                plan.ops.push(Op::new(t + 2, "crash", vec![]));
            }
            if rng.chance(0.2) {
                let eps = *rng.pick(&[1e-6, 1e-9, 1e-11, 1e-14]);
                plan.ops.push(Op::new(t + 3, "eps", vec![rng.below(64) as f64, eps]));
            }
        }
        t += 10_000;
        // Retries with growing budgets.
        let mut b = 1.0_f64;
        for _ in 0..rng.range(4, 16) {
            t += 100;
            b *= rng.uni(1.0, 2.5);
            plan.ops.push(Op::new(t, "slice", vec![rng.below(64) as f64, b.ceil()]));
        }
        plan.ops.push(Op::new(t + 1000, "calm", vec![]));
        plan
    }
    fn run(&self, plan: &Plan, cx: &mut Cx) -> Res {
        let mut q: Queue<Ev> = Queue::default();
        for op in &plan.ops {
            let ev = match op.k.as_str() {
                "submit" => Ev::Submit {
                    id: op.u(0),
                    kind: op.u(1).min(KINDS.len() - 1),
                    quality: op.u(2).min(3),
                },
                "slice" => Ev::Slice { pick: op.u(0), budget: op.u(1).max(1) },
                "eps" => Ev::Threshold { pick: op.u(0), eps: op.f(1) },
                "ckpt" => Ev::Checkpoint,
                "crash" => Ev::Crash,
                "calm" => Ev::Calm,
                _ => continue,
            };
            q.push(op.t, ev);
        }
        let mut jobs: Vec<State> = vec![];
        let mut durable: Vec<usize> = vec![];
        while let Some((t, ev)) = q.pop() {
            cx.sim_us = t;
            match ev {
                Ev::Submit { id, kind, quality } => {
                    let job = Job::new(plan, id, kind, quality);
                    if quality != 0 {
                        cx.fault(["", "job-noisy", "job-arbitrary", "job-nan"][quality]);
                    }
                    let ample = job.solve(AMPLE, 1e-12);
                    cx.log(format!("submit {id} {} {}", KINDS[kind], QUALITY[quality]));
                    if let Some(a) = &ample {
                        job.sane(a, cx)?;
                    }
                    jobs.push(State { id, job, ample, answered_at: None, answer: None, attempts: 0 });
                }
                Ev::Slice { pick, budget } => {
                    let open: Vec<usize> = (0..jobs.len()).filter(|i| jobs[*i].answer.is_none()).collect();
                    // Sometimes a finished job is dispatched twice.
                    let i = if open.is_empty() || pick % 8 == 7 {
                        if jobs.is_empty() {
                            continue;
                        }
                        cx.fault("job-dispatched-twice");
                        pick / 8 % jobs.len()
                    } else {
                        open[pick / 8 % open.len()]
                    };
                    attempt(&mut jobs[i], Some(budget), cx)?;
                    let s = &jobs[i];
                    cx.state(&[s.job.kind as u64, s.job.quality as u64, budget.min(64) as u64, u64::from(s.answer.is_some()), u64::from(s.attempts.min(6))]);
                }
                Ev::Threshold { pick, eps } => {
                    if jobs.is_empty() {
                        continue;
                    }
                    let n = jobs.len();
                    let s = &mut jobs[pick % n];
                    let got = s.job.solve(AMPLE, eps);
                    cx.log(format!("job {} threshold {eps:e}: {}", s.id, got.is_some()));
                    if let Some(ans) = &got {
                        s.job.sane(ans, cx)?;
                        if s.job.well_posed {
                            threshold_checks(s, ans, eps, cx)?;
                        }
                    } else if s.job.well_posed && s.job.kind != 7 && eps > 1e-13 {
                        return fail("well-posed-answered", format!("{} has no answer at threshold {eps:e}", KINDS[s.job.kind]));
                    }
                }
                Ev::Checkpoint => {
                    durable = jobs.iter().filter(|s| s.answer.is_some()).map(|s| s.id).collect();
                    cx.log("checkpoint".into());
                }
                Ev::Crash => {
                    let mut lost = 0;
                    for s in &mut jobs {
                        if s.answer.is_some() && !durable.contains(&s.id) {
                            s.answer = None;
                            lost += 1;
                        }
                    }
                    cx.fault(if lost > 0 { "crash-losing-answers" } else { "crash" });
                    cx.sched(7);
                    cx.log(format!("crash, {lost} answers lost"));
                }
                Ev::Calm => {
                    for s in &mut jobs {
                        // Default budgets: stalls are over, every job must finish now.
                        s.answer = None;
                        attempt(s, None, cx)?;
                        if !s.job.well_posed {
                            continue;
                        }
                        cx.probe("well-posed-job-finished");
                        let Some(ans) = &s.answer else {
                            if s.job.kind == 7 {
                                cx.probe("clean-sample-missed");
                                continue;
                            }
                            return fail(
                                "well-posed-answered",
                                format!("{} has no answer with its default budget", KINDS[s.job.kind]),
                            );
                        };
                        let e = s.job.truth_error(ans);
                        if s.job.kind == 7 {
                            // See C07: a sample near a double root may be lost, two never are.
                            if !(e < 1e-3) {
                                cx.probe("clean-sample-missed");
                            }
                            let n = cx.probes.get("clean-sample-missed").copied().unwrap_or(0);
                            cx.ensure("five-point-job-correct", n < 2, || {
                                format!("{n} well-posed five-point jobs were answered wrongly, the last by {e:e}")
                            })?;
                            continue;
                        }
                        const TRUTH: [&str; 9] = [
                            "linear-triangulation-correct",
                            "relative-triangulation-correct",
                            "eight-point-matrix-correct",
                            "eight-point-poses-correct",
                            "essential-poses-correct",
                            "essential-bearings-correct",
                            "recondition-keeps-essential",
                            "",
                            "three-point-poses-correct",
                        ];
                        let tol = [1e-4, 1e-4, 1e-5, 1e-5, 1e-6, 1e-6, 1e-9, 0.0, 1e-4][s.job.kind];
                        cx.within(TRUTH[s.job.kind], e, tol, || {
                            format!("{} answered {ans:?}", KINDS[s.job.kind])
                        })?;
                    }
                    for s in &jobs {
                        recondition_is_nearest(s, cx)?;
                    }
                }
            }
        }
        Ok(())
    }
}

/// A looser threshold may cost accuracy in proportion, never correctness.
fn threshold_checks(s: &State, ans: &[Vec<f64>], eps: f64, cx: &mut Cx) -> Res {
    // Linear null vectors may lose eps over their spectral gap; the decomposition of an essential
    // matrix and the rotation fit document what a threshold of 1e-6 gives.
    if s.job.kind == 7 || (eps > 1e-8 && s.job.kind < 4) {
        return Ok(());
    }
    let e = s.job.truth_error(ans);
    let tol = match s.job.kind {
        4 | 5 => 1e-6 + 100.0 * eps,
        6 => 1e-9 + 100.0 * eps,
        _ => 1e-4 + 1e6 * eps,
    };
    const NAMES: [&str; 9] = [
        "threshold-linear",
        "threshold-relative",
        "threshold-eight",
        "threshold-eight-poses",
        "threshold-essential",
        "threshold-bearings",
        "threshold-recondition",
        "",
        "threshold-three-point",
    ];
    cx.within(NAMES[s.job.kind], e, tol, || {
        format!("{} at threshold {eps:e} is {e:e} from the truth", KINDS[s.job.kind])
    })
}

/// Reconditioning gives the closest matrix with two equal singular values and a zero one.
fn recondition_is_nearest(s: &State, cx: &mut Cx) -> Res {
    if s.job.kind != 6 || s.job.quality == 3 {
        return Ok(());
    }
    let Some(ans) = &s.answer else {
        return Ok(());
    };
    let (sv, _) = reference(&s.job.essential);
    let want = (0.5 * (sv[2] - sv[1]).powi(2) + sv[0] * sv[0]).sqrt();
    let got = (M3::from_column_slice(&ans[0]) - s.job.essential).norm();
    cx.within("recondition-nearest", (got - want).abs() / sv[2].max(1e-300), 1e-6, || {
        format!("reconditioning moved the matrix by {got:e}, the nearest is {want:e} away")
    })
}
