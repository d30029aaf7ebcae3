//! C05, C06, C07, C08: sampling workers estimate a pose by consensus over matches that arrive over
//! a faulty network, contaminated, duplicated and out of order, while workers crash.

use crate::geo::*;
use crate::rng::Rng;
use crate::runner::Scenario;
use crate::sim::*;
use cv_core::nalgebra::{Matrix3x4, Vector4};
use cv_core::sample_consensus::{Estimator, Model};
use cv_core::{
    CameraToCamera, FeatureMatch, FeatureWorldMatch, Projective, TriangulatorRelative, WorldPoint,
    WorldToCamera,
};
use cv_geom::triangulation::*;
use cv_pinhole::EssentialMatrix;
use eight_point::EightPoint;
use lambda_twist::LambdaTwist;
use nister_stewenius::NisterStewenius;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Eight,
    P3p,
    Five,
    Score,
}

pub struct Consensus(Mode, &'static str);
pub static C05: Consensus = Consensus(Mode::Eight, "C05");
pub static C06: Consensus = Consensus(Mode::P3p, "C06");
pub static C07: Consensus = Consensus(Mode::Five, "C07");
pub static C08: Consensus = Consensus(Mode::Score, "C08");

const KINDS: [&str; 7] = [
    "clean",
    "noise",
    "outlier",
    "mirrored-bearing",
    "wrong-association",
    "nan-observation",
    "point-at-infinity",
];

/// One feature seen in two frames, or a landmark seen in one: `a` is the bearing in the first
/// frame, `b` the bearing in the second, `p` the landmark in the first frame (the world).
#[derive(Clone, Copy, Debug)]
struct Match {
    id: usize,
    kind: usize,
    p: V4,
    a: V3,
    b: V3,
}

impl Match {
    fn clean(&self) -> bool {
        self.kind == 0
    }
    fn two_view(&self) -> FeatureMatch {
        FeatureMatch(U3::new_unchecked(self.a), U3::new_unchecked(self.b))
    }
    fn world(&self) -> FeatureWorldMatch {
        FeatureWorldMatch(
            U3::new_unchecked(self.b),
            WorldPoint::from_homogeneous(self.p),
        )
    }
    fn finite(&self) -> bool {
        self.a.iter().chain(self.b.iter()).all(|x| x.is_finite())
    }
}

struct Scene {
    rel: Rt,
    pts: Vec<V3>,
    scale: f64,
}

impl Scene {
    fn new(plan: &Plan) -> Scene {
        let mut r = plan.entity("rel", 0, 0);
        let scale = plan.k("scale");
        let n = plan.ku("points");
        let angle = match plan.ku("motion") {
            0 => r.uni(0.0, 0.4),
            1 => r.uni(0.0, 3.1),
            2 => r.logu(1e-4, 0.5),
            // Exact turns: none, quarter and half.
            _ => r.below(3) as f64 * std::f64::consts::FRAC_PI_2,
        };
        let exact = plan.ku("motion") > 2;
        let along = |r: &mut Rng| {
            if exact && r.chance(0.7) {
                let mut v = V3::zeros();
                v[r.below(3)] = if r.chance(0.5) { 1.0 } else { -1.0 };
                v
            } else {
                rand_unit(r)
            }
        };
        let axis = along(&mut r);
        let base = r.logu(0.1, 1.5);
        // A third of the scenes keep everything in front of both image planes.
        let omni = plan.k("omni") > 0.0;
        let mut rel = Rt {
            r: rodrigues(&axis, angle),
            t: V3::zeros(),
        };
        let dir = along(&mut r);
        if !omni && angle > 0.5 {
            // Orbit around the scene instead of turning away from it.
            let pivot = V3::new(0.0, 0.0, 4.0);
            rel.t = pivot - rel.r * pivot + dir * base * 0.3;
        } else {
            rel.t = dir * base;
        }
        let pts = (0..n)
            .map(|i| {
                let mut r = plan.entity("pt", i, 0);
                if exact && i == 1 {
                    // Straight ahead: the same bearing before and after a forward motion.
                    V3::new(0.0, 0.0, r.uni(2.5, 6.0))
                } else if omni {
                    rand_unit(&mut r) * r.uni(1.5, 8.0)
                } else {
                    let fov = plan.k("fov");
                    V3::new(fov * r.uni(-1.5, 1.5), fov * r.uni(-1.5, 1.5), r.uni(2.5, 6.0))
                }
            })
            .map(|p| p * scale)
            .collect();
        rel.t *= scale;
        Scene { rel, pts, scale }
    }

    fn observe(&self, plan: &Plan, id: usize, kind: usize, seed: usize) -> Match {
        let mut r = plan.entity("match", id, seed);
        let p = self.pts[id];
        let mut m = Match {
            id,
            kind,
            p: p.push(1.0),
            a: p.normalize(),
            b: self.rel.apply(&p).normalize(),
        };
        match kind {
            1 => {
                let s = *r.pick(&[1e-9, 1e-6, 1e-4, 1e-3, 1e-2]);
                let (x, y) = (s * r.normal(), s * r.normal());
                m.a = tilt(&m.a, x, &mut r);
                m.b = tilt(&m.b, y, &mut r);
            }
            2 => m.b = rand_unit(&mut r),
            3 => m.b = -m.b,
            4 => {
                let q = self.pts[r.below(self.pts.len())];
                m.b = self.rel.apply(&q).normalize();
                if (q - p).norm() < 1e-9 {
                    m.b = rand_unit(&mut r);
                }
            }
            5 => m.b = V3::repeat(f64::NAN),
            6 => {
                m.p = m.a.push(0.0);
                m.b = self.rel.r * m.a;
            }
            _ => {}
        }
        m
    }
}

enum Ev {
    Match(Match),
    Draw { seed: usize, clean: bool },
    Checkpoint,
    Crash,
    Done,
}

/// Coefficients of the epipolar equation of a match, over bearings of unit length.
fn epipolar_row(m: &Match) -> Vec<f64> {
    (0..9).map(|k| m.a[k / 3] * m.b[k % 3]).collect()
}

/// How well a minimal sample determines the epipolar geometry: the smallest singular value that
/// should not vanish over the largest.
fn sample_quality(sample: &[Match], free: usize) -> f64 {
    let rows: Vec<_> = sample.iter().map(epipolar_row).collect();
    let s = jacobi_svd(&rows);
    s[free].0 / s[8].0.max(1e-300)
}

/// How well a minimal sample determines the motion to first order: the smallest singular value of
/// the epipolar equations by small turns and by small changes of the direction of translation. It
/// vanishes where solutions of the minimal problem coincide, such as with a match on the baseline.
fn motion_quality(rel: &Rt, sample: &[Match]) -> f64 {
    let t = rel.t.normalize();
    let u = t.cross(&V3::new(0.3, -0.5, 0.8)).normalize();
    let v = t.cross(&u);
    let rows: Vec<Vec<f64>> = sample
        .iter()
        .map(|m| {
            let x = rel.r * m.a;
            let turn = |w: V3| m.b.dot(&t.cross(&w.cross(&x)));
            let shift = |d: V3| m.b.dot(&d.cross(&x));
            vec![turn(V3::x()), turn(V3::y()), turn(V3::z()), shift(u), shift(v)]
        })
        .collect();
    jacobi_svd(&rows)[0].0
}

fn essential_of(rt: &Rt) -> M3 {
    rt.t.cross_matrix() * rt.r
}

/// Homogeneous point (in the first frame) of least algebraic error and how well it is determined.
fn reference_point(rel: &Rt, m: &Match) -> (V4, f64) {
    let mut rows = vec![];
    for (p, x) in [(Rt::identity(), m.a), (*rel, m.b)] {
        let t = Matrix3x4::from_columns(&[
            p.r.column(0).into_owned(),
            p.r.column(1).into_owned(),
            p.r.column(2).into_owned(),
            p.t,
        ]);
        let t = t - x * (x.transpose() * t);
        for i in 0..3 {
            rows.push(t.row(i).iter().copied().collect());
        }
    }
    let s = jacobi_svd(&rows);
    let h = Vector4::from_column_slice(&s[0].1);
    let gap = (s[1].0.powi(2) - s[0].0.powi(2)) / s[3].0.powi(2);
    (if h.w < 0.0 { -h } else { h }, gap)
}

/// Independent cosine-distance residual of a relative pose, and how well it is determined (not at
/// all: 0).
fn reference_residual(rel: &Rt, m: &Match) -> (f64, f64) {
    let (h, gap) = reference_point(rel, m);
    let d = rel.r * h.xyz() + rel.t * h.w;
    let r = 0.5 * (2.0 - m.a.dot(&h.xyz().normalize()) - m.b.dot(&d.normalize()));
    let clear = gap > 1e-7
        && h.w * rel.t.norm().max(1.0) > 1e-6
        && h.xyz().norm() > 1e-6
        && d.norm() > 1e-6;
    let near = h.xyz().norm().min(d.norm()).min(1.0);
    (r, if clear { gap * near } else { 0.0 })
}

fn candidate_ok(cx: &mut Cx, c: &Rt) -> Res {
    cx.within("proper-rotation", rot_defect(&c.r), 1e-12, || {
        format!("candidate rotation {:?}", c.r)
    })?;
    cx.ensure("finite-candidate", c.t.iter().all(|x| x.is_finite()), || {
        format!("candidate translation {:?}", c.t)
    })
}

fn pose_err(a: &Rt, b: &Rt) -> f64 {
    rot_diff(&a.r, &b.r).max(ang(&a.t, &b.t))
}

struct Node {
    buf: Vec<Match>,
    best: Option<(f64, Rt)>,
}

impl Consensus {
    fn minimum(&self) -> usize {
        match self.0 {
            Mode::Eight | Mode::Score => 8,
            Mode::P3p => 3,
            Mode::Five => 5,
        }
    }

    fn score(&self, c: &Rt, m: &Match) -> f64 {
        if self.0 == Mode::P3p {
            WorldToCamera(c.iso()).residual(&m.world())
        } else {
            CameraToCamera(c.iso()).residual(&m.two_view())
        }
    }

    /// Runs the estimator on one drawn sample and checks everything it returns.
    fn estimate(&self, s: &Scene, sample: &[Match], cx: &mut Cx) -> Result<Vec<Rt>, Violation> {
        let cands = match self.0 {
            Mode::Eight | Mode::Score => eight(s, sample, cx)?,
            Mode::Five => five(s, sample, cx)?,
            Mode::P3p => p3p(s, sample, cx)?,
        };
        for c in &cands {
            cx.log(format!("candidate {} {}", bits(c.r.iter()), bits(c.t.iter())));
        }
        cx.probe(if cands.is_empty() {
            "sample-without-candidates"
        } else {
            "sample-with-candidates"
        });
        Ok(cands)
    }

    fn consider(&self, s: &Scene, node: &mut Node, cands: &[Rt], cx: &mut Cx) -> Res {
        for c in cands {
            let mut total = 0.0;
            for m in &node.buf {
                let r = self.score(c, m);
                if self.0 == Mode::Score {
                    score_checks(s, c, m, r, cx)?;
                }
                // Truncated cost, so that outliers count the same for every model.
                total += if r < 1e-12 { r } else { 1.0 };
            }
            cx.log(format!("score {total:e}"));
            if node.best.map_or(true, |(b, _)| total < b) {
                node.best = Some((total, *c));
            }
        }
        Ok(())
    }

    /// With faults over and one clean sample drawn, consensus must have found the truth and must
    /// tell its inliers from everything else.
    fn settle(&self, s: &Scene, node: &Node, cx: &mut Cx) -> Res {
        let Some((_, best)) = node.best else {
            return Ok(());
        };
        let clean: Vec<_> = node.buf.iter().filter(|m| m.clean()).collect();
        let mut fresh: Vec<Match> = vec![];
        for m in &clean {
            if !fresh.iter().any(|x| x.id == m.id) {
                fresh.push(**m);
            }
        }
        // A majority that a wrong pose cannot tie with, even if besides every contaminated match it
        // fits almost a whole sample of the exact ones, and those the ones delivered most often.
        let bad = node.buf.len() - clean.len();
        let mut times: Vec<usize> = fresh
            .iter()
            .map(|m| clean.iter().filter(|x| x.id == m.id).count())
            .collect();
        times.sort_unstable();
        let fitted: usize = times.iter().rev().take(self.minimum()).sum();
        if fresh.len() < self.minimum() + 4 || clean.len() < bad + fitted {
            return Ok(());
        }
        cx.probe("consensus-settled");
        let err = if self.0 == Mode::P3p {
            rot_diff(&best.r, &s.rel.r).max((best.t - s.rel.t).norm() / s.scale)
        } else {
            pose_err(&best, &s.rel)
        };
        cx.within("consensus-finds-truth", err, 1e-3, || {
            format!("best pose {best:?}, truth {:?}", s.rel)
        })?;
        for m in &node.buf {
            // On the baseline there is no parallax to tell where a point is.
            let ahead = m.b.cross(&s.rel.t).norm() / s.rel.t.norm().max(1e-300);
            if self.0 != Mode::P3p && ahead < 1e-3 {
                continue;
            }
            let got = self.score(&best, m);
            cx.ensure("inlier-kept", !m.clean() || got < 1e-7, || {
                format!("clean match {} scores {got:e} under the consensus", m.id)
            })?;
            let want = if self.0 == Mode::P3p {
                let d = s.rel.r * m.p.xyz() + s.rel.t * m.p.w;
                (1.0 - m.b.dot(&d.normalize()), 1.0)
            } else {
                reference_residual(&s.rel, m)
            };
            if want.1 > 0.0 && want.0 > 1e-4 {
                cx.ensure("outlier-rejected", !(got < 1e-7), || {
                    format!("match {} ({}) scores {got:e}, reference {:e}", m.id, KINDS[m.kind], want.0)
                })?;
            }
        }
        Ok(())
    }
}

fn eight(s: &Scene, sample: &[Match], cx: &mut Cx) -> Result<Vec<Rt>, Violation> {
    let e = EightPoint::new();
    let it = || sample.iter().map(Match::two_view);
    let raw = e.from_matches(it());
    let cands: Vec<Rt> = e.estimate(it()).iter().map(|c| Rt::of_iso(&c.0)).collect();
    if !sample.iter().all(Match::finite) {
        cx.probe("nan-in-sample");
        for c in &cands {
            cx.ensure("nan-sample-refused", c.r.iter().all(|x| x.is_finite()), || {
                "a sample with a NaN bearing gave a NaN candidate".into()
            })?;
        }
        return Ok(cands);
    }
    cx.ensure("four-candidates", raw.is_some() && cands.len() == 4, || {
        format!("{} candidates from a finite sample", cands.len())
    })?;
    let m = raw.unwrap().0;
    // Relative to unit bearings each equation may be scaled by the inverse depth of the bearing.
    if sample.iter().all(|x| x.a.z.abs() > 0.05) {
        for x in sample {
            let r = (x.b.transpose() * m * x.a)[0].abs() / m.norm();
            cx.within("epipolar-equations", r, 1e-12, || {
                format!("sample match {} is off the estimated epipolar geometry by {r:e}", x.id)
            })?;
        }
    }
    for c in &cands {
        candidate_ok(cx, c)?;
        cx.within("unit-translation", (c.t.norm() - 1.0).abs(), 1e-12, || {
            format!("candidate translation {:?}", c.t)
        })?;
    }
    // Two rotations, each with both translation directions.
    for c in &cands {
        let twin = cands
            .iter()
            .map(|d| rot_diff(&c.r, &d.r) + (c.t + d.t).norm())
            .fold(f64::INFINITY, f64::min);
        cx.within("opposite-twin", twin, 1e-12, || {
            format!("no candidate with the opposite direction of {c:?}")
        })?;
        let e = essential_of(c);
        let f = essential_of(&cands[0]);
        let d = (e - f).norm().min((e + f).norm());
        cx.within("same-epipolar-geometry", d, 1e-12, || {
            "candidates of one sample describe different epipolar geometry".into()
        })?;
    }
    let distinct = rot_diff(&cands[0].r, &cands[1].r).max(rot_diff(&cands[0].r, &cands[2].r));
    cx.ensure("two-rotations", distinct > 1e-3, || {
        "all candidates share one rotation".into()
    })?;
    let q = sample_quality(sample, 1);
    if sample.iter().all(Match::clean) && q > 1e-6 && sample.iter().all(|x| x.a.z.abs() > 0.05) {
        cx.probe("clean-sample");
        let best = cands
            .iter()
            .map(|c| pose_err(c, &s.rel))
            .fold(f64::INFINITY, f64::min);
        cx.within("truth-among-candidates", best, (1e-9 / q).min(1e-5), || {
            format!("eight exact matches (quality {q:e}) did not give the true pose")
        })?;
        let mut rev: Vec<_> = sample.to_vec();
        rev.reverse();
        let other: Vec<Rt> = e
            .estimate(rev.iter().map(Match::two_view))
            .iter()
            .map(|c| Rt::of_iso(&c.0))
            .collect();
        let best = other
            .iter()
            .map(|c| pose_err(c, &s.rel))
            .fold(f64::INFINITY, f64::min);
        cx.within("sample-order", best, (1e-9 / q).min(1e-5), || {
            "the order of the sample changed the answer".into()
        })?;
    }
    Ok(cands)
}

fn five(s: &Scene, sample: &[Match], cx: &mut Cx) -> Result<Vec<Rt>, Violation> {
    let e = NisterStewenius::new();
    let cands: Vec<Rt> = e
        .estimate(sample.iter().map(Match::two_view))
        .iter()
        .map(|c| Rt::of_iso(&c.0))
        .collect();
    if !sample.iter().all(Match::finite) {
        cx.probe("nan-in-sample");
        for c in &cands {
            cx.ensure("nan-sample-refused", c.r.iter().all(|x| x.is_finite()), || {
                "a sample with a NaN bearing gave a NaN candidate".into()
            })?;
        }
        return Ok(cands);
    }
    let q = sample_quality(sample, 4);
    let clean = sample.iter().all(Match::clean) && q > 1e-4;
    let mq = if clean { motion_quality(&s.rel, sample) } else { 0.0 };
    let clean = clean && 1e-9 / (mq * mq * q) < 1e-2;
    for c in &cands {
        candidate_ok(cx, c)?;
        cx.within("unit-translation", (c.t.norm() - 1.0).abs(), 1e-12, || {
            format!("candidate translation {:?}", c.t)
        })?;
        let m = essential_of(c);
        let mut worst: f64 = 0.0;
        for x in sample {
            let r = (x.b.transpose() * m * x.a)[0].abs();
            worst = worst.max(r);
        }
        if clean && q > 1e-2 {
            // A candidate from two roots that nearly coincide is inaccurate; most are not.
            cx.probe("candidate-judged");
            if worst > 1e-6 {
                cx.probe("candidate-inaccurate");
            }
            let loose = cx.probes.get("candidate-inaccurate").copied().unwrap_or(0);
            let all = cx.probes["candidate-judged"];
            cx.ensure("epipolar-equations", loose <= 20 || loose * 4 <= all, || {
                format!("{loose} of {all} candidates are off the epipolar geometry of their own exact sample, the last by {worst:e} (quality {q:e})")
            })?;
        }
    }
    if clean {
        cx.probe("clean-sample");
        let best = cands
            .iter()
            .map(|c| pose_err(c, &s.rel))
            .fold(f64::INFINITY, f64::min);
        // Close to a double root of the minimal problem rounding may turn the pair of roots complex.
        // That loses about one sample in 10^5, and never two of one session.
        let tol = 1e-9 / (mq * mq * q);
        if best <= tol {
            cx.margin("truth-among-candidates", best, tol);
        } else {
            cx.probe("clean-sample-missed");
        }
        let misses = cx.probes.get("clean-sample-missed").copied().unwrap_or(0);
        cx.ensure("truth-among-candidates", misses < 2, || {
            format!(
                "{misses} samples of five exact matches did not give the true pose; the last (quality {q:e}, {mq:e}) is {best:e} away among {} candidates",
                cands.len()
            )
        })?;
    }
    Ok(cands)
}

fn p3p(s: &Scene, sample: &[Match], cx: &mut Cx) -> Result<Vec<Rt>, Violation> {
    let e = LambdaTwist::new();
    let cands: Vec<Rt> = e
        .estimate(sample.iter().map(Match::world))
        .iter()
        .map(|c| Rt::of_iso(&c.0))
        .collect();
    if !sample.iter().all(Match::finite) {
        cx.probe("nan-in-sample");
        return Ok(cands);
    }
    if sample.iter().any(|m| m.p.w == 0.0) {
        cx.probe("infinite-in-sample");
        cx.ensure("infinite-sample-refused", cands.is_empty(), || {
            "a pose was returned although a landmark of the sample is at infinity".into()
        })?;
        return Ok(cands);
    }
    cx.ensure("at-most-four", cands.len() <= 4, || format!("{} candidates", cands.len()))?;
    let tri = |f: &dyn Fn(&Match) -> V3| {
        let (x, y, z) = (f(&sample[0]), f(&sample[1]), f(&sample[2]));
        (y - x).cross(&(z - x)).norm()
    };
    let area = tri(&|m| m.p.xyz() / s.scale);
    let view = tri(&|m| m.b);
    let good = area > 0.1 && view > 1e-2;
    let clean = sample.iter().all(Match::clean) && good;
    for c in &cands {
        candidate_ok(cx, c)?;
        for m in sample {
            let d = c.apply(&m.p.xyz());
            let r = (d.normalize() - m.b).norm();
            if !clean {
                break;
            }
            cx.within("sample-reprojects", r, 5e-5, || {
                format!("candidate sees landmark {} {r:e} away from its bearing (area {area:e}, view {view:e})", m.id)
            })?;
        }
    }
    if clean {
        cx.probe("clean-sample");
        let best = cands
            .iter()
            .map(|c| rot_diff(&c.r, &s.rel.r).max((c.t - s.rel.t).norm() / s.scale))
            .fold(f64::INFINITY, f64::min);
        // Close to a double root rounding may turn the pair of roots complex. That loses about one
        // sample in 10^7, and never two of one session.
        let tol = 5e-6 / view;
        if best <= tol {
            cx.margin("truth-among-candidates", best, tol);
        } else {
            cx.probe("clean-sample-missed");
        }
        let misses = cx.probes.get("clean-sample-missed").copied().unwrap_or(0);
        cx.ensure("truth-among-candidates", misses < 2, || {
            format!("{misses} samples of three exact landmarks did not give the true pose; the last (area {area:e}, view {view:e}) is {best:e} away among {} candidates", cands.len())
        })?;
    }
    Ok(cands)
}

/// C08: every residual the consensus relies on, against independent references.
fn score_checks(s: &Scene, c: &Rt, m: &Match, r: f64, cx: &mut Cx) -> Res {
    cx.ensure("residual-in-range", r.is_finite() && (-1e-9..=2.0 + 1e-9).contains(&r), || {
        format!("relative pose residual {r} for match {} ({})", m.id, KINDS[m.kind])
    })?;
    let again = CameraToCamera(c.iso()).residual(&m.two_view());
    cx.ensure("residual-repeatable", again.to_bits() == r.to_bits(), || {
        format!("the same match scored {r} and then {again}")
    })?;
    // A landmark nothing is known about, or one in the lens, has no angle to any bearing.
    let seen = U3::new_unchecked(m.b);
    let world = |h: V4| WorldToCamera(c.iso()).residual(&FeatureWorldMatch(seen, WorldPoint::from_homogeneous(h)));
    let lost = world(V4::repeat(f64::NAN));
    let lens = world(c.center().push(1.0));
    cx.ensure("lost-landmark-scores-worst", lost == 2.0 && (-1e-9..=2.0 + 1e-9).contains(&lens), || {
        format!("a NaN landmark scored {lost}, one in the lens {lens}")
    })?;
    if !m.finite() {
        cx.ensure("nan-scores-worst", r == 2.0 && world(m.p) == 2.0, || {
            format!("a match with a NaN bearing scored {r} and {}", world(m.p))
        })?;
        return Ok(());
    }
    let (want, gap) = reference_residual(c, m);
    if gap > 0.0 {
        cx.probe("residual-compared");
        cx.within("relative-residual", (r - want).abs(), 2e-6 + 1e-12 / gap, || {
            format!("residual {r:e}, reference {want:e} for match {}", m.id)
        })?;
    }
    // The landmark residual, for finite and infinite landmarks.
    let d = c.r * m.p.xyz() + c.t * m.p.w;
    let wr = WorldToCamera(c.iso()).residual(&m.world());
    cx.ensure("world-residual-in-range", (-1e-9..=2.0 + 1e-9).contains(&wr), || {
        format!("landmark residual {wr}")
    })?;
    if d.norm() > 1e-9 {
        let want = 1.0 - m.b.dot(&d.normalize());
        cx.within("world-residual", (wr - want).abs(), 1e-13, || {
            format!("landmark residual {wr:e}, reference {want:e}")
        })?;
    }
    // The essential matrix of a pose and its residual.
    let e = EssentialMatrix::from(CameraToCamera(c.iso()));
    let ed = (e.0 - essential_of(c)).norm() / (1e-300 + essential_of(c).norm());
    cx.within("essential-of-pose", ed, 1e-13, || format!("essential matrix {:?}", e.0))?;
    if m.a.z.abs() > 1e-3 && m.b.z.abs() > 1e-3 {
        let got = e.residual(&m.two_view());
        let (x, y) = (m.a / m.a.z, m.b / m.b.z);
        let want = y.dot(&(c.t.cross(&(c.r * x)))).abs();
        let size = x.norm() * y.norm() * c.t.norm() + 1e-300;
        cx.within("essential-residual", (got - want).abs() / size, 1e-13, || {
            format!("essential residual {got:e}, reference {want:e}")
        })?;
        if m.clean() && pose_err(c, &s.rel) < 1e-12 {
            cx.within("essential-residual-of-truth", got / size, 2e-11, || {
                "the true essential matrix does not vanish on a true match".into()
            })?;
        }
    }
    epipolar_checks(c, m, pose_err(c, &s.rel) < 1e-12, cx)?;
    reprojection_checks(c, m, cx)
}

/// The epipolar loss: the least sine by which one of the bearings, brought into one frame, has to
/// turn for the two to meet, the worst value for bearings that face apart or are no numbers.
fn epipolar_checks(c: &Rt, m: &Match, truth: bool, cx: &mut Cx) -> Res {
    let inv = c.inv();
    let b = (inv.r * m.b).normalize();
    let loss = |t: V3, a: V3, b: V3| cv_geom::epipolar::loss(t, U3::new_unchecked(a), U3::new_unchecked(b));
    let got = loss(inv.t, m.a, b);
    cx.ensure("loss-in-range", (0.0..=1.0 + 1e-12).contains(&got), || {
        format!("epipolar loss {got} of match {}", m.id)
    })?;
    let nan = loss(inv.t, m.a, V3::repeat(f64::NAN));
    cx.ensure("nan-loses-most", nan == 1.0, || format!("epipolar loss of a NaN bearing {nan}"))?;
    let facing = m.a.dot(&b);
    let dir = inv.t.normalize();
    // Sines of the angles of the bearings to the baseline.
    let (sa, sb) = (m.a.cross(&dir).norm(), b.cross(&dir).norm());
    if facing < -1e-9 {
        return cx.ensure("apart-loses-most", got == 1.0, || {
            format!("bearings facing apart lose {got}")
        });
    }
    if facing < 1e-9 || sa.max(sb) < 1e-3 {
        return Ok(());
    }
    cx.probe("epipolar-loss-compared");
    let want = m.a.cross(&b).dot(&dir).abs() / sa.max(sb);
    cx.within("epipolar-loss", (got - want).abs(), 1e-11, || {
        format!("epipolar loss {got:e}, reference {want:e}")
    })?;
    if m.clean() && truth {
        cx.within("exact-match-loses-nothing", got, 1e-11, || {
            format!("epipolar loss {got:e} of an exact match {}", m.id)
        })?;
    }
    // Neither the length of the baseline nor which camera comes first matters.
    for (what, other) in [
        ("scaled", loss(inv.t * 37.5, m.a, b)),
        ("swapped", loss(-inv.t, b, m.a)),
    ] {
        cx.within("loss-symmetric", (got - other).abs(), 1e-11, || {
            format!("{what} epipolar loss {other:e} instead of {got:e}")
        })?;
    }
    Ok(())
}

/// Reprojection errors are those of the point the triangulator gives, seen by both cameras.
fn reprojection_checks(c: &Rt, m: &Match, cx: &mut Cx) -> Res {
    if m.a.z.abs() < 1e-2 || m.b.z.abs() < 1e-2 {
        return Ok(());
    }
    let pose = CameraToCamera(c.iso());
    let tri = LinearEigenTriangulator::new();
    let got = cv_pinhole::pose_reprojection_error(pose, m.two_view(), tri);
    let avg = cv_pinhole::average_pose_reprojection_error(pose, m.two_view(), tri);
    let point = tri
        .triangulate_relative(pose, U3::new_unchecked(m.a), U3::new_unchecked(m.b))
        .map(|p| p.homogeneous());
    let want = point.and_then(|h| {
        let d = c.r * h.xyz() + c.t * h.w;
        // On the image plane itself either answer is fine.
        if h.z.abs() < 1e-9 || d.z.abs() < 1e-9 * d.norm() {
            return Some(None);
        }
        if h.z < 0.0 || d.z < 0.0 {
            return None;
        }
        Some(Some([
            m.a.xy() / m.a.z - h.xy() / h.z,
            m.b.xy() / m.b.z - d.xy() / d.z,
        ]))
    });
    cx.ensure("average-agrees", got.is_some() == avg.is_some(), || {
        "average and individual reprojection errors disagree on visibility".into()
    })?;
    match (got, want) {
        (Some(g), Some(Some(w))) => {
            cx.probe("reprojection-compared");
            let size = 1.0 + m.a.xy().norm() / m.a.z.abs() + w[0].norm() + w[1].norm();
            for i in 0..2 {
                cx.within("reprojection-error", (g[i] - w[i]).norm() / (size * size), 1e-12, || {
                    format!("reprojection error {:?}, reference {:?}", g[i], w[i])
                })?;
            }
            let mean = 0.5 * (g[0].norm() + g[1].norm());
            cx.within("average-error", (avg.unwrap() - mean).abs() / (1.0 + mean), 1e-12, || {
                format!("average {} of {mean}", avg.unwrap())
            })
        }
        (None, None) | (_, Some(None)) => Ok(()),
        (g, w) => fail(
            "reprojection-visibility",
            format!("reprojection error {g:?}, reference {w:?} for match {}", m.id),
        ),
    }
}

impl Scenario for Consensus {
    fn id(&self) -> &'static str {
        self.1
    }
    fn runs(&self, thorough: bool) -> u64 {
        let n = match self.0 {
            Mode::Eight => 25_000,
            Mode::P3p => 300_000,
            Mode::Five => 12_000,
            Mode::Score => 10_000,
        };
        if thorough {
            n * 60
        } else {
            n
        }
    }
    fn real(&self) -> &'static [&'static str] {
        match self.0 {
            Mode::Eight => &["eight-point", "cv-pinhole essential decomposition", "cv-core relative pose residual"],
            Mode::P3p => &["lambda-twist", "cv-core landmark residual"],
            Mode::Five => &["nister-stewenius", "cv-pinhole essential decomposition", "cv-core relative pose residual"],
            Mode::Score => &["cv-core residuals", "cv-pinhole essential and reprojection errors", "cv-geom linear triangulation", "eight-point"],
        }
    }
    fn stub(&self) -> &'static [&'static str] {
        &[
            "sampling loop (harness: seeded draws instead of arrsac)",
            "cameras, matcher, network, clock and checkpoint store (simulator)",
        ]
    }
    fn rule(&self) -> &'static str {
        "one case is one simulated consensus session: scene, contaminated matches, delivery order, every drawn sample, checkpoint and crash come from the seed; non-trivial when samples were drawn and judged; distinct by delivery and draw order and world"
    }
    fn floors(&self) -> &'static [(&'static str, f64)] {
        &[("scale", 1.0), ("fov", 1.0), ("omni", 0.0), ("motion", 0.0)]
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut plan = Plan::empty();
        plan.world = rng.u64();
        let points = rng.range(self.minimum() + 1, self.minimum() + if thorough { 40 } else { 24 });
        plan.set("points", points as f64);
        // Scores triangulate, and that loses digits where distances and directions differ too much.
        let (near, far) = if rng.chance(0.5) || self.id() == "C08" { (0.05, 200.0) } else { (1e-6, 1e6) };
        plan.set("scale", if rng.chance(0.6) { 1.0 } else { rng.logu(near, far) });
        plan.set("omni", f64::from(u8::from(rng.chance(0.25))));
        plan.set("motion", rng.below(4) as f64);
        // A few sessions look through a long lens.
        plan.set("fov", if rng.chance(0.85) { 1.0 } else { rng.logu(0.05, 1.0) });
        let link = Link::swarm(rng);
        let on: Vec<usize> = (1..KINDS.len()).filter(|_| rng.chance(0.5)).collect();
        let rate = if rng.chance(0.3) { 0.0 } else { rng.uni(0.0, 0.6) };
        let mut t = 0;
        for id in 0..points {
            t += rng.range(500, 20_000) as u64;
            let kind = if !on.is_empty() && rng.chance(rate) { *rng.pick(&on) } else { 0 };
            let mut a = vec![id as f64, kind as f64, rng.below(1 << 20) as f64];
            a.extend(link.fate(rng));
            plan.ops.push(Op::new(t, "match", a));
            if rng.chance(0.3) {
                plan.ops.push(Op::new(t + 1, "draw", vec![rng.below(1 << 20) as f64, 0.0]));
            }
            if rng.chance(0.05) {
                plan.ops.push(Op::new(t + 2, "ckpt", vec![]));
            }
            if rng.chance(0.04) {
                plan.ops.push(Op::new(t + 3, "crash", vec![]));
            }
        }
        for _ in 0..rng.range(1, 4) {
            t += 1000;
            plan.ops.push(Op::new(t, "draw", vec![rng.below(1 << 20) as f64, 0.0]));
        }
        // Faults stop: everything is sent again over a good link, then one lucky draw.
        t += 5_000_000;
        let clean = Link::clean(rng);
        for id in 0..points {
            let mut a = vec![id as f64, 0.0, rng.below(1 << 20) as f64];
            a.extend(clean.fate(rng));
            plan.ops.push(Op::new(t, "match", a));
        }
        t += 1_000_000;
        for _ in 0..4 {
            t += 1000;
            plan.ops.push(Op::new(t, "draw", vec![rng.below(1 << 20) as f64, 1.0]));
        }
        plan.ops.push(Op::new(t + 1, "done", vec![]));
        plan
    }
    fn run(&self, plan: &Plan, cx: &mut Cx) -> Res {
        let s = Scene::new(plan);
        let mut q: Queue<Ev> = Queue::default();
        for op in &plan.ops {
            match op.k.as_str() {
                "match" => {
                    let m = s.observe(plan, op.u(0), op.u(1), op.u(2));
                    let d = op.a.get(3..).unwrap_or(&[]);
                    note_fate(cx, d);
                    if m.kind != 0 {
                        cx.fault(KINDS[m.kind]);
                    }
                    for x in d {
                        q.push(op.t + *x as u64, Ev::Match(m));
                    }
                }
                "draw" => q.push(op.t, Ev::Draw { seed: op.u(0), clean: op.u(1) == 1 }),
                "ckpt" => q.push(op.t, Ev::Checkpoint),
                "crash" => q.push(op.t, Ev::Crash),
                "done" => q.push(op.t, Ev::Done),
                _ => {}
            }
        }
        let mut node = Node { buf: vec![], best: None };
        let mut durable: Vec<Match> = vec![];
        let mut good_draw = false;
        while let Some((t, ev)) = q.pop() {
            cx.sim_us = t;
            match ev {
                Ev::Match(m) => {
                    cx.sched(m.id as u64 * 8 + m.kind as u64);
                    node.buf.push(m);
                    cx.log(format!("match {} kind {} ({} held)", m.id, m.kind, node.buf.len()));
                    if let Some((b, c)) = node.best {
                        let r = self.score(&c, &m);
                        node.best = Some((b + if r < 1e-12 { r } else { 1.0 }, c));
                    }
                    if self.0 == Mode::Score {
                        let r = self.score(&s.rel, &m);
                        score_checks(&s, &s.rel, &m, r, cx)?;
                        // On the baseline there is no parallax to tell where a point is.
                        let parallax = m.b.cross(&s.rel.t).norm() > 1e-3 * s.rel.t.norm();
                        if m.clean() && parallax {
                            cx.within("truth-scores-zero", r.abs(), 1e-13, || {
                                format!("true pose scores {r:e} on exact match {}", m.id)
                            })?;
                        }
                    }
                }
                Ev::Draw { seed, clean } => {
                    let mut r = plan.entity("draw", seed, 0);
                    let pool: Vec<Match> = if clean {
                        // Distinct exact matches.
                        let mut v: Vec<Match> = vec![];
                        for m in node.buf.iter().filter(|m| m.clean()) {
                            if !v.iter().any(|x| x.id == m.id) {
                                v.push(*m);
                            }
                        }
                        v
                    } else {
                        node.buf.clone()
                    };
                    let n = self.minimum();
                    if pool.len() < n {
                        cx.probe("too-few-matches");
                        continue;
                    }
                    let mut ix: Vec<usize> = (0..pool.len()).collect();
                    r.shuffle(&mut ix);
                    let sample: Vec<Match> = ix[..n].iter().map(|i| pool[*i]).collect();
                    for m in &sample {
                        cx.sched(100 + m.id as u64);
                    }
                    let bad = sample.iter().filter(|m| !m.clean()).count();
                    let mut ids: Vec<_> = sample.iter().map(|m| m.id).collect();
                    ids.sort_unstable();
                    ids.dedup();
                    if ids.len() < n {
                        cx.probe("sample-with-duplicates");
                    }
                    cx.state(&[bad as u64, ids.len() as u64, node.buf.len() as u64, sample.iter().map(|m| 1 << m.kind).fold(0, |a, b| a | b)]);
                    cx.log(format!("draw {:?}, {bad} contaminated", sample.iter().map(|m| m.id).collect::<Vec<_>>()));
                    let cands = self.estimate(&s, &sample, cx)?;
                    if clean && self.good(&s, &sample) {
                        good_draw = true;
                    }
                    self.consider(&s, &mut node, &cands, cx)?;
                }
                Ev::Checkpoint => {
                    durable = node.buf.clone();
                    cx.log("checkpoint".into());
                }
                Ev::Crash => {
                    cx.fault(if node.buf.len() > durable.len() { "crash-losing-matches" } else { "crash" });
                    node.buf = durable.clone();
                    node.best = None;
                    cx.sched(7);
                    cx.log("crash and restart".into());
                }
                Ev::Done => {
                    if good_draw {
                        self.settle(&s, &node, cx)?;
                    }
                }
            }
        }
        Ok(())
    }
}

impl Consensus {
    /// Whether a clean sample determines the pose well enough for consensus to settle on it.
    fn good(&self, s: &Scene, sample: &[Match]) -> bool {
        match self.0 {
            Mode::Eight | Mode::Score => {
                sample_quality(sample, 1) > 1e-5 && sample.iter().all(|m| m.a.z.abs() > 0.05)
            }
            Mode::Five => {
                let (q, mq) = (sample_quality(sample, 4), motion_quality(&s.rel, sample));
                q > 1e-3 && 1e-9 / (mq * mq * q) < 1e-4
            }
            Mode::P3p => {
                let tri = |f: &dyn Fn(&Match) -> V3| {
                    let (x, y, z) = (f(&sample[0]), f(&sample[1]), f(&sample[2]));
                    (y - x).cross(&(z - x)).norm()
                };
                tri(&|m| m.p.xyz() / s.scale) > 0.2 && tri(&|m| m.b) > 2e-2
            }
        }
    }
}
