//! C01, C02, C03: a mapping node triangulates landmarks from observation messages that camera
//! nodes send over a faulty network, and crashes back to its last checkpoint now and then.

use super::world::{line_cost, Lines, World};
use crate::geo::*;
use crate::rng::Rng;
use crate::runner::Scenario;
use crate::sim::*;
use cv_core::nalgebra::{Matrix3x4, Matrix4};
use cv_core::{
    CameraToCamera, Projective, TriangulatorObservations, TriangulatorRelative, WorldToCamera,
};
use cv_geom::triangulation::*;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Sound,
    Exact,
    Noisy,
}

pub struct Stream(Mode, &'static str);
pub static C01: Stream = Stream(Mode::Sound, "C01");
pub static C02: Stream = Stream(Mode::Exact, "C02");
pub static C03: Stream = Stream(Mode::Noisy, "C03");

const KINDS: [&str; 9] = [
    "clean",
    "noise",
    "outlier",
    "mirrored-bearing",
    "wrong-association",
    "stale-pose",
    "nan-observation",
    "shared-center",
    "landmark-at-infinity",
];

#[derive(Clone, Copy, Debug)]
struct Obs {
    cam: usize,
    pose: Rt,
    b: V3,
    clean: bool,
}

impl Obs {
    fn pair(&self) -> (WorldToCamera, U3) {
        (
            WorldToCamera(self.pose.iso()),
            U3::new_unchecked(self.b),
        )
    }
    fn line(&self) -> (Rt, V3) {
        (self.pose, self.b)
    }
}

/// Landmarks at infinity that an exact session ends with.
const STARS: usize = 44;

enum Ev {
    Obs(usize, Obs),
    Star(usize),
    Dawn,
    Checkpoint,
    Crash,
    Heal,
}

fn observe(plan: &Plan, w: &World, op: &Op) -> Obs {
    let (cam, lm, kind) = (op.u(0), op.u(1), op.u(2));
    let mut r = plan.entity("obs", op.u(3), cam * 1000 + lm);
    let mut pose = w.cams[cam];
    let truth = w.bearing(cam, lm);
    let mut b = truth;
    match kind {
        1 => {
            let s = *r.pick(&[1e-9, 1e-6, 1e-4, 1e-3, 1e-2]);
            let a = s * r.normal();
            b = tilt(&truth, a, &mut r);
        }
        2 => b = rand_unit(&mut r),
        3 => b = -truth,
        4 => b = w.bearing(cam, r.below(w.lms.len())),
        5 => {
            let a = r.logu(1e-4, 1.0);
            let s = r.logu(1e-4, 3.0) * w.scale;
            pose = Rt {
                r: rodrigues(&rand_unit(&mut r), a) * pose.r,
                t: pose.t + rand_unit(&mut r) * s,
            };
        }
        6 => b = V3::repeat(f64::NAN),
        7 => {
            // Another orientation at the optical center of camera 0.
            let m = rand_rot(&mut r);
            pose = Rt {
                r: m,
                t: -(m * w.cams[0].center()),
            };
            b = pose.apply(&w.lms[lm]).normalize();
        }
        8 => {
            let mut d = plan.entity("star", lm, 0);
            b = pose.r * rand_unit(&mut d);
        }
        _ => {}
    }
    Obs {
        cam,
        pose,
        b,
        clean: kind == 0,
    }
}

fn unit_of(obs: &[Obs]) -> f64 {
    obs.iter().map(|o| o.pose.t.norm()).fold(1e-300, f64::max)
}

/// The 4x4 form whose null vector is the homogeneous point, built by the harness to know how well
/// posed the triangulation is: ratio of its largest eigenvalue to the gap between its two smallest.
fn posedness(obs: &[Obs]) -> f64 {
    posedness_in(obs, unit_of(obs))
}

fn posedness_in(obs: &[Obs], unit: f64) -> f64 {
    let mut m = Matrix4::<f64>::zeros();
    for o in obs {
        let p = Matrix3x4::from_columns(&[
            o.pose.r.column(0).into_owned(),
            o.pose.r.column(1).into_owned(),
            o.pose.r.column(2).into_owned(),
            o.pose.t / unit,
        ]);
        let t = p - o.b * (o.b.transpose() * p);
        m += t.transpose() * t;
    }
    let mut e: Vec<f64> = m.symmetric_eigenvalues().iter().copied().collect();
    e.sort_by(f64::total_cmp);
    e[3] / (e[1] - e[0]).max(1e-300)
}

/// How accurate the linear methods can be in double precision, in the natural unit of length; they
/// work in the unit of the poses.
fn linear_tol(obs: &[Obs]) -> f64 {
    let unit = unit_of(obs);
    3e-6 + 1e-9 * posedness(obs) + 1e-15 * posedness_in(obs, 1.0) * unit.max(1.0)
}

fn angle4(a: &V4, b: &V4) -> f64 {
    let (a, b) = (a / a.norm(), b / b.norm());
    let s = if a.dot(&b) < 0.0 { -1.0 } else { 1.0 };
    // Chord length, accurate for small angles.
    (a - b * s).norm() + if s < 0.0 && a.w != 0.0 { 2.0 } else { 0.0 }
}

/// What every returned point must satisfy.
fn sound(cx: &mut Cx, who: &'static str, h: &V4, obs: &[Obs], world: f64) -> Res {
    cx.ensure("finite-point", h.iter().all(|x| x.is_finite()), || {
        format!("{who} returned {h:?}")
    })?;
    cx.within("normalised-point", (h.xyz().norm() - 1.0).abs(), 1e-9, || {
        format!("{who} returned a bearing that is not of unit length: {h:?}")
    })?;
    cx.ensure("positive-w", h.w >= 0.0, || format!("{who} returned {h:?}"))?;
    for o in obs {
        let d = o.pose.r * h.xyz() + o.pose.t * h.w;
        // The relative poses carry rounding errors of the size of the world coordinates.
        let tol = 1e-9 * (1.0 + o.pose.t.norm() * h.w) + 1e-13 * world * h.w;
        let c = o.b.dot(&d);
        cx.ensure("in-front", c >= -tol, || {
            format!(
                "{who} accepted {h:?}, which is behind camera {} along its observation ({c:e})",
                o.cam
            )
        })?;
    }
    Ok(())
}

struct Answer {
    who: &'static str,
    /// Homogeneous point in the world frame.
    h: Option<V4>,
}

fn multi(obs: &[Obs]) -> Vec<Answer> {
    let it = || obs.iter().map(Obs::pair);
    let w = |p: Option<cv_core::WorldPoint>| p.map(|p| p.homogeneous());
    vec![
        Answer {
            who: "linear-eigen",
            h: w(LinearEigenTriangulator::new().triangulate_observations(it())),
        },
        Answer {
            who: "sine-l1",
            h: w(SineL1Triangulator::new().triangulate_observations(it())),
        },
        Answer {
            who: "mean-mean",
            h: w(MeanMeanTriangulator.triangulate_observations(it())),
        },
    ]
}

/// The multi-view kernels through the camera-relative entry point; points in the frame of the
/// first observer.
fn to_camera(obs: &[Obs]) -> Vec<Answer> {
    let a = obs[0];
    let rel = |o: &Obs| {
        (
            CameraToCamera(o.pose.after(&a.pose.inv()).iso()),
            U3::new_unchecked(o.b),
        )
    };
    let it = || obs[1..].iter().map(rel);
    let ba = U3::new_unchecked(a.b);
    let c = |p: Option<cv_core::CameraPoint>| p.map(|p| p.homogeneous());
    vec![
        Answer {
            who: "linear-eigen-to-camera",
            h: c(LinearEigenTriangulator::new().triangulate_observations_to_camera(ba, it())),
        },
        Answer {
            who: "sine-l1-to-camera",
            h: c(SineL1Triangulator::new().triangulate_observations_to_camera(ba, it())),
        },
        Answer {
            who: "mean-mean-to-camera",
            h: c(MeanMeanTriangulator.triangulate_observations_to_camera(ba, it())),
        },
    ]
}

/// Two-view kernels; points in the frame of `a`.
fn relative(a: &Obs, b: &Obs) -> Vec<Answer> {
    let rel = CameraToCamera(b.pose.after(&a.pose.inv()).iso());
    let (x, y) = (U3::new_unchecked(a.b), U3::new_unchecked(b.b));
    let c = |p: Option<cv_core::CameraPoint>| p.map(|p| p.homogeneous());
    vec![
        Answer {
            who: "linear-eigen-relative",
            h: c(LinearEigenTriangulator::new().triangulate_relative(rel, x, y)),
        },
        Answer {
            who: "sine-l1-relative",
            h: c(SineL1Triangulator::new().triangulate_relative(rel, x, y)),
        },
        Answer {
            who: "mean-mean-relative",
            h: c(MeanMeanTriangulator.triangulate_relative(rel, x, y)),
        },
        Answer {
            who: "relative-dlt",
            h: c(RelativeDltTriangulator::new().triangulate_relative(rel, x, y)),
        },
        Answer {
            who: "angular-l1",
            h: c(AngularL1Triangulator.triangulate_relative(rel, x, y)),
        },
        Answer {
            who: "angular-linfinity",
            h: c(AngularLInfinityTriangulator.triangulate_relative(rel, x, y)),
        },
    ]
}

/// Observations re-expressed so that the first observer's camera is the world frame.
fn in_frame_of_first(obs: &[Obs]) -> Vec<Obs> {
    let inv = obs[0].pose.inv();
    let mut local: Vec<Obs> = obs
        .iter()
        .map(|o| Obs {
            pose: o.pose.after(&inv),
            ..*o
        })
        .collect();
    local[0].pose = Rt::identity();
    local
}

fn last_two(obs: &[Obs]) -> Option<(Obs, Obs)> {
    let b = *obs.last()?;
    let a = *obs.iter().rev().find(|o| {
        o.cam != b.cam && (o.pose.center() - b.pose.center()).norm() > 0.0
    })?;
    Some((a, b))
}

impl Stream {
    fn check(&self, plan: &Plan, w: &World, lm: usize, obs: &[Obs], cx: &mut Cx) -> Res {
        match self.0 {
            Mode::Sound => self.check_sound(obs, cx),
            Mode::Exact => check_exact(w, lm, obs, cx),
            Mode::Noisy => check_noisy(plan, w, lm, obs, cx),
        }
    }

    fn check_sound(&self, obs: &[Obs], cx: &mut Cx) -> Res {
        let answers = multi(obs);
        let world = unit_of(obs);
        for a in &answers {
            note(cx, a);
            if let Some(h) = &a.h {
                cx.ensure("two-observations-needed", obs.len() >= 2, || {
                    format!("{} returned a point from {} observations", a.who, obs.len())
                })?;
                sound(cx, a.who, h, obs, world)?;
            }
        }
        if obs.iter().any(|o| o.b.iter().any(|x| x.is_nan())) {
            cx.probe("nan-in-history");
            for a in &answers {
                cx.ensure("nan-refused", a.h.is_none(), || {
                    format!("{} returned a point although an observation is NaN", a.who)
                })?;
            }
        }
        if obs.len() >= 2 {
            let local = in_frame_of_first(obs);
            for a in to_camera(obs) {
                note(cx, &a);
                if let Some(h) = &a.h {
                    sound(cx, a.who, h, &local, world)?;
                }
            }
        }
        if let Some((a, b)) = last_two(obs) {
            let local = in_frame_of_first(&[a, b]);
            for ans in relative(&a, &b) {
                note(cx, &ans);
                if let Some(h) = &ans.h {
                    sound(cx, ans.who, h, &local, world)?;
                }
            }
        }
        Ok(())
    }
}

fn note(cx: &mut Cx, a: &Answer) {
    match &a.h {
        Some(h) => {
            cx.log(format!("{} {}", a.who, bits(h.iter())));
            cx.probe("point-accepted");
        }
        None => {
            cx.log(format!("{} none", a.who));
            cx.probe("point-refused");
        }
    }
}

fn check_exact(w: &World, lm: usize, obs: &[Obs], cx: &mut Cx) -> Res {
    if !obs.iter().all(|o| o.clean) {
        cx.probe("history-still-faulty");
        return Ok(());
    }
    let p = w.lms[lm];
    let recovered = |cx: &mut Cx, a: &Answer, truth: V4, unit: f64, tol: f64| -> Res {
        note(cx, a);
        cx.ensure("point-recovered", a.h.is_some(), || {
            format!(
                "{} refused exact observations of a visible landmark from {} observations",
                a.who,
                obs.len()
            )
        })?;
        let h = a.h.unwrap();
        // Compared in the natural unit of the problem, the largest camera translation.
        let natural = |h: &V4| V4::new(h.x, h.y, h.z, h.w * unit);
        cx.within(a.who, angle4(&natural(&h), &natural(&truth)), tol, || {
            format!("{} returned {h:?} for {truth:?}", a.who)
        })
    };
    let k = posedness(obs);
    if k < 1e8 {
        cx.probe("well-posed-multi-view");
        for a in multi(obs).into_iter().take(2) {
            recovered(cx, &a, p.push(1.0), unit_of(obs), linear_tol(obs))?;
        }
        let local = in_frame_of_first(obs);
        let k = posedness(&local);
        if k < 1e8 {
            let q = local[0].pose.after(&obs[0].pose).apply(&p);
            for a in to_camera(obs).into_iter().take(2) {
                recovered(cx, &a, q.push(1.0), unit_of(&local), linear_tol(&local))?;
            }
        }
    } else {
        cx.probe("ill-posed-multi-view");
    }
    if let Some((a, b)) = last_two(obs) {
        let local = in_frame_of_first(&[a, b]);
        let k = posedness(&local);
        let q = a.pose.apply(&p);
        let base = b.pose.center() - a.pose.center();
        let (da, db) = (p - a.pose.center(), p - b.pose.center());
        let par = ang(&da, &db).sin();
        let off = (da.cross(&base).norm() / da.norm()).min(db.cross(&base).norm() / db.norm())
            / base.norm();
        if k < 1e8 {
            for (i, ans) in relative(&a, &b).iter().enumerate() {
                match i {
                    0 | 1 => recovered(cx, ans, q.push(1.0), unit_of(&local), linear_tol(&local))?,
                    // The direct linear method needs image coordinates on both image planes.
                    3 if a.b.z.abs() > 0.3 && b.b.z.abs() > 0.3 => {
                        recovered(cx, ans, q.push(1.0), unit_of(&local), 1e-10 + 1e-13 * posedness(&local))?
                    }
                    4 | 5 if par > 1e-3 && off > 1e-3 => {
                        cx.probe("well-posed-angular");
                        recovered(cx, ans, q.push(1.0), unit_of(&local), 1e-13 / (par * par * off))?
                    }
                    _ => {}
                }
            }
        }
    }
    Ok(())
}

/// Landmarks at infinity: their direction is exact or they are refused, since rounding decides on
/// which side of infinity the linear methods see them.
#[derive(Default)]
struct Stars {
    seen: [u32; 2],
    shown: u32,
}

impl Stars {
    fn look(&mut self, plan: &Plan, w: &World, seed: usize, cx: &mut Cx) -> Res {
        let mut r = plan.entity("night", seed, 0);
        let d = rand_unit(&mut r);
        let n = r.range(2, 6);
        let obs: Vec<Obs> = (0..n)
            .map(|cam| {
                let m = rand_rot(&mut r);
                let c = rand_unit(&mut r) * r.uni(0.5, 3.0) * w.scale;
                Obs { cam, pose: Rt { r: m, t: -(m * c) }, b: m * d, clean: true }
            })
            .collect();
        let k = posedness(&obs);
        if k > 1e4 {
            return Ok(());
        }
        self.shown += 1;
        cx.probe("landmark-at-infinity");
        let unit = unit_of(&obs);
        for (i, ans) in multi(&obs).into_iter().take(2).enumerate() {
            note(cx, &ans);
            if let Some(h) = ans.h {
                self.seen[i] += 1;
                let e = (h.xyz() - d).norm().max(h.w * unit);
                cx.within("direction-at-infinity", e, linear_tol(&obs), || {
                    format!("{} gave {h:?} for a landmark at infinity along {d:?}", ans.who)
                })?;
            }
        }
        Ok(())
    }
    fn judge(&self, cx: &mut Cx) -> Res {
        cx.log(format!("stars {} {:?}", self.shown, self.seen));
        if self.shown < 40 {
            return Ok(());
        }
        // Each is refused about every other time.
        cx.ensure("stars-are-seen", self.seen.iter().all(|s| *s > 0), || {
            format!("of {} exactly observed landmarks at infinity the methods returned {:?}", self.shown, self.seen)
        })
    }
}

fn check_noisy(plan: &Plan, w: &World, lm: usize, obs: &[Obs], cx: &mut Cx) -> Res {
    if obs.len() < 2 {
        return Ok(());
    }
    let lines = Lines::of(obs.iter().map(Obs::line));
    let cur = lines.curvature();
    let k = posedness(obs);
    // Noise of a few hundredths must not be mistaken for parallax.
    let p = w.lms[lm];
    let parallax = obs
        .iter()
        .map(|o| ang(&(p - o.pose.center()), &(p - obs[0].pose.center())).sin())
        .fold(0.0, f64::max);
    if k > 1e5 || cur < 1e-4 || parallax < 0.1 {
        cx.probe("ill-posed");
        return Ok(());
    }
    // Arrival order must not matter.
    let mut other = obs.to_vec();
    let mut r = plan.entity("perm", lm, obs.len());
    r.shuffle(&mut other);
    let (x, y) = (multi(obs), multi(&other));
    for (a, b) in x.iter().zip(&y) {
        note(cx, a);
        match (&a.h, &b.h) {
            (Some(p), Some(q)) => {
                // The mean method divides by nearly parallel cross products.
                if a.who != "mean-mean" {
                    cx.within("order-insensitive", angle4(p, q), 1e-7 + 1e-9 * k / cur, || {
                        format!("{} depends on arrival order: {p:?} or {q:?}", a.who)
                    })?;
                }
            }
            (None, None) => {}
            (p, q) => {
                // Only a point on the edge of being refused may flip.
                let h = p.or(*q).unwrap();
                let edge = obs
                    .iter()
                    .map(|o| (o.pose.r * h.xyz() + o.pose.t * h.w).normalize().dot(&o.b))
                    .fold(f64::INFINITY, f64::min);
                cx.ensure(
                    "order-insensitive-verdict",
                    edge < 1e-3 || h.w < 1e-6 || a.who == "mean-mean",
                    || format!("{} accepts or refuses {h:?} depending on arrival order (edge {edge:e}, k {k:e}, cur {cur:e})", a.who),
                )?;
            }
        }
    }
    check_mean(obs, &x[2], cx)?;
    check_refinement(plan, lm, obs, &lines, cur, k, cx)?;
    if let Some((a, b)) = last_two(obs) {
        check_angular(w, lm, &a, &b, cx)?;
    }
    Ok(())
}

/// The mean method puts the point on the ray from the mean camera center along the mean bearing, at
/// the mean of the distances at which that ray comes closest to each observation's ray.
fn check_mean(obs: &[Obs], got: &Answer, cx: &mut Cx) -> Res {
    let n = obs.len() as f64;
    let rays: Vec<(V3, V3)> = obs
        .iter()
        .map(|o| (o.pose.center(), o.pose.r.transpose() * o.b))
        .collect();
    let c = rays.iter().map(|x| x.0).sum::<V3>() / n;
    let d = rays.iter().map(|x| x.1).sum::<V3>().normalize();
    let sharp = rays.iter().map(|x| d.cross(&x.1).norm()).fold(1.0, f64::min);
    if sharp < 1e-2 {
        cx.probe("mean-ill-posed");
        return Ok(());
    }
    // Where the mean ray comes closest to a ray, from the normal equations of the two distances.
    let at = |o: &V3, b: &V3| {
        let v = o - c;
        let k = d.dot(b);
        (v.dot(&d) - k * v.dot(b)) / (1.0 - k * k)
    };
    let s = rays.iter().map(|(o, b)| at(o, b)).sum::<f64>() / n;
    let p = c + d * s;
    let size = rays.iter().map(|x| (x.0 - c).norm()).fold(c.norm(), f64::max);
    let facing = obs
        .iter()
        .map(|o| o.pose.apply(&p).normalize().dot(&o.b))
        .fold(f64::INFINITY, f64::min);
    match got.h {
        Some(h) => {
            cx.probe("mean-compared");
            let q = h.xyz() / h.w;
            cx.within("mean-distance", (q - p).norm(), (5e-14 / (sharp * sharp)) * (size + s.abs()), || {
                format!("the mean method gives {q:?}, the mean of {} rays is {p:?} (sharp {sharp:e})", obs.len())
            })
        }
        None => cx.ensure("mean-refused-in-view", facing < 1e-6 || s < 1e-6 * size, || {
            format!("the mean method refused {p:?}, which every camera sees")
        }),
    }
}

/// The refinement is steepest descent on the mean squared point-to-line distance, so whenever the
/// budget expires it is no worse than with a smaller budget, and it contracts towards the minimum.
fn check_refinement(
    plan: &Plan,
    lm: usize,
    obs: &[Obs],
    lines: &Lines,
    cur: f64,
    k: f64,
    cx: &mut Cx,
) -> Res {
    let it = || obs.iter().map(Obs::pair);
    let Some(lin) = LinearEigenTriangulator::new()
        .triangulate_observations(it())
        .and_then(|p| p.point())
    else {
        return Ok(());
    };
    let Some(best) = lines.closest() else {
        return Ok(());
    };
    let size = best.norm() + obs.iter().map(|o| (best - o.pose.center()).norm()).fold(0.0, f64::max);
    if lin.coords.norm() > 1e3 * size {
        cx.probe("near-infinite-start");
        return Ok(());
    }
    let mut r = plan.entity("refine", lm, obs.len());
    let rate = if r.chance(0.5) { 1.0 } else { r.uni(0.05, 1.0) };
    let mut budgets: Vec<usize> = (0..3).map(|_| r.range(20, 400)).collect();
    budgets.push(1000);
    budgets.sort_unstable();
    let cost = |p: &V3| line_cost(p, obs.iter().map(Obs::line));
    let noise = 1e-9 * size + 1e-11 * k * size;
    let floor = noise * noise;
    let mut prev = (lin.coords - best).norm();
    let start = prev;
    let mut prev_cost = cost(&lin.coords);
    for n in budgets {
        let p = SineL1Triangulator::new()
            .max_iterations(n)
            .optimization_rate(rate)
            .triangulate_observations(it())
            .and_then(|p| p.point());
        let Some(p) = p else {
            cx.probe("refinement-refused");
            continue;
        };
        cx.probe("refined");
        let d = (p.coords - best).norm();
        let c = cost(&p.coords);
        cx.log(format!("refine {n} {}", bits(p.coords.iter())));
        cx.within(
            "refinement-never-worse",
            c - prev_cost,
            prev_cost * 1e-6 + floor,
            || format!("a budget of {n} iterations gave a worse point than a smaller one"),
        )?;
        cx.within("refinement-approaches", d - prev, prev * 1e-6 + noise, || {
            format!("a budget of {n} iterations moved away from the optimum")
        })?;
        let factor = (1.0 - rate * cur).powi(n as i32);
        let stop = 1e-12 * size / (rate * cur);
        cx.within(
            "refinement-converges",
            d,
            10.0 * (factor * start + stop) + noise,
            || format!("{n} iterations at rate {rate} left the point too far from the optimum"),
        )?;
        prev = d.min(prev);
        prev_cost = c.min(prev_cost);
    }
    Ok(())
}

/// The two-view angular methods are optimal: no other point explains both bearings with less
/// angular error, the true landmark and the linear answer included.
fn check_angular(w: &World, lm: usize, a: &Obs, b: &Obs, cx: &mut Cx) -> Res {
    let local = in_frame_of_first(&[*a, *b]);
    let rel = local[1].pose;
    let errs = |h: &V4| -> (f64, f64) {
        let d = rel.r * h.xyz() + rel.t * h.w;
        (ang(&h.xyz(), &a.b), ang(&d, &b.b))
    };
    let base = (b.pose.center() - a.pose.center()).normalize();
    let (da, db) = (a.pose.r.transpose() * a.b, b.pose.r.transpose() * b.b);
    if ang(&da, &db) < 0.02 || da.cross(&base).norm() < 0.05 || db.cross(&base).norm() < 0.05 {
        cx.probe("angular-ill-posed");
        return Ok(());
    }
    let answers = relative(a, b);
    let truth = a.pose.apply(&w.lms[lm]).push(1.0);
    let mut rivals = vec![truth];
    rivals.extend([0, 1, 3].iter().filter_map(|i| answers[*i].h));
    for ans in &answers {
        note(cx, ans);
    }
    // Points a little beside an answer.
    let beside = |h: &V4| -> Vec<V4> {
        let (x, y) = errs(h);
        let mut r = Rng::of(&[h.x.to_bits(), h.y.to_bits()]);
        (0..8)
            .map(|i| {
                let step = h.xyz().norm() * (x + y) * 10f64.powi(-(i % 4));
                (h.xyz() + rand_unit(&mut r) * step).push(h.w)
            })
            .collect()
    };
    if let Some(h) = answers[4].h {
        cx.probe("angular-l1-optimum");
        let (x, y) = errs(&h);
        for q in rivals.iter().chain(answers[5].h.iter()).chain(&beside(&h)) {
            let (u, v) = errs(q);
            cx.within("angular-l1-optimal", x + y - (u + v), 1e-12, || {
                format!("angular-l1 explains the bearings worse ({x:e}+{y:e}) than another point ({u:e}+{v:e})")
            })?;
        }
    }
    if let Some(h) = answers[5].h {
        // The linear methods minimise an algebraic error, which is within a small factor of the best.
        let (x, y) = errs(&h);
        for (i, name, factor) in [
            (0, "linear-near-optimal", 40.0),
            (1, "sine-l1-near-optimal", 40.0),
            (3, "dlt-near-optimal", 100.0),
        ] {
            // The direct linear method needs image coordinates on both image planes.
            if i == 3 && (a.b.z.abs() < 0.3 || b.b.z.abs() < 0.3) {
                continue;
            }
            if let Some(q) = answers[i].h {
                let (u, v) = errs(&q);
                cx.within(name, u.max(v), factor * x.max(y) + 1e-6, || {
                    format!("{} is off by {:e} where {:e} is possible", answers[i].who, u.max(v), x.max(y))
                })?;
            } else {
                cx.ensure("point-refused-under-noise", x.max(y) > 0.01, || {
                    format!("{} refused a landmark that explains both bearings to {:e}", answers[i].who, x.max(y))
                })?;
            }
        }
        cx.probe("angular-linfinity-optimum");
        let (x, y) = errs(&h);
        for q in rivals.iter().chain(answers[4].h.iter()).chain(&beside(&h)) {
            let (u, v) = errs(q);
            cx.within("angular-linfinity-optimal", x.max(y) - u.max(v), 1e-12, || {
                format!("angular-linfinity explains the bearings worse (max {:e}) than another point ({:e})", x.max(y), u.max(v))
            })?;
        }
    }
    Ok(())
}

impl Scenario for Stream {
    fn id(&self) -> &'static str {
        self.1
    }
    fn runs(&self, thorough: bool) -> u64 {
        let n = match self.0 {
            Mode::Sound => 100_000,
            Mode::Exact => 80_000,
            Mode::Noisy => 30_000,
        };
        if thorough {
            n * 60
        } else {
            n
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &[
            "cv-geom triangulation (all kernels) and epipolar point gradient",
            "cv-core poses, projective points and triangulation traits",
        ]
    }
    fn stub(&self) -> &'static [&'static str] {
        &[
            "camera nodes, network, clock and checkpoint store (simulator)",
            "mapping node's bookkeeping (harness: one observation list per landmark)",
        ]
    }
    fn rule(&self) -> &'static str {
        "one case is one simulated session: cameras, landmarks and every message, fault, delay, duplicate, checkpoint and crash drawn from the seed; non-trivial when observations were delivered and the oracle judged at least one answer; distinct by delivery order and world"
    }
    fn floors(&self) -> &'static [(&'static str, f64)] {
        &[("scale", 1.0), ("shift", 0.0), ("omni", 0.0), ("layout", 0.0)]
    }

    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut plan = Plan {
            property: String::new(),
            origin: String::new(),
            world: 0,
            knobs: Default::default(),
            ops: vec![],
        };
        World::knobs(&mut plan, rng, (2, 6), (1, if thorough { 8 } else { 5 }));
        if self.0 == Mode::Exact {
            plan.set("far", if rng.chance(0.7) { 1.0 } else { rng.logu(2.0, 3e3) });
        }
        let cams = plan.ku("cams");
        let lms = plan.ku("lms");
        let link = Link::swarm(rng);
        // Which faults this run may inject, and how often.
        let on: Vec<usize> = (1..KINDS.len()).filter(|_| rng.chance(0.5)).collect();
        let rate = match self.0 {
            Mode::Sound => rng.uni(0.0, 0.8),
            Mode::Exact => {
                if rng.chance(0.4) {
                    0.0
                } else {
                    rng.uni(0.0, 0.4)
                }
            }
            Mode::Noisy => rng.uni(0.3, 1.0),
        };
        let n = rng.range(4, if thorough { 60 } else { 30 });
        let mut t = 0;
        for _ in 0..n {
            t += rng.range(1_000, 60_000) as u64;
            let kind = match self.0 {
                Mode::Noisy => usize::from(rng.chance(rate)),
                _ if !on.is_empty() && rng.chance(rate) => *rng.pick(&on),
                _ => 0,
            };
            let mut a = vec![
                rng.below(cams) as f64,
                rng.below(lms) as f64,
                kind as f64,
                rng.below(1 << 20) as f64,
            ];
            a.extend(link.fate(rng));
            plan.ops.push(Op::new(t, "obs", a));
            if rng.chance(0.06) {
                plan.ops.push(Op::new(t + 1, "ckpt", vec![]));
            }
            if rng.chance(0.04) {
                plan.ops.push(Op::new(t + 2, "crash", vec![]));
            }
        }
        if self.0 == Mode::Exact {
            // Faults stop: what was corrupt is thrown away and every camera sends again.
            t += 5_000_000;
            plan.ops.push(Op::new(t, "heal", vec![]));
            let clean = Link::clean(rng);
            for c in 0..cams {
                for l in 0..lms {
                    let mut a = vec![c as f64, l as f64, 0.0, rng.below(1 << 20) as f64];
                    a.extend(clean.fate(rng));
                    plan.ops.push(Op::new(t + 1, "obs", a));
                }
            }
            // Then the cameras look at the stars.
            for _ in 0..STARS {
                plan.ops.push(Op::new(t + 1_000_000, "star", vec![rng.below(1 << 20) as f64]));
            }
            plan.ops.push(Op::new(t + 1_000_001, "dawn", vec![]));
        }
        plan
    }

    fn run(&self, plan: &Plan, cx: &mut Cx) -> Res {
        let w = World::new(plan);
        let mut q: Queue<Ev> = Queue::default();
        for op in &plan.ops {
            match op.k.as_str() {
                "obs" => {
                    let o = observe(plan, &w, op);
                    let d = op.a.get(4..).unwrap_or(&[]);
                    note_fate(cx, d);
                    if op.u(2) != 0 {
                        cx.fault(KINDS[op.u(2)]);
                    }
                    for x in d {
                        q.push(op.t + *x as u64, Ev::Obs(op.u(1), o));
                    }
                }
                "ckpt" => q.push(op.t, Ev::Checkpoint),
                "crash" => q.push(op.t, Ev::Crash),
                "heal" => q.push(op.t, Ev::Heal),
                "star" => q.push(op.t, Ev::Star(op.u(0))),
                "dawn" => q.push(op.t, Ev::Dawn),
                _ => {}
            }
        }
        let mut map: Vec<Vec<Obs>> = vec![vec![]; w.lms.len()];
        let mut durable = map.clone();
        let mut stars = Stars::default();
        while let Some((t, ev)) = q.pop() {
            cx.sim_us = t;
            match ev {
                Ev::Obs(l, o) => {
                    if map[l].len() >= 40 {
                        continue;
                    }
                    cx.sched((l * 64 + o.cam) as u64 + 1000 * u64::from(o.clean));
                    map[l].push(o);
                    let sig: Vec<u64> = map[l].iter().map(|o| o.cam as u64 * 2 + u64::from(o.clean)).collect();
                    cx.state(&sig);
                    cx.log(format!("deliver camera {} landmark {l} ({} held)", o.cam, map[l].len()));
                    self.check(plan, &w, l, &map[l], cx)?;
                }
                Ev::Checkpoint => {
                    durable = map.clone();
                    cx.log("checkpoint".into());
                }
                Ev::Crash => {
                    if map.iter().map(Vec::len).sum::<usize>()
                        > durable.iter().map(Vec::len).sum::<usize>()
                    {
                        cx.fault("crash-losing-observations");
                    } else {
                        cx.fault("crash");
                    }
                    map = durable.clone();
                    cx.sched(7);
                    cx.log("crash and restart".into());
                    for l in 0..map.len() {
                        if !map[l].is_empty() {
                            self.check(plan, &w, l, &map[l], cx)?;
                        }
                    }
                }
                Ev::Star(seed) => stars.look(plan, &w, seed, cx)?,
                Ev::Dawn => stars.judge(cx)?,
                Ev::Heal => {
                    for l in &mut map {
                        l.retain(|o| o.clean);
                    }
                    durable = map.clone();
                    cx.log("faults stop".into());
                }
            }
        }
        Ok(())
    }
}
