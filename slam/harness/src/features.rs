//! C14, C15, C16: feature extraction under a simulated camera and a simulated thread pool.

use crate::frames::*;
use crate::reference as model;
use akaze::{Akaze, KeyPoint};
use bitarray::BitArray;
use cvsim::rng::Rng;
use cvsim::runner::Scenario;
use cvsim::sim::*;
use image::DynamicImage;
use rayon::sim::Order;

pub struct Schedules;
pub struct AnyFrame;
pub struct Truth;
pub static C14: Schedules = Schedules;
pub static C15: AnyFrame = AnyFrame;
pub static C16: Truth = Truth;

type Found = (Vec<KeyPoint>, Vec<BitArray<64>>);

fn settings(plan: &Plan) -> Akaze {
    Akaze {
        maximum_features: usize::MAX,
        num_sublevels: plan.ku("sublevels") as u32,
        max_octave_evolution: plan.ku("octaves") as u32,
        base_scale_offset: plan.k("offset"),
        contrast_percentile: plan.k("percentile"),
        contrast_factor_num_bins: plan.ku("bins"),
        derivative_factor: plan.k("derivative"),
        descriptor_channels: plan.ku("channels"),
        descriptor_pattern_size: plan.ku("pattern"),
        ..Akaze::new(plan.k("threshold"))
    }
}
fn parallel(a: &Akaze) -> akaze_par::Akaze {
    akaze_par::Akaze {
        maximum_features: a.maximum_features,
        num_sublevels: a.num_sublevels,
        max_octave_evolution: a.max_octave_evolution,
        base_scale_offset: a.base_scale_offset,
        initial_contrast: a.initial_contrast,
        contrast_percentile: a.contrast_percentile,
        contrast_factor_num_bins: a.contrast_factor_num_bins,
        derivative_factor: a.derivative_factor,
        detector_threshold: a.detector_threshold,
        descriptor_channels: a.descriptor_channels,
        descriptor_pattern_size: a.descriptor_pattern_size,
    }
}
fn reference(a: &Akaze) -> model::Settings {
    model::Settings {
        sublevels: a.num_sublevels,
        octaves: a.max_octave_evolution,
        offset: a.base_scale_offset,
        percentile: a.contrast_percentile,
        bins: a.contrast_factor_num_bins,
        derivative: a.derivative_factor,
        threshold: a.detector_threshold,
        channels: a.descriptor_channels,
        pattern: a.descriptor_pattern_size,
    }
}

fn line(k: &KeyPoint) -> [u64; 7] {
    [
        k.point.0.to_bits() as u64,
        k.point.1.to_bits() as u64,
        k.response.to_bits() as u64,
        k.size.to_bits() as u64,
        k.octave as u64,
        k.class_id as u64,
        k.angle.to_bits() as u64,
    ]
}
fn serialised(f: &Found) -> Vec<([u64; 7], Vec<u8>)> {
    f.0.iter().zip(&f.1).map(|(k, d)| (line(k), d.bytes().to_vec())).collect()
}
fn of_par(f: (Vec<akaze_par::KeyPoint>, Vec<BitArray<64>>)) -> Found {
    let k = f
        .0
        .iter()
        .map(|k| KeyPoint {
            point: k.point,
            response: k.response,
            size: k.size,
            octave: k.octave,
            class_id: k.class_id,
            angle: k.angle,
        })
        .collect();
    (k, f.1)
}

/// The plan of a session: a camera that moves over a scene, and what happens to its frames.
fn session(r: &mut Rng, plan: &mut Plan, frames: usize, faults: f64) {
    plan.world = r.u64();
    let (w, h) = match r.below(24) {
        0 | 1 => (r.range(40, 90), r.range(40, 90)),
        2..=6 => (r.range(160, 220), r.range(90, 130)),
        7 => (r.range(240, 330), r.range(240, 330)),
        _ => (r.range(100, 160), r.range(100, 160)),
    };
    plan.set("w", w as f64);
    plan.set("h", h as f64);
    plan.set("span", w.max(h) as f64);
    plan.set("scene", r.below(4) as f64);
    plan.set("things", r.range(5, 120) as f64);
    plan.set("contrast", r.logu(0.05, 0.6));
    plan.set("threshold", r.logu(3e-6, 3e-3));
    plan.set("sublevels", if r.chance(0.6) { 4.0 } else { r.range(1, 6) as f64 });
    plan.set("octaves", if r.chance(0.6) { 4.0 } else { r.range(1, 5) as f64 });
    plan.set("offset", if r.chance(0.6) { 1.6 } else { r.uni(1.0, 2.4) });
    plan.set("derivative", if r.chance(0.6) { 1.5 } else { r.uni(1.0, 2.0) });
    plan.set("percentile", if r.chance(0.6) { 0.7 } else { r.uni(0.3, 0.95) });
    plan.set("bins", if r.chance(0.6) { 300.0 } else { r.range(20, 500) as f64 });
    plan.set("channels", if r.chance(0.6) { 3.0 } else { r.range(1, 3) as f64 });
    plan.set("pattern", if r.chance(0.7) { 10.0 } else { r.range(7, 10) as f64 });
    let mut t = 0;
    for _ in 0..frames {
        while r.chance(faults) {
            t += 1;
            let a = vec![r.below(FAULTS.len()) as f64, r.f(), r.below(1 << 30) as f64];
            plan.ops.push(Op::new(t, "fault", a));
        }
        t += 33_000;
        let fmt = if r.chance(0.5) { 0 } else { r.below(FORMATS) };
        let a = vec![
            r.uni(-8.0, 8.0),
            r.uni(-8.0, 8.0),
            r.uni(-3.2, 3.2),
            r.logu(0.7, 1.4),
            fmt as f64,
            r.below(1 << 30) as f64,
            r.f(),
        ];
        plan.ops.push(Op::new(t, "frame", a));
    }
}

struct Shot<'a> {
    frame: Frame,
    image: DynamicImage,
    gray: Vec<f64>,
    op: &'a Op,
}

/// Walk through the session frame by frame.
fn each_frame(plan: &Plan, cx: &mut Cx, mut f: impl FnMut(&Shot, &mut Cx) -> Res) -> Res {
    let scene = Scene::new(plan);
    let mut prev: Option<Frame> = None;
    let mut pending: Vec<&Op> = vec![];
    for op in &plan.ops {
        cx.sim_us = cx.sim_us.max(op.t);
        cx.sched(cvsim::rng::mix(&op.a.iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
        if op.k == "fault" {
            pending.push(op);
            continue;
        }
        let (w, h) = (plan.ku("w"), plan.ku("h"));
        let view = [op.f(0), op.f(1), op.f(2), op.f(3)];
        let mut frame = Frame { w, h, d: scene.shoot(w, h, view) };
        let clean = frame.clone();
        for p in pending.drain(..) {
            damage(&mut frame, prev.as_ref(), p, cx);
        }
        prev = Some(clean);
        let (image, gray) = encode(&frame, op.u(4) % FORMATS);
        f(&Shot { frame, image, gray, op }, cx)?;
    }
    Ok(())
}

fn note(found: &Found, cx: &mut Cx) {
    let s = serialised(found);
    let mut words = vec![s.len() as u64];
    for (k, d) in &s {
        words.extend(k);
        words.extend(d.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
    let h = cvsim::rng::mix(&words);
    cx.state(&[h]);
    cx.log(format!("{} features {h:016x}", s.len()));
    cx.probe(match s.len() {
        0 => "frames-without-features",
        1..=9 => "frames-with-few-features",
        _ => "frames-with-features",
    });
}

impl Scenario for Schedules {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 60_000 } else { 2_000 }
    }
    fn gen(&self, r: &mut Rng, _thorough: bool) -> Plan {
        let mut p = Plan::empty();
        let n = r.range(1, 3);
        session(r, &mut p, n, 0.3);
        if r.chance(0.2) {
            p.set("pattern", r.range(11, 20) as f64);
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Cx) -> Res {
        let akaze = settings(plan);
        let mut history: Vec<(DynamicImage, Vec<([u64; 7], Vec<u8>)>)> = vec![];
        each_frame(plan, cx, |s, cx| {
            let one = akaze.extract(&s.image);
            note(&one, cx);
            let want = serialised(&one);
            let mut r = Rng::new(s.op.f(5) as u64);
            let orders = [Order::Forward, Order::Backward, Order::Random(r.u64()), Order::Random(r.u64())];
            for order in orders {
                let (got, stats) =
                    rayon::sim::with(order, || of_par(parallel(&akaze).extract(&s.image)));
                cx.sched(stats.schedule);
                if stats.reordered > 0 {
                    cx.fault("tasks-reordered");
                }
                same("schedule-changes-features", &want, &serialised(&got), cx)?;
            }
            // Fewer features asked for: the same ones, from the top.
            let most = (s.op.f(6) * (want.len() + 2) as f64) as usize;
            let few = Akaze { maximum_features: most, ..akaze };
            let got = serialised(&few.extract(&s.image));
            cx.ensure("maximum-exceeded", got.len() <= most, || format!("{} of {most}", got.len()))?;
            same("limit-changes-features", &want[..got.len().min(want.len())], &got, cx)?;
            cx.ensure("limit-loses-features", got.len() == most.min(want.len()) || one.0.len() != want.len() || lost(&akaze, s), || {
                format!("{} features for a limit of {most}, {} without", got.len(), want.len())
            })?;
            history.push((s.image.clone(), want));
            Ok(())
        })?;
        // Nothing is remembered from one frame to the next.
        for (im, want) in history.iter().rev() {
            same("history-changes-features", want, &serialised(&akaze.extract(im)), cx)?;
        }
        Ok(())
    }
    fn real(&self) -> &'static [&'static str] {
        &["akaze (as built for one thread, and with its rayon feature)", "cv-core"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["rayon (seeded scheduler of tasks)", "image, ndarray, nshare, primal, space, bitarray (stand-ins: not available offline)", "camera"]
    }
    fn nontrivial(&self, cx: &Cx) -> bool {
        cx.checks > 2
    }
    fn rule(&self) -> &'static str {
        "extraction under every seeded order of parallel tasks, with any limit and after any history, is bit for bit what one thread finds"
    }
    fn floors(&self) -> &'static [(&'static str, f64)] {
        &[("w", 40.0), ("h", 40.0), ("things", 1.0), ("sublevels", 1.0), ("octaves", 1.0)]
    }
}

/// Whether descriptors could not be computed for some keypoints, which then count towards a limit.
fn lost(akaze: &Akaze, s: &Shot) -> bool {
    let all = Akaze { descriptor_pattern_size: 1, ..*akaze }.extract(&s.image).0.len();
    all != akaze.extract(&s.image).0.len()
}

fn same(class: &'static str, want: &[([u64; 7], Vec<u8>)], got: &[([u64; 7], Vec<u8>)], cx: &mut Cx) -> Res {
    cx.ensure(class, want == got, || {
        let at = want.iter().zip(got).position(|(a, b)| a != b);
        format!("{} features, expected {}; first difference at {at:?}", got.len(), want.len())
    })
}

/// What holds for the features of every image.
fn wellformed(akaze: &Akaze, w: usize, h: usize, f: &Found, cx: &mut Cx) -> Res {
    cx.ensure("one-descriptor-each", f.0.len() == f.1.len(), || format!("{} {}", f.0.len(), f.1.len()))?;
    cx.ensure("maximum-exceeded", f.0.len() <= akaze.maximum_features, || format!("{}", f.0.len()))?;
    let bits = (6 + 36 + 120) * akaze.descriptor_channels;
    for (k, d) in f.0.iter().zip(&f.1) {
        let (x, y) = k.point;
        cx.ensure("feature-in-image", x >= 0.0 && y >= 0.0 && x <= w as f32 && y <= h as f32, || {
            format!("{k:?} in {w}x{h}")
        })?;
        cx.ensure("response-above-threshold", k.response > akaze.detector_threshold as f32 && k.response.is_finite(), || format!("{k:?}"))?;
        cx.ensure("angle-in-turn", k.angle >= 0.0 && k.angle < std::f32::consts::TAU, || format!("{k:?}"))?;
        cx.ensure("size-positive", k.size > 0.0 && k.size.is_finite(), || format!("{k:?}"))?;
        cx.ensure("octave-exists", k.octave < akaze.max_octave_evolution as usize && w.min(h) >> k.octave >= 40, || format!("{k:?}"))?;
        let spare = (bits..512).any(|i| d.bytes()[i / 8] >> (i % 8) & 1 != 0);
        cx.ensure("spare-bits-clear", !spare, || format!("{d:?}"))?;
    }
    for p in f.0.windows(2) {
        cx.ensure("best-first", p[0].response >= p[1].response, || format!("{} {}", p[0].response, p[1].response))?;
    }
    Ok(())
}

impl Scenario for AnyFrame {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 150_000 } else { 6_000 }
    }
    fn gen(&self, r: &mut Rng, _thorough: bool) -> Plan {
        let mut p = Plan::empty();
        let n = r.range(1, 3);
        session(r, &mut p, n, 0.6);
        // Sizes that a feed can have after cropping, from nothing at all.
        if r.chance(0.5) {
            let (w, h) = match r.below(4) {
                0 => (r.below(8), r.below(8)),
                1 => (r.below(45), r.range(1, 120)),
                2 => (r.range(1, 120), r.below(45)),
                _ => (r.range(36, 84), r.range(36, 84)),
            };
            p.set("w", w as f64);
            p.set("h", h as f64);
            p.set("span", w.max(h).max(1) as f64);
        }
        // Settings at the ends of what they can be.
        if r.chance(0.4) {
            p.set("sublevels", r.range(1, 24) as f64);
            p.set("octaves", r.range(0, 9) as f64);
            p.set("offset", r.logu(0.6, 6.0));
        }
        if r.chance(0.2) {
            p.set("percentile", *r.pick(&[0.0, 0.01, 0.99, 1.0]));
            p.set("bins", *r.pick(&[1.0, 2.0, 3000.0]));
            p.set("threshold", *r.pick(&[0.0, 1e-12, 1e3]));
        }
        p.set("odd", if r.chance(0.3) { r.range(1, 4) as f64 } else { 0.0 });
        // Patterns that reach out of the frame.
        if r.chance(0.2) {
            p.set("pattern", r.range(11, 20) as f64);
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Cx) -> Res {
        let akaze = settings(plan);
        each_frame(plan, cx, |s, cx| {
            let (w, h) = (s.frame.w, s.frame.h);
            let mut image = s.image.clone();
            let odd = plan.ku("odd");
            if odd > 0 && w * h > 0 && s.op.u(4) % FORMATS >= 8 {
                // Float pixels that are not numbers, or not small ones.
                let mut r = Rng::new(s.op.f(5) as u64);
                let bad = match odd {
                    1 => f64::NAN,
                    2 => f64::INFINITY,
                    3 => -1e30,
                    _ => 1e-42,
                };
                let mut f = s.frame.clone();
                for _ in 0..1 + r.below(3) {
                    f.d[r.below(w * h)] = bad;
                }
                image = encode(&f, s.op.u(4) % FORMATS).0;
                cx.fault("frame-odd-floats");
            }
            if w.min(h) < 40 {
                cx.probe("frames-too-small");
            }
            let few = Akaze { maximum_features: s.op.u(5) % 40, ..akaze };
            for a in [akaze, few] {
                let found = a.extract(&image);
                note(&found, cx);
                wellformed(&a, w, h, &found, cx)?;
            }
            let (par, _) = rayon::sim::with(Order::Backward, || of_par(parallel(&akaze).extract(&image)));
            wellformed(&akaze, w, h, &par, cx)?;
            // A frame without anything on it has no features.
            let flat = s.gray.iter().all(|v| *v == s.gray[0]);
            if flat && odd == 0 && w.min(h) >= 40 {
                cx.probe("flat-frames");
                let n = akaze.extract(&s.image).0.len();
                cx.ensure("features-on-a-flat-frame", n == 0, || format!("{n}"))?;
            }
            Ok(())
        })
    }
    fn real(&self) -> &'static [&'static str] {
        &["akaze (as built for one thread, and with its rayon feature)", "cv-core"]
    }
    fn stub(&self) -> &'static [&'static str] {
        C14.stub()
    }
    fn nontrivial(&self, cx: &Cx) -> bool {
        cx.checks > 2
    }
    fn rule(&self) -> &'static str {
        "extraction ends without a panic on every frame, and what it finds is well formed"
    }
    fn floors(&self) -> &'static [(&'static str, f64)] {
        &[("things", 1.0), ("odd", 0.0)]
    }
}

fn turn_diff(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(std::f64::consts::TAU);
    d.min(std::f64::consts::TAU - d)
}

impl Scenario for Truth {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 60_000 } else { 4_000 }
    }
    fn gen(&self, r: &mut Rng, _thorough: bool) -> Plan {
        let mut p = Plan::empty();
        session(r, &mut p, 1, 0.25);
        if p.k("w").min(p.k("h")) < 70.0 {
            p.set("w", r.range(90, 140) as f64);
            p.set("h", r.range(90, 140) as f64);
            let s = p.k("w").max(p.k("h"));
            p.set("span", s);
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Cx) -> Res {
        let akaze = settings(plan);
        each_frame(plan, cx, |s, cx| {
            let found = akaze.extract(&s.image);
            note(&found, cx);
            against_model(&akaze, s, &found, cx)
        })
    }
    fn real(&self) -> &'static [&'static str] {
        &["akaze (one thread)", "cv-core"]
    }
    fn stub(&self) -> &'static [&'static str] {
        C14.stub()
    }
    fn nontrivial(&self, cx: &Cx) -> bool {
        cx.checks > 2
    }
    fn rule(&self) -> &'static str {
        "the features of a frame are those of AKAZE written down plainly in double precision"
    }
    fn floors(&self) -> &'static [(&'static str, f64)] {
        &[("things", 1.0)]
    }
}

fn against_model(akaze: &Akaze, s: &Shot, found: &Found, cx: &mut Cx) -> Res {
    let st = reference(akaze);
    let im = model::Img { w: s.frame.w, h: s.frame.h, d: s.gray.iter().map(|&v| v as f32 as f64).collect() };
    let ks = model::contrasts(&im, &st);
    if ks.len() > 1 {
        cx.probe("contrast-ambiguous");
    }
    if ks.len() > 12 {
        cx.probe("contrast-open");
        return Ok(());
    }
    let mut first = None;
    let alone = ks.len() == 1;
    for k in ks {
        if !(k > 1e-6) {
            cx.probe("contrast-too-low");
            return Ok(());
        }
        let levels = model::scale_space(&im, &st, k);
        // The margins say something only where there are no alternatives.
        let worst = cx.worst.clone();
        let fits = compare(&levels, &st, found, cx);
        if !alone {
            cx.worst = worst;
        }
        match fits {
            Ok(()) => return Ok(()),
            Err(e) => first = first.or(Some(e)),
        }
    }
    Err(first.unwrap())
}

/// Rounding up to this share of the response leaves no doubt about a feature.
const CLEAR: f64 = 3e-3;

fn compare(levels: &[model::Level], st: &model::Settings, found: &Found, cx: &mut Cx) -> Res {
    let cands = model::candidates(levels, st, 0.0);
    let want: Vec<model::Feature> =
        model::thin(&cands, levels).iter().filter_map(|c| model::refine(c, levels, st)).collect();
    let mut hit = vec![false; want.len()];
    let (mut strange, mut amiss) = (0, vec![]);
    for (k, d) in found.0.iter().zip(&found.1) {
        let ratio = 2f64.powi(k.octave as i32);
        let near = want.iter().enumerate().find(|(i, f)| {
            !hit[*i] && f.level == k.class_id && (f.x - k.point.0 as f64).hypot(f.y - k.point.1 as f64) < 0.05 * ratio
        });
        let Some((i, f)) = near else {
            // On straight edges the response is little more than rounding.
            let l = &levels[k.class_id.min(levels.len() - 1)];
            let at = |v: f32, n: usize| ((v as f64 / ratio).round() as usize).min(n - 1);
            if l.noise.at(at(k.point.0, l.noise.w), at(k.point.1, l.noise.h)) > CLEAR * k.response as f64 {
                cx.probe("features-in-rounding");
                continue;
            }
            strange += 1;
            amiss.push((k.class_id, k.point.0 as f64, k.point.1 as f64));
            if cx.lines.is_some() {
                cx.log(format!("strange {k:?}"));
            }
            continue;
        };
        hit[i] = true;
        cx.within("response", (k.response as f64 - f.response).abs(), 5e-4 * f.response + f.noise, || format!("{k:?} {f:?}"))?;
        cx.within("size", (k.size as f64 / f.size - 1.0).abs(), 1e-5, || format!("{k:?} {f:?}"))?;
        cx.ensure("octave", k.octave == f.octave as usize, || format!("{k:?} {f:?}"))?;
        // Directed and described where it was found, so that rounding of the place does not matter;
        // where samples fall between pixels, either pixel may be meant.
        let (x, y) = (k.point.0 as f64, k.point.1 as f64);
        let direction = |ex: f64, ey: f64| {
            let (a, clear) = model::orientation(&levels[f.level], f.size, x + ex * ratio, y + ey * ratio);
            clear.then(|| turn_diff(k.angle as f64, a))
        };
        let mut off = direction(0.0, 0.0);
        if off > Some(0.02) {
            for (ex, ey) in model::NUDGES {
                let other = direction(ex, ey);
                off = if other < off { other } else { off };
            }
        }
        match off {
            Some(off) => {
                cx.probe("angles-compared");
                cx.within("angle", off, 0.025, || format!("{k:?} {f:?}"))?;
            }
            None => cx.probe("angles-ambiguous"),
        }
        // Comparisons of averages that are equal but for rounding tell nothing.
        let wrong = |ex: f64, ey: f64| -> Option<(f64, f64)> {
            let bits = model::describe(f, &levels[f.level], st, x + ex * ratio, y + ey * ratio, k.angle as f64)?;
            let told: Vec<_> = bits.iter().enumerate().filter(|(_, v)| v.abs() > 1.0).collect();
            let wrong = told.iter().filter(|(i, v)| (d.bytes()[i / 8] >> (i % 8) & 1 == 1) != (**v > 0.0));
            Some((wrong.count() as f64, 0.5 + 0.03 * told.len() as f64))
        };
        if let Some(mut best) = wrong(0.0, 0.0) {
            if best.0 > best.1 {
                for (ex, ey) in model::NUDGES {
                    let other = wrong(ex, ey).unwrap_or(best);
                    best = if other.0 < best.0 { other } else { best };
                }
            }
            cx.within("descriptor-bits", best.0, best.1, || format!("{k:?}"))?;
        }
    }
    let hit: Vec<bool> =
        want.iter().zip(hit).map(|(f, hit)| hit || f.noise > CLEAR * f.response).collect();
    let missing = hit.iter().filter(|h| !**h).count();
    for (f, _) in want.iter().zip(&hit).filter(|h| !h.1) {
        amiss.push((f.level, f.x, f.y));
        if cx.lines.is_some() {
            cx.log(format!("missing {f:?}"));
        }
    }
    let n = want.len().max(found.0.len()) as f64;
    if !amiss.is_empty() {
        // Where rounding decides about one, it decides about those near it too.
        let doubt = model::doubtful(levels, st);
        let clear = amiss.iter().filter(|a| {
            !doubt.iter().any(|d| d.level.abs_diff(a.0) <= 2 && (d.x - a.1).hypot(d.y - a.2) <= 3.0 * d.size)
        });
        let clear = clear.count() as f64;
        cx.within("features-clearly-wrong", clear, 0.5 * amiss.len() as f64 - 0.4, || format!("{} found, {} expected, {amiss:?}", found.0.len(), want.len()))?;
    }
    cx.within("features-strange", strange as f64, 4.0 + 0.2 * n, || format!("{} found, {} expected, {strange} strange, {missing} missing", found.0.len(), want.len()))?;
    cx.within("features-missing", missing as f64, 4.0 + 0.2 * n, || format!("{} found, {} expected, {strange} strange, {missing} missing", found.0.len(), want.len()))
}
