//! The simulated places, the cameras that move through them, and the node's sources of randomness.

use akaze::{KeyPoint, Seen};
use bitarray::BitArray;
use cv_core::sample_consensus::{Consensus, Estimator, Model};
use cvsim::geo::*;
use cvsim::rng::Rng;
use cvsim::sim::{Op, Plan};
use image::{DynamicImage, Rgb, RgbImage, Scene};
use std::sync::Arc;

pub const W: u32 = 320;
pub const H: u32 = 240;
/// Depth of the farthest landmark and distance of the cameras.
pub const RADIUS: f64 = 4.0;

pub struct Place {
    pub points: Vec<V3>,
    pub descriptors: Vec<[u8; 64]>,
}

pub fn place(plan: &Plan, p: usize) -> Place {
    let n = plan.ku("points");
    let mut points = vec![];
    let mut descriptors = vec![];
    for j in 0..n {
        let mut r = plan.entity("point", p, j);
        let p = V3::new(r.uni(-1.6, 1.6), r.uni(-1.1, 1.1), r.uni(-1.6, 1.6));
        // The first landmarks may sit together, as on one object.
        points.push(if j < plan.ku("cluster") { p.component_mul(&V3::new(0.14, 0.16, 0.14)) } else { p });
        let mut d = [0u8; 64];
        d.iter_mut().for_each(|b| *b = r.u64() as u8);
        descriptors.push(d);
    }
    Place { points, descriptors }
}

pub fn sensor(plan: &Plan, feed: usize) -> Sensor {
    let mut r = plan.entity("feed", feed, 0);
    let f = plan.k("focal") * r.uni(0.9, 1.1);
    Sensor {
        f: nalgebra::Vector2::new(f, f * r.uni(0.95, 1.05)),
        c: nalgebra::Vector2::new(W as f64 / 2.0 + r.uni(-5.0, 5.0), H as f64 / 2.0 + r.uni(-5.0, 5.0)),
        skew: r.uni(-0.5, 0.5),
        k1: plan.k("k1") * r.uni(0.5, 1.0),
    }
}

/// Where a camera of the feed is at `s` along its path around the place.
pub fn pose_at(plan: &Plan, feed: usize, place: usize, s: f64) -> Rt {
    let mut r = plan.entity("path", feed, place);
    let height = r.uni(-0.8, 0.8);
    let sway = r.uni(0.0, 0.5);
    let phase = r.uni(0.0, 6.3);
    let radius = RADIUS + sway * (1.7 * s + phase).sin();
    let center = V3::new(radius * s.sin(), height + 0.3 * (2.3 * s + phase).cos(), -radius * s.cos());
    let target = V3::new(0.25 * (1.1 * s + phase).cos(), 0.2 * (1.9 * s).sin(), 0.2 * (s + phase).sin());
    let z = (target - center).normalize();
    let x = V3::y().cross(&z).normalize();
    let base = M3::from_rows(&[x.transpose(), z.cross(&x).transpose(), z.transpose()]);
    let rot = rodrigues(&V3::z(), 0.2 * (s + phase).sin()) * base;
    Rt { r: rot, t: -(rot * center) }
}

/// What one feature of a frame is, by its response, which is unique in the frame.
#[derive(Clone, Copy, Debug)]
pub struct Origin {
    pub response: f32,
    pub pixel: (f32, f32),
    /// The landmark it shows; nothing for clutter and for what pretends to be another landmark.
    pub point: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct Shown {
    pub feed: usize,
    pub place: usize,
    pub pose: Rt,
    /// Best first.
    pub features: Vec<Origin>,
    pub descriptors: Vec<[u8; 64]>,
    /// Every feature it shows is where it should be.
    pub clean: bool,
    pub s: f64,
    pub fault: &'static str,
}

/// Frame kinds: what goes wrong with the frame.
pub const KINDS: [&str; 11] = [
    "clean", "black-frame", "blurred-frame", "clutter", "moving-objects", "aliased-texture", "occluded", "pixel-noise",
    "swapped-descriptors", "few-features", "only-one-object",
];

/// The frame of a `frame` step: feed, place, position on the path, kind, amount of it.
pub fn show(plan: &Plan, places: &[Place], op: &Op, serial: usize) -> Shown {
    let feed = op.u(0);
    let pl = op.u(1) % places.len();
    let s = op.f(2);
    let kind = op.u(3) % KINDS.len();
    let amount = op.f(4);
    let w = &places[pl];
    let pose = pose_at(plan, feed, pl, s);
    let cam = sensor(plan, feed);
    let mut r = plan.entity("frame", serial, 0);
    let n = w.points.len();
    let window = (r.uni(0.0, 1.0 - amount.min(0.9)), r.uni(0.0, 1.0 - amount.min(0.9)));
    let swap = |j: usize| (j + 1) % n;
    let mut out: Vec<(Origin, [u8; 64])> = vec![];
    for j in 0..n {
        // Every landmark draws the same amount, whatever becomes of it.
        let mut q = plan.entity("sight", serial, j);
        let response = (0.01 + q.f() * 0.5) as f32;
        let (gone, hit, nx, ny) = (q.f(), q.f(), q.normal(), q.normal());
        let flips = q.below(plan.ku("flips") + 1);
        let mut shift = rand_unit(&mut q) * 0.5;
        if gone < plan.k("miss") {
            continue;
        }
        let mut point = Some(j);
        let mut d = w.descriptors[j];
        let mut at = w.points[j];
        match KINDS[kind] {
            "black-frame" => continue,
            "blurred-frame" if gone > 0.06 => continue,
            "few-features" if j > 3 => continue,
            "only-one-object" if j >= plan.ku("cluster") => continue,
            "moving-objects" if hit < amount => {
                shift.z = 0.0;
                at += shift;
                point = None;
            }
            "aliased-texture" if hit < amount => d = w.descriptors[j / 4 * 4],
            "swapped-descriptors" if hit < amount => {
                d = w.descriptors[swap(j)];
                point = None;
            }
            _ => {}
        }
        for _ in 0..flips {
            let b = q.below(512);
            d[b / 8] ^= 1 << (b % 8);
        }
        let v = pose.apply(&at);
        let Some(mut px) = cam.project(&v) else { continue };
        let noise = plan.k("noise") + if KINDS[kind] == "pixel-noise" { amount } else { 0.0 };
        px.x += noise * nx;
        px.y += noise * ny;
        if px.x < 0.0 || px.y < 0.0 || px.x >= W as f64 || px.y >= H as f64 {
            continue;
        }
        if KINDS[kind] == "occluded" {
            let (u, v) = (px.x / W as f64, px.y / H as f64);
            if u < window.0 || u > window.0 + amount || v < window.1 || v > window.1 + amount {
                continue;
            }
        }
        out.push((Origin { response, pixel: (px.x as f32, px.y as f32), point }, d));
    }
    let clutter = if KINDS[kind] == "clutter" { (amount * n as f64) as usize } else { plan.ku("clutter") };
    if KINDS[kind] != "black-frame" {
        for _ in 0..clutter {
            let mut d = [0u8; 64];
            d.iter_mut().for_each(|b| *b = r.u64() as u8);
            let px = (r.uni(0.0, W as f64) as f32, r.uni(0.0, H as f64) as f32);
            out.push((Origin { response: (0.01 + r.f() * 0.5) as f32, pixel: px, point: None }, d));
        }
    }
    out.sort_by(|a, b| b.0.response.total_cmp(&a.0.response));
    out.dedup_by(|a, b| a.0.response == b.0.response);
    let (features, descriptors) = out.into_iter().unzip();
    Shown {
        feed,
        place: pl,
        pose,
        features,
        descriptors,
        clean: matches!(KINDS[kind], "clean" | "clutter"),
        s,
        fault: KINDS[kind],
    }
}

pub fn texture(plan: &Plan) -> RgbImage {
    let mut r = plan.entity("texture", 0, 0);
    let smooth = r.chance(0.3);
    RgbImage::from_fn(W, H, |x, y| {
        if smooth {
            Rgb([(x / 2) as u8, (y / 2) as u8, ((x + y) / 3) as u8])
        } else {
            let v = r.u64();
            Rgb([v as u8, (v >> 8) as u8, (v >> 16) as u8])
        }
    })
}

pub fn image_of(texture: &RgbImage, f: &Shown, reversed: bool) -> DynamicImage {
    let mut seen: Vec<(KeyPoint, BitArray<64>)> = f
        .features
        .iter()
        .zip(&f.descriptors)
        .map(|(o, d)| {
            let kp = KeyPoint { point: o.pixel, response: o.response, size: 4.0, octave: 0, class_id: 0, angle: 0.0 };
            (kp, BitArray::new(*d))
        })
        .collect();
    if reversed {
        seen.reverse();
    }
    DynamicImage::Simulated(texture.clone(), Scene(Arc::new(Seen(seen))))
}

/// Sample consensus of the node, drawing from the simulator.
pub struct Ransac {
    pub rng: Rng,
    pub threshold: f64,
    pub rounds: usize,
}
impl<E, D> Consensus<E, D> for Ransac
where
    E: Estimator<D>,
    D: Clone,
{
    type Inliers = Vec<usize>;
    fn model<I>(&mut self, e: &E, data: I) -> Option<E::Model>
    where
        I: Iterator<Item = D> + Clone,
    {
        self.model_inliers(e, data).map(|m| m.0)
    }
    fn model_inliers<I>(&mut self, e: &E, data: I) -> Option<(E::Model, Vec<usize>)>
    where
        I: Iterator<Item = D> + Clone,
    {
        let data: Vec<D> = data.collect();
        if data.len() < E::MIN_SAMPLES {
            return None;
        }
        // The model that leaves the least unexplained, as M-estimator sample consensus does.
        let mut best: Option<(E::Model, Vec<usize>, f64)> = None;
        let mut ix: Vec<usize> = (0..data.len()).collect();
        for _ in 0..self.rounds {
            for k in 0..E::MIN_SAMPLES {
                let other = self.rng.range(k, data.len() - 1);
                ix.swap(k, other);
            }
            let sample: Vec<D> = ix[..E::MIN_SAMPLES].iter().map(|&i| data[i].clone()).collect();
            for m in e.estimate(sample.into_iter()) {
                let residuals: Vec<f64> = data.iter().map(|d| m.residual(d)).collect();
                let inliers: Vec<usize> = (0..data.len()).filter(|&i| residuals[i] < self.threshold).collect();
                let rest: f64 = residuals.iter().map(|r| if *r < self.threshold { r.abs() } else { self.threshold }).sum();
                if best.as_ref().map_or(true, |b| rest < b.2) {
                    best = Some((m, inliers, rest));
                }
            }
        }
        best.map(|b| (b.0, b.1)).filter(|b| b.1.len() >= E::MIN_SAMPLES)
    }
}

/// The node's generator.
pub struct NodeRng(pub Rng);
impl rand::RngCore for NodeRng {
    fn next_u32(&mut self) -> u32 {
        self.0.u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        dest.iter_mut().for_each(|b| *b = self.0.u64() as u8);
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
