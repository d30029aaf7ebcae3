//! The simulated camera: an analytic scene, sampled into frames, damaged on the way, and stored in
//! one of the pixel formats that cameras deliver.

use cvsim::rng::Rng;
use cvsim::sim::{Cx, Op, Plan};
use image::{DynamicImage, ImageBuffer, Luma, LumaA, Rgb, Rgba};

/// Brightness as a function of the place in the scene.
pub struct Scene {
    base: f64,
    slope: (f64, f64),
    blobs: Vec<[f64; 5]>,
    boxes: Vec<[f64; 7]>,
    waves: Vec<[f64; 4]>,
}
impl Scene {
    pub fn new(plan: &Plan) -> Scene {
        let mut r = plan.entity("scene", 0, 0);
        let kind = plan.ku("scene");
        let span = plan.k("span");
        let contrast = plan.k("contrast");
        let mut s = Scene {
            base: r.uni(0.3, 0.7),
            slope: (r.uni(-1.0, 1.0) * 0.1 / span, r.uni(-1.0, 1.0) * 0.1 / span),
            blobs: vec![],
            boxes: vec![],
            waves: vec![],
        };
        let n = plan.ku("things");
        for i in 0..n {
            let mut r = plan.entity("thing", i, 0);
            let at = (r.uni(-0.75, 0.75) * span, r.uni(-0.75, 0.75) * span);
            let amp = contrast * r.uni(0.3, 1.0) * if r.chance(0.5) { 1.0 } else { -1.0 };
            if kind != 1 && (kind == 0 || r.chance(0.5)) {
                let sg = r.logu(1.5, 9.0);
                s.blobs.push([at.0, at.1, sg, amp, r.uni(0.6, 1.6)]);
            } else {
                let (a, b) = (r.logu(3.0, 20.0), r.logu(3.0, 20.0));
                s.boxes.push([at.0, at.1, a, b, r.uni(0.0, 3.2), amp, r.logu(0.3, 2.0)]);
            }
        }
        if kind == 3 {
            for i in 0..3 {
                let mut r = plan.entity("wave", i, 0);
                let (f, a) = (r.logu(0.05, 0.6), r.uni(0.0, 6.3));
                s.waves.push([f * a.cos(), f * a.sin(), r.uni(0.0, 6.3), 0.1 * contrast]);
            }
        }
        s
    }
    pub fn at(&self, x: f64, y: f64) -> f64 {
        let mut v = self.base + self.slope.0 * x + self.slope.1 * y;
        for b in &self.blobs {
            let d2 = ((x - b[0]) * b[4]).powi(2) + ((y - b[1]) / b[4]).powi(2);
            if d2 < 40.0 * b[2] * b[2] {
                v += b[3] * (-d2 / (2.0 * b[2] * b[2])).exp();
            }
        }
        for b in &self.boxes {
            let (si, co) = b[4].sin_cos();
            let (dx, dy) = (x - b[0], y - b[1]);
            let (u, w) = ((dx * co + dy * si).abs() - b[2], (dy * co - dx * si).abs() - b[3]);
            let e = u.max(w) / b[6];
            if e < 30.0 {
                v += b[5] / (1.0 + e.exp());
            }
        }
        for w in &self.waves {
            v += w[3] * (w[0] * x + w[1] * y + w[2]).sin();
        }
        v
    }
    /// A frame from a camera at an offset, turned and zoomed.
    pub fn shoot(&self, w: usize, h: usize, view: [f64; 4]) -> Vec<f64> {
        let (si, co) = view[2].sin_cos();
        let mut out = Vec::with_capacity(w * h);
        for y in 0..h {
            for x in 0..w {
                let u = (x as f64 - 0.5 * w as f64) * view[3];
                let v = (y as f64 - 0.5 * h as f64) * view[3];
                out.push(self.at(u * co - v * si + view[0], u * si + v * co + view[1]));
            }
        }
        out
    }
}

#[derive(Clone)]
pub struct Frame {
    pub w: usize,
    pub h: usize,
    pub d: Vec<f64>,
}

pub const FAULTS: [&str; 11] = [
    "frame-torn", "frame-dead-rows", "frame-dead-columns", "frame-saturated", "frame-black",
    "frame-constant", "frame-noise", "frame-salt-and-pepper", "frame-block-lost", "frame-dim",
    "frame-rows-shifted",
];

/// What a fault does to a frame.  `a` is its kind, its strength in 0..1 and its seed.
pub fn damage(f: &mut Frame, prev: Option<&Frame>, op: &Op, cx: &mut Cx) {
    let kind = op.u(0) % FAULTS.len();
    let (s, mut r) = (op.f(1), Rng::new(op.f(2) as u64));
    let (w, h) = (f.w, f.h);
    match kind {
        0 => match prev.filter(|p| p.w == w && p.h == h) {
            Some(p) => {
                let cut = ((h as f64 * s) as usize).min(h) * w;
                f.d[cut..].copy_from_slice(&p.d[cut..]);
            }
            None => return,
        },
        1 => {
            for _ in 0..1 + (s * 4.0) as usize {
                let y = r.below(h.max(1));
                f.d.iter_mut().skip(y * w).take(w).for_each(|v| *v = 0.0);
            }
        }
        2 => {
            for _ in 0..1 + (s * 4.0) as usize {
                let x = r.below(w.max(1));
                f.d.iter_mut().skip(x).step_by(w.max(1)).for_each(|v| *v = 1.0);
            }
        }
        3 => f.d.iter_mut().for_each(|v| *v = (*v * (1.0 + 4.0 * s)).min(1.0)),
        4 => f.d.iter_mut().for_each(|v| *v = 0.0),
        5 => f.d.iter_mut().for_each(|v| *v = s),
        6 => f.d.iter_mut().for_each(|v| *v += 0.1 * s * r.normal()),
        7 => f.d.iter_mut().for_each(|v| {
            if r.chance(0.02 * s) {
                *v = if r.chance(0.5) { 1.0 } else { 0.0 };
            }
        }),
        8 => {
            let (x0, y0) = (r.below(w.max(1)), r.below(h.max(1)));
            let (a, b) = (1 + (s * w as f64 * 0.5) as usize, 1 + (s * h as f64 * 0.5) as usize);
            for y in y0..(y0 + b).min(h) {
                for x in x0..(x0 + a).min(w) {
                    f.d[y * w + x] = 0.5;
                }
            }
        }
        9 => f.d.iter_mut().for_each(|v| *v *= 0.5f64.powi((s * 8.0) as i32)),
        _ => {
            let y0 = r.below(h.max(1));
            let k = r.below(w.max(1));
            for y in y0..(y0 + 1 + (s * 20.0) as usize).min(h) {
                f.d[y * w..(y + 1) * w].rotate_left(k);
            }
        }
    }
    cx.fault(FAULTS[kind]);
}

pub const FORMATS: usize = 10;

/// The frame as the camera driver hands it over, and the brightness it stands for.
pub fn encode(f: &Frame, fmt: usize) -> (DynamicImage, Vec<f64>) {
    let (w, h) = (f.w as u32, f.h as u32);
    let p = |x: u32, y: u32| f.d[y as usize * f.w + x as usize];
    let q8 = |v: f64| (v.clamp(0.0, 1.0) * 255.0).round() as u8;
    let q16 = |v: f64| (v.clamp(0.0, 1.0) * 65535.0).round() as u16;
    // Colour formats: three channels around the brightness.
    let rgb = |v: f64| [v * 1.1, v * 0.95, v * 1.05];
    let lum = |r: f64, g: f64, b: f64| (2126.0 * r + 7152.0 * g + 722.0 * b) / 10000.0;
    let gray: Vec<f64> = f
        .d
        .iter()
        .map(|&v| match fmt {
            0 | 1 => q8(v) as f64 / 255.0,
            2 | 3 => {
                let c = rgb(v).map(|c| q8(c) as f64);
                lum(c[0], c[1], c[2]).floor() / 255.0
            }
            4 | 5 => q16(v) as f64 / 65535.0,
            6 | 7 => {
                let c = rgb(v).map(|c| q16(c) as f64);
                lum(c[0], c[1], c[2]).floor() / 65535.0
            }
            _ => v as f32 as f64,
        })
        .collect();
    let im = match fmt {
        0 => DynamicImage::ImageLuma8(ImageBuffer::from_fn(w, h, |x, y| Luma([q8(p(x, y))]))),
        1 => DynamicImage::ImageLumaA8(ImageBuffer::from_fn(w, h, |x, y| LumaA([q8(p(x, y)), 255]))),
        2 => DynamicImage::ImageRgb8(ImageBuffer::from_fn(w, h, |x, y| Rgb(rgb(p(x, y)).map(q8)))),
        3 => DynamicImage::ImageRgba8(ImageBuffer::from_fn(w, h, |x, y| {
            let c = rgb(p(x, y)).map(q8);
            Rgba([c[0], c[1], c[2], 200])
        })),
        4 => DynamicImage::ImageLuma16(ImageBuffer::from_fn(w, h, |x, y| Luma([q16(p(x, y))]))),
        5 => DynamicImage::ImageLumaA16(ImageBuffer::from_fn(w, h, |x, y| {
            LumaA([q16(p(x, y)), 65535])
        })),
        6 => DynamicImage::ImageRgb16(ImageBuffer::from_fn(w, h, |x, y| Rgb(rgb(p(x, y)).map(q16)))),
        7 => DynamicImage::ImageRgba16(ImageBuffer::from_fn(w, h, |x, y| {
            let c = rgb(p(x, y)).map(q16);
            Rgba([c[0], c[1], c[2], 9000])
        })),
        8 => DynamicImage::ImageRgb32F(ImageBuffer::from_fn(w, h, |x, y| Rgb([p(x, y) as f32; 3]))),
        _ => DynamicImage::ImageRgba32F(ImageBuffer::from_fn(w, h, |x, y| {
            let v = p(x, y) as f32;
            Rgba([v, v, v, 1.0])
        })),
    };
    (im, gray)
}
