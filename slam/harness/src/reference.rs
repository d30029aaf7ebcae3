//! AKAZE written down plainly, in double precision: what the features of an image are meant to be.

#[derive(Clone, Debug)]
pub struct Img {
    pub w: usize,
    pub h: usize,
    pub d: Vec<f64>,
}
impl Img {
    pub fn new(w: usize, h: usize) -> Img {
        Img { w, h, d: vec![0.0; w * h] }
    }
    pub fn at(&self, x: usize, y: usize) -> f64 {
        self.d[y * self.w + x]
    }
    /// Outside the image, the nearest pixel.
    fn edge(&self, x: isize, y: isize) -> f64 {
        let x = x.clamp(0, self.w as isize - 1) as usize;
        let y = y.clamp(0, self.h as isize - 1) as usize;
        self.at(x, y)
    }
    fn each(&self, f: impl Fn(usize, usize) -> f64) -> Img {
        let mut o = Img::new(self.w, self.h);
        for y in 0..self.h {
            for x in 0..self.w {
                o.d[y * self.w + x] = f(x, y);
            }
        }
        o
    }
    /// Correlation with a row kernel and then with a column kernel, both given as offset and weight.
    fn separable(&self, row: &[(isize, f64)], col: &[(isize, f64)]) -> Img {
        let t = self.each(|x, y| {
            row.iter().map(|&(o, k)| k * self.edge(x as isize + o, y as isize)).sum()
        });
        self.each(|x, y| col.iter().map(|&(o, k)| k * t.edge(x as isize, y as isize + o)).sum())
    }
    pub fn blur(&self, sigma: f64) -> Img {
        let r = (2.0 * sigma).ceil() as isize;
        let k: Vec<(isize, f64)> =
            (-r..=r).map(|i| (i, (-((i * i) as f64) / (2.0 * sigma * sigma)).exp())).collect();
        let sum: f64 = k.iter().map(|k| k.1).sum();
        let k: Vec<_> = k.into_iter().map(|(i, v)| (i, v / sum)).collect();
        self.separable(&k, &k)
    }
    fn scharr(&self, s: isize) -> (Img, Img) {
        let diff = [(-s, -1.0), (s, 1.0)];
        let smooth = if s == 1 {
            [(-1, 3.0), (0, 10.0), (1, 3.0)]
        } else {
            let w = 10.0 / 3.0;
            let n = 1.0 / (2.0 * s as f64 * (w + 2.0));
            [(-s, n), (0, n * w), (s, n)]
        };
        (self.separable(&diff, &smooth), self.separable(&smooth, &diff))
    }
    /// Halved, averaging what falls on each pixel; an odd last row or column replaces the last
    /// averaged one.
    pub fn half(&self) -> Img {
        let (w, h) = (self.w / 2, self.h / 2);
        let span = |i: usize, n: usize, half: usize| -> Vec<usize> {
            if i + 1 == half && n % 2 == 1 {
                vec![n - 1]
            } else {
                vec![2 * i, 2 * i + 1]
            }
        };
        let mut o = Img::new(w, h);
        for y in 0..h {
            for x in 0..w {
                let (xs, ys) = (span(x, self.w, w), span(y, self.h, h));
                let mut s = 0.0;
                for &yy in &ys {
                    for &xx in &xs {
                        s += self.at(xx, yy);
                    }
                }
                o.d[y * w + x] = s / (xs.len() * ys.len()) as f64;
            }
        }
        o
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Settings {
    pub sublevels: u32,
    pub octaves: u32,
    pub offset: f64,
    pub percentile: f64,
    pub bins: usize,
    pub derivative: f64,
    pub threshold: f64,
    pub channels: usize,
    pub pattern: usize,
}

pub struct Level {
    pub sigma: f64,
    pub octave: u32,
    pub lt: Img,
    pub lx: Img,
    pub ly: Img,
    pub det: Img,
    /// What single-precision rounding may do to the response.
    pub noise: Img,
    /// The same for a gradient.
    pub gnoise: f64,
    /// The same for the brightness.
    pub lnoise: f64,
}

#[derive(Clone)]
pub struct Feature {
    pub level: usize,
    pub octave: u32,
    pub x: f64,
    pub y: f64,
    pub response: f64,
    /// How far rounding may move the response.
    pub noise: f64,
    pub size: f64,
    pub angle: f64,
    /// Whether every sum that could be the longest points the same way.
    pub clear: bool,
    /// One entry per descriptor bit: how clearly it is set (positive) or not (negative), in
    /// units of what rounding may do.
    pub bits: Vec<f64>,
}

impl std::fmt::Debug for Feature {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "expected (level {}, octave {}, at ({}, {}), response {}, size {}, angle {} margin {})",
            self.level, self.octave, self.x, self.y, self.response, self.size, self.angle, self.clear
        )
    }
}

/// The contrast factor, and everything else that rounding may make of it.
pub fn contrasts(im: &Img, s: &Settings) -> Vec<f64> {
    let (lx, ly) = im.blur(1.0).scharr(1);
    let most = im.d.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let floor = 1e-6 * 32.0 * most;
    let (mut clear, mut unclear) = (vec![], 0);
    for y in 1..im.h.max(1) - 1 {
        for x in 1..im.w.max(1) - 1 {
            let m = lx.at(x, y).hypot(ly.at(x, y));
            // Where everything around is equal, the gradient is nothing however it is rounded.
            // Elsewhere, a gradient that would be nothing may be left with some rounding, and counts.
            if m > floor {
                clear.push(m);
            } else if !flat(im, x as isize, y as isize, 3) {
                unclear += 1;
            }
        }
    }
    let hmax = clear.iter().cloned().fold(0.0, f64::max);
    if clear.is_empty() {
        return vec![0.0];
    }
    // Those at the edge of a bin fall on either side: everything between the extremes is allowed.
    let (mut lo, mut hi, mut fallback) = (s.bins, 0, false);
    for extra in [0, unclear] {
        for slack in [0.0, -1e-3, 1e-3] {
            let bin = |m: f64| {
                ((s.bins as f64 * m / hmax * (1.0 + 0.01 * slack) + slack).floor().max(0.0) as usize)
                    .min(s.bins - 1)
            };
            let mut hist = vec![0usize; s.bins];
            for &m in &clear {
                hist[bin(m)] += 1;
            }
            hist[0] += extra;
            let want = ((clear.len() + extra) as f64 * s.percentile) as usize;
            let mut seen = 0;
            let mut k = 0;
            while seen < want && k < s.bins {
                seen += hist[k];
                k += 1;
            }
            lo = lo.min(k);
            hi = hi.max(k);
            fallback |= seen < want;
        }
    }
    let mut out: Vec<f64> = (lo..=hi).map(|k| hmax * k as f64 / s.bins as f64).collect();
    if fallback {
        out.push(0.03);
    }
    out
}
fn flat(im: &Img, x: isize, y: isize, r: isize) -> bool {
    let v = im.edge(x, y);
    (y - r..=y + r).all(|yy| (x - r..=x + r).all(|xx| im.edge(xx, yy) == v))
}

/// Fast explicit diffusion: the step lengths of one cycle that covers the time `t`.
pub fn fed_steps(t: f64) -> Vec<f64> {
    let max = 0.25;
    let n = ((3.0 * t / max + 0.25).sqrt() - 0.5 - 1e-8).ceil() as usize;
    let scale = 3.0 * t / (max * (n * (n + 1)) as f64);
    let tau: Vec<f64> = (0..n)
        .map(|k| {
            let c = (std::f64::consts::PI * (2 * k + 1) as f64 / (4 * n + 2) as f64).cos();
            scale * max / 2.0 / (c * c)
        })
        .collect();
    let prime = (n + 1..).find(|&p| p > 1 && (2..p).all(|d| p % d != 0)).unwrap();
    let kappa = (n / 2).max(1);
    (1..prime).map(|k| (k * kappa) % prime).filter(|&i| i >= 1 && i <= n).map(|i| tau[i - 1]).collect()
}

pub fn scale_space(im: &Img, s: &Settings, contrast: f64) -> Vec<Level> {
    let mut plan = vec![];
    for o in 0..s.octaves {
        let small = (im.w >> o).min(im.h >> o);
        if small < 40 {
            break;
        }
        for l in 0..if small < 80 { 1 } else { s.sublevels } {
            plan.push((o, s.offset * 2f64.powf(l as f64 / s.sublevels as f64 + o as f64)));
        }
    }
    let mut out: Vec<Level> = vec![];
    let mut k = contrast;
    for (i, &(octave, sigma)) in plan.iter().enumerate() {
        let (lt, smooth) = if i == 0 {
            let b = im.blur(s.offset);
            (b.clone(), b)
        } else {
            let prev = &out[i - 1];
            let mut lt = if octave > prev.octave {
                k *= 0.75;
                prev.lt.half()
            } else {
                prev.lt.clone()
            };
            let smooth = lt.blur(1.0);
            let (gx, gy) = smooth.scharr(1);
            let c = gx.each(|x, y| {
                1.0 / (1.0 + (gx.at(x, y).powi(2) + gy.at(x, y).powi(2)) / (k * k))
            });
            let t = 0.5 * (sigma * sigma - prev.sigma * prev.sigma);
            for tau in fed_steps(t) {
                lt = lt.each(|x, y| {
                    let mut v = 0.0;
                    let mut flow = |xx: usize, yy: usize| {
                        v += 0.5 * (c.at(x, y) + c.at(xx, yy)) * (lt.at(xx, yy) - lt.at(x, y));
                    };
                    if x > 0 {
                        flow(x - 1, y);
                    }
                    if x + 1 < lt.w {
                        flow(x + 1, y);
                    }
                    if y > 0 {
                        flow(x, y - 1);
                    }
                    if y + 1 < lt.h {
                        flow(x, y + 1);
                    }
                    lt.at(x, y) + tau * v
                });
            }
            (lt, smooth)
        };
        let sd = (sigma * s.derivative / 2f64.powi(octave as i32)).round();
        let (lx, ly) = smooth.scharr(sd as isize);
        let (lxx, lxy) = lx.scharr(sd as isize);
        let (_, lyy) = ly.scharr(sd as isize);
        let det = lx.each(|x, y| {
            (lxx.at(x, y) * lyy.at(x, y) - lxy.at(x, y).powi(2)) * sd.powi(4)
        });
        // Rounding of a second derivative: that of the pixels, amplified by both kernels.
        let gain = if sd == 1.0 { 32.0 } else { 1.0 / sd };
        let most = smooth.d.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        let e = 1e-6 * gain * gain * most;
        let noise = lx.each(|x, y| {
            let sum = lxx.at(x, y).abs() + lyy.at(x, y).abs() + 2.0 * lxy.at(x, y).abs();
            sd.powi(4) * e * (sum + 2.0 * e)
        });
        out.push(Level { sigma, octave, lt, lx, ly, det, noise, gnoise: 1e-6 * gain * most, lnoise: 1e-5 * most });
    }
    out
}

/// A point of the scale space that may become a feature.
#[derive(Clone, Debug)]
pub struct Cand {
    pub level: usize,
    /// In pixels of the level.
    pub ix: usize,
    pub iy: usize,
    /// In pixels of the image.
    pub x: f64,
    pub y: f64,
    pub response: f64,
    pub size: f64,
    /// How clearly it is above the threshold and its neighbours, relative to its response.
    pub margin: f64,
}

/// Every local maximum of the response that lies far enough inside and above `slack` of the
/// threshold, before the ones that repeat each other are thinned out.
pub fn candidates(levels: &[Level], s: &Settings, slack: f64) -> Vec<Cand> {
    let mut out = vec![];
    for (id, l) in levels.iter().enumerate() {
        let ratio = 2f64.powi(l.octave as i32);
        let size = l.sigma * s.derivative;
        let reach = 10.0 * 2f64.sqrt() * (size / ratio).round();
        let (w, h) = (l.det.w, l.det.h);
        for y in 1..h - 1 {
            for x in 1..w - 1 {
                let v = l.det.at(x, y);
                if v <= s.threshold * (1.0 - slack) {
                    continue;
                }
                let mut around = f64::NEG_INFINITY;
                for (dx, dy) in [(0, 0), (1, 0), (2, 0), (0, 1), (2, 1), (0, 2), (1, 2), (2, 2)] {
                    around = around.max(l.det.at(x + dx - 1, y + dy - 1));
                }
                if around > v * (1.0 + slack) {
                    continue;
                }
                let inside = |c: f64, n: usize| {
                    (c - reach).round() - 1.0 >= 0.0 && (c + reach).round() + 1.0 < n as f64
                };
                if !inside(x as f64, w) || !inside(y as f64, h) {
                    continue;
                }
                let off = 0.5 * (ratio - 1.0);
                out.push(Cand {
                    level: id,
                    ix: x,
                    iy: y,
                    x: x as f64 * ratio + off,
                    y: y as f64 * ratio + off,
                    response: v,
                    size,
                    margin: ((v - s.threshold) / v).min((v - around) / v),
                });
            }
        }
    }
    out
}

/// Thin out candidates that repeat each other, in the order of the scale space.
pub fn thin(cands: &[Cand], levels: &[Level]) -> Vec<Cand> {
    let mut cache: Vec<Cand> = vec![];
    'next: for c in cands {
        let ratio = 2f64.powi(levels[c.level].octave as i32);
        let mut slot = None;
        for (k, p) in cache.iter().enumerate() {
            if c.level == p.level || c.level == p.level + 1 {
                let d2 = (c.ix as f64 * ratio - p.x).powi(2) + (c.iy as f64 * ratio - p.y).powi(2);
                if d2 <= c.size * c.size {
                    if c.response <= p.response {
                        continue 'next;
                    }
                    slot = Some(k);
                    break;
                }
            }
        }
        match slot {
            Some(k) => cache[k] = c.clone(),
            None => cache.push(c.clone()),
        }
    }
    (0..cache.len())
        .filter(|&i| {
            let a = &cache[i];
            !cache[i + 1..].iter().any(|b| {
                a.level + 1 == b.level
                    && (a.x - b.x).powi(2) + (a.y - b.y).powi(2) <= a.size * a.size
                    && a.response <= b.response
            })
        })
        .map(|i| cache[i].clone())
        .collect()
}

/// The candidates about which rounding may decide: hardly a maximum or above the threshold, hardly
/// better than one that it repeats, hardly as near as to repeat it, hardly refined within a pixel.
pub fn doubtful(levels: &[Level], s: &Settings) -> Vec<Cand> {
    let all = candidates(levels, s, 5e-3);
    let noise = |c: &Cand| 1e-3 * c.response + 4.0 * levels[c.level].noise.at(c.ix, c.iy);
    let pair = |a: &Cand, b: &Cand| {
        let ratio = |c: &Cand| 2f64.powi(levels[c.level].octave as i32);
        let size = a.size.max(b.size);
        let d = (a.x - b.x).hypot(a.y - b.y);
        let e = (b.ix as f64 * ratio(b) - a.x).hypot(b.iy as f64 * ratio(b) - a.y);
        let near = d.min(e) <= size * 1.001;
        let edge = |d: f64, size: f64| (d / size - 1.0).abs() < 1e-3;
        near && ((a.response - b.response).abs() <= noise(a) + noise(b)
            || [a.size, b.size].iter().any(|&z| edge(d, z) || edge(e, z)))
    };
    all.iter()
        .filter(|c| {
            c.margin * c.response <= noise(c)
                || !(offset(c, levels).iter().all(|d| (d.abs() - 1.0).abs() > 0.02))
                || all.iter().any(|o| {
                    o.level.abs_diff(c.level) <= 1 && (o.level, o.ix, o.iy) != (c.level, c.ix, c.iy) && (pair(c, o) || pair(o, c))
                })
        })
        .cloned()
        .collect()
}

/// Where the parabola through a candidate and its neighbours has its top.
fn offset(c: &Cand, levels: &[Level]) -> [f64; 2] {
    let l = &levels[c.level];
    let d = |dx: isize, dy: isize| {
        l.det.at((c.ix as isize + dx) as usize, (c.iy as isize + dy) as usize)
    };
    let gx = 0.5 * (d(1, 0) - d(-1, 0));
    let gy = 0.5 * (d(0, 1) - d(0, -1));
    let hxx = d(1, 0) + d(-1, 0) - 2.0 * d(0, 0);
    let hyy = d(0, 1) + d(0, -1) - 2.0 * d(0, 0);
    let hxy = 0.25 * (d(1, 1) + d(-1, -1) - d(1, -1) - d(-1, 1));
    let det = hxx * hyy - hxy * hxy;
    [-(hyy * gx - hxy * gy) / det, -(hxx * gy - hxy * gx) / det]
}

const GAUSS: [[f64; 7]; 7] = [
    [0.02546481, 0.02350698, 0.01849125, 0.01239505, 0.00708017, 0.00344629, 0.00142946],
    [0.02350698, 0.02169968, 0.01706957, 0.01144208, 0.00653582, 0.00318132, 0.00131956],
    [0.01849125, 0.01706957, 0.01342740, 0.00900066, 0.00514126, 0.00250252, 0.00103800],
    [0.01239505, 0.01144208, 0.00900066, 0.00603332, 0.00344629, 0.00167749, 0.00069579],
    [0.00708017, 0.00653582, 0.00514126, 0.00344629, 0.00196855, 0.00095820, 0.00039744],
    [0.00344629, 0.00318132, 0.00250252, 0.00167749, 0.00095820, 0.00046640, 0.00020234],
    [0.00142946, 0.00131956, 0.00103800, 0.00069579, 0.00039744, 0.00020234, 0.00008024],
];

/// Less than this of a pixel can be lost to rounding.
pub const NUDGES: [(f64, f64); 4] = [(1e-3, 1e-3), (1e-3, -1e-3), (-1e-3, 1e-3), (-1e-3, -1e-3)];

/// The direction of a feature, and whether it is clear: whether every sum that could be the longest,
/// up to rounding, points there.
pub fn orientation(l: &Level, size: f64, x: f64, y: f64) -> (f64, bool) {
    let ratio = 2f64.powi(l.octave as i32);
    let scale = (0.5 * size / ratio).round();
    let (xf, yf) = (x / ratio, y / ratio);
    // Orientation: the longest sum of gradients within a window of 60 degrees.
    let mut g = vec![];
    for j in -6i32..=6 {
        for i in -6i32..=6 {
            if i * i + j * j < 36 {
                let ix = (xf + i as f64 * scale).round() as usize;
                let iy = (yf + j as f64 * scale).round() as usize;
                let w = GAUSS[j.unsigned_abs() as usize][i.unsigned_abs() as usize];
                let (a, b) = (w * l.lx.at(ix, iy), w * l.ly.at(ix, iy));
                g.push((a, b, b.atan2(a).rem_euclid(std::f64::consts::TAU)));
            }
        }
    }
    let tau = std::f64::consts::TAU;
    // The sum in every window of the samples that are surely inside, and how much those may add
    // that rounding could put on either side of an edge. The window is open at zero too.
    let mut sums = vec![];
    let mut a1 = 0f64;
    while a1 < tau {
        let (mut sx, mut sy, mut open) = (0.0, 0.0, 0.0);
        for &(a, b, t) in &g {
            let noise = 1e-5 + l.gnoise / a.hypot(b).max(1e-300);
            let d = (t - a1 + noise).rem_euclid(tau) - noise;
            if d <= -noise || d >= std::f64::consts::PI / 3.0 + noise {
                continue;
            }
            if d <= noise || d >= std::f64::consts::PI / 3.0 - noise || t.min(tau - t) <= noise {
                open += a.hypot(b);
            } else {
                sx += a;
                sy += b;
            }
        }
        sums.push((sx.hypot(sy), sy.atan2(sx).rem_euclid(tau), open));
        a1 += 0.15;
    }
    let best = sums.iter().cloned().fold((0.0, 0.0, 0.0), |b, v| if v.0 > b.0 { v } else { b });
    let apart = |a: f64| {
        let d = (a - best.1).rem_euclid(tau);
        d.min(tau - d)
    };
    let clear = best.0 > 0.0
        && sums.iter().filter(|v| v.0 + v.2 >= (best.0 - best.2) * 0.99).all(|v| {
            apart(v.1) + v.2 / v.0.max(1e-300) < 0.015
        });
    (best.1, clear)
}

/// The feature at a candidate, refined, oriented and described; none when it is not a maximum that
/// a parabola can be put through within a pixel.
pub fn refine(c: &Cand, levels: &[Level], s: &Settings) -> Option<Feature> {
    let l = &levels[c.level];
    let ratio = 2f64.powi(l.octave as i32);
    let [dx, dy] = offset(c, levels);
    if !(dx.abs() <= 1.0 && dy.abs() <= 1.0) {
        return None;
    }
    let off = 0.5 * (ratio - 1.0);
    let (x, y) = ((c.ix as f64 + dx) * ratio + off, (c.iy as f64 + dy) * ratio + off);
    let size = 2.0 * c.size;
    let (angle, clear) = orientation(l, size, x, y);
    let mut f = Feature {
        level: c.level,
        octave: l.octave,
        x,
        y,
        response: c.response,
        noise: l.noise.at(c.ix, c.iy),
        size,
        angle,
        clear,
        bits: vec![],
    };
    f.bits = describe(&f, l, s, f.x, f.y, f.angle)?;
    Some(f)
}

/// The binary descriptor at a place and angle: averages of brightness and of the turned gradient
/// over grids of 2x2, 3x3 and 4x4 cells, each compared with every later one.
pub fn describe(f: &Feature, l: &Level, s: &Settings, x: f64, y: f64, angle: f64) -> Option<Vec<f64>> {
    let ratio = 2f64.powi(l.octave as i32);
    let scale = (0.5 * f.size / ratio).round();
    let (xf, yf) = (x / ratio, y / ratio);
    let (si, co) = angle.sin_cos();
    let p = s.pattern as i32;
    let mut bits = vec![];
    for (cells, part) in [(2usize, 1.0), (3, 2.0 / 3.0), (4, 0.5)] {
        let step = (s.pattern as f64 * part - 1e-4).ceil() as i32;
        let mut vals: Vec<[f64; 3]> = vec![];
        let mut i = -p;
        while i < p {
            let mut j = -p;
            while j < p {
                let mut v = [0.0; 3];
                for k in i..i + step {
                    for m in j..j + step {
                        let (k, m) = (k as f64, m as f64);
                        let sx = (xf + scale * (k * co - m * si)).round();
                        let sy = (yf + scale * (m * co + k * si)).round();
                        if sx < 0.0 || sy < 0.0 || sx >= l.lt.w as f64 || sy >= l.lt.h as f64 {
                            return None;
                        }
                        let (sx, sy) = (sx as usize, sy as usize);
                        let (gx, gy) = (l.lx.at(sx, sy), l.ly.at(sx, sy));
                        v[0] += l.lt.at(sx, sy);
                        if s.channels == 2 {
                            v[1] += gx.hypot(gy);
                        } else {
                            v[1] += gy * co - gx * si;
                            v[2] += gx * co + gy * si;
                        }
                    }
                }
                vals.push(v.map(|x| x / (step * step) as f64));
                j += step;
            }
            i += step;
        }
        debug_assert_eq!(vals.len(), cells * cells);
        for c in 0..s.channels {
            let noise = if c == 0 { l.lnoise } else { l.gnoise };
            for a in 0..vals.len() {
                for b in a + 1..vals.len() {
                    bits.push((vals[a][c] - vals[b][c]) / noise.max(1e-300));
                }
            }
        }
    }
    Some(bits)
}
