//! The simulated scene shared by the scenarios: cameras, landmarks and what the cameras see.

use crate::geo::*;
use crate::rng::Rng;
use crate::sim::Plan;

pub struct World {
    pub cams: Vec<Rt>,
    pub lms: Vec<V3>,
    pub scale: f64,
}

impl World {
    /// Knobs: `cams`, `lms`, `scale`, `layout` (0 shell around the scene, 1 cluster on one side,
    /// 2 forward motion along a corridor,
    /// 3 everything on a grid), `omni` (cameras that look anywhere), `shift` (where the
    /// scene lies relative to the world origin), `home` (the world origin is at a camera).
    pub fn new(plan: &Plan) -> World {
        let scale = plan.k("scale");
        let shift = plan.k("shift");
        let mut off = plan.entity("shift", 0, 0);
        let offset = rand_unit(&mut off) * shift;
        let cams = (0..plan.ku("cams"))
            .map(|i| camera(plan, i, scale, &offset))
            .collect();
        let lms = (0..plan.ku("lms"))
            .map(|j| {
                let mut r = plan.entity("lm", j, 0);
                let p = if plan.ku("layout") == 3 {
                    grid_point(&mut r)
                } else {
                    rand_unit(&mut r) * r.f().cbrt()
                };
                (p * plan.k("far").max(1.0) + offset) * scale
            })
            .collect();
        let mut w = World { cams, lms, scale };
        w.settle(plan.ku("home"));
        w
    }

    /// Puts the world origin where it usually is: at a camera (1), or at a camera and turned
    /// like it (2).
    fn settle(&mut self, home: usize) {
        let Some(&first) = self.cams.first() else { return };
        let to = match home {
            0 => return,
            1 => Rt { r: M3::identity(), t: -first.center() },
            _ => first,
        };
        let back = to.inv();
        for l in &mut self.lms {
            *l = to.apply(l);
        }
        for c in &mut self.cams {
            *c = c.after(&back);
        }
        self.cams[0] = Rt { r: first.r * back.r, t: V3::zeros() };
        if home > 1 {
            self.cams[0] = Rt::identity();
        }
    }

    pub fn knobs(plan: &mut Plan, rng: &mut Rng, cams: (usize, usize), lms: (usize, usize)) {
        plan.world = rng.u64();
        plan.set("cams", rng.range(cams.0, cams.1) as f64);
        plan.set("lms", rng.range(lms.0, lms.1) as f64);
        let scale = if rng.chance(0.5) {
            1.0
        } else {
            rng.logu(0.05, 200.0)
        };
        plan.set("scale", scale);
        plan.set("layout", rng.below(4) as f64);
        plan.set("omni", f64::from(u8::from(rng.chance(0.2))));
        plan.set("shift", if rng.chance(0.3) { rng.uni(0.0, 10.0) } else { 0.0 });
        let mut home = plan.entity("home", 0, 0);
        plan.set("home", if home.chance(0.25) { home.range(1, 3) as f64 } else { 0.0 });
    }

    /// True direction of landmark `l` in camera `c`.
    pub fn bearing(&self, c: usize, l: usize) -> V3 {
        self.cams[c].apply(&self.lms[l]).normalize()
    }
}

/// A point of a coarse grid around the origin, other than the origin.
fn grid_point(r: &mut Rng) -> V3 {
    loop {
        let mut x = || r.range(0, 8) as f64 * 0.25 - 1.0;
        let p = V3::new(x(), x(), x());
        if p.norm() > 0.0 {
            return p;
        }
    }
}

fn camera(plan: &Plan, i: usize, scale: f64, offset: &V3) -> Rt {
    let mut r = plan.entity("cam", i, 0);
    let c = match plan.ku("layout") {
        0 => rand_unit(&mut r) * r.uni(2.5, 7.0),
        3 => grid_point(&mut r) * *r.pick(&[3.0, 4.0, 6.0]) + V3::z() * -8.0,
        1 => V3::new(r.uni(-1.5, 1.5), r.uni(-1.5, 1.5), r.uni(-6.0, -3.5)),
        _ => V3::new(
            r.uni(-0.3, 0.3),
            r.uni(-0.3, 0.3),
            -3.0 - 0.4 * i as f64 - r.uni(0.0, 0.2),
        ),
    };
    let target = rand_unit(&mut r) * 0.3;
    let roll = r.uni(0.0, std::f64::consts::TAU);
    let rt = if plan.k("omni") > 0.0 || plan.ku("layout") == 3 {
        let m = if plan.ku("layout") == 3 {
            // Half of the cameras of a rig look the same way.
            let i = r.below(48);
            quarter_turns(i.saturating_sub(24))
        } else {
            rand_rot(&mut r)
        };
        Rt { r: m, t: -(m * c) }
    } else {
        look_at(&c, &target, roll, &mut r)
    };
    // Move the scene away from the origin, then scale it.
    Rt {
        r: rt.r,
        t: (rt.t - rt.r * offset) * scale,
    }
}

/// A batch of observation lines `(center, direction)` in the world frame.
pub struct Lines {
    pub m: M3,
    pub v: V3,
    pub n: f64,
}

impl Lines {
    pub fn of(obs: impl Iterator<Item = (Rt, V3)>) -> Lines {
        let mut l = Lines {
            m: M3::zeros(),
            v: V3::zeros(),
            n: 0.0,
        };
        for (pose, b) in obs {
            let d = pose.r.transpose() * b;
            let q = M3::identity() - d * d.transpose() / d.norm_squared();
            l.m += q;
            l.v += q * pose.center();
            l.n += 1.0;
        }
        l
    }
    /// Smallest curvature of the mean squared point-to-line distance: its conditioning.
    pub fn curvature(&self) -> f64 {
        if self.n < 2.0 {
            return 0.0;
        }
        let e = self.m.symmetric_eigenvalues();
        e.iter().fold(f64::INFINITY, |a, b| a.min(*b)) / self.n
    }
    /// Point with the least sum of squared distances to the lines.
    pub fn closest(&self) -> Option<V3> {
        self.m.try_inverse().map(|i| i * self.v)
    }
}

/// Mean squared distance between a point and observation lines.
pub fn line_cost(p: &V3, obs: impl Iterator<Item = (Rt, V3)>) -> f64 {
    let mut s = 0.0;
    let mut n = 0.0;
    for (pose, b) in obs {
        let d = pose.r.transpose() * b;
        let x = p - pose.center();
        s += (x - d * (x.dot(&d) / d.norm_squared())).norm_squared();
        n += 1.0;
    }
    s / n
}
