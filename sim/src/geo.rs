//! Ground-truth geometry for the simulated world.
//!
//! Everything here is computed with plain nalgebra vectors and matrices (never with the
//! repository's own pose, point or camera types), so that it is an independent reference.

use crate::rng::Rng;
use cv_core::nalgebra::{
    IsometryMatrix3, Matrix3, Rotation3, UnitVector3, Vector2, Vector3, Vector4,
};

pub type V3 = Vector3<f64>;
pub type V4 = Vector4<f64>;
pub type M3 = Matrix3<f64>;
pub type U3 = UnitVector3<f64>;
pub type Iso = IsometryMatrix3<f64>;

/// A rigid transform `x -> r * x + t`, kept as bare matrices.
#[derive(Clone, Copy, Debug)]
pub struct Rt {
    pub r: M3,
    pub t: V3,
}

impl Rt {
    pub fn identity() -> Self {
        Rt {
            r: M3::identity(),
            t: V3::zeros(),
        }
    }
    pub fn apply(&self, p: &V3) -> V3 {
        self.r * p + self.t
    }
    pub fn inv(&self) -> Rt {
        let r = self.r.transpose();
        Rt { r, t: -(r * self.t) }
    }
    /// `self` after `other`.
    pub fn after(&self, other: &Rt) -> Rt {
        Rt {
            r: self.r * other.r,
            t: self.r * other.t + self.t,
        }
    }
    pub fn center(&self) -> V3 {
        -(self.r.transpose() * self.t)
    }
    pub fn iso(&self) -> Iso {
        IsometryMatrix3::from_parts(self.t.into(), Rotation3::from_matrix_unchecked(self.r))
    }
    pub fn of_iso(i: &Iso) -> Rt {
        Rt {
            r: *i.rotation.matrix(),
            t: i.translation.vector,
        }
    }
}

/// Rodrigues formula, written out.
pub fn rodrigues(axis: &V3, angle: f64) -> M3 {
    let k = axis / axis.norm();
    let kx = M3::new(0.0, -k.z, k.y, k.z, 0.0, -k.x, -k.y, k.x, 0.0);
    M3::identity() + kx * angle.sin() + kx * kx * (1.0 - angle.cos())
}

/// The angle of the rotation `m`, accurate for small angles as well.
pub fn rot_angle(m: &M3) -> f64 {
    let v = V3::new(
        m[(2, 1)] - m[(1, 2)],
        m[(0, 2)] - m[(2, 0)],
        m[(1, 0)] - m[(0, 1)],
    ) * 0.5;
    v.norm().atan2((m.trace() - 1.0) * 0.5)
}

pub fn rot_diff(a: &M3, b: &M3) -> f64 {
    if !(a.iter().all(|x| x.is_finite()) && b.iter().all(|x| x.is_finite())) {
        return f64::INFINITY;
    }
    rot_angle(&(a * b.transpose()))
}

/// How far `m` is from being a proper rotation.
pub fn rot_defect(m: &M3) -> f64 {
    if !m.iter().all(|x| x.is_finite()) {
        return f64::INFINITY;
    }
    let o = (m * m.transpose() - M3::identity()).abs().max();
    o.max((m.determinant() - 1.0).abs())
}

/// Angle between two directions, accurate at both ends.
pub fn ang(a: &V3, b: &V3) -> f64 {
    a.cross(b).norm().atan2(a.dot(b))
}

pub fn rand_unit(rng: &mut Rng) -> V3 {
    loop {
        let v = V3::new(rng.normal(), rng.normal(), rng.normal());
        let n = v.norm();
        if n > 1e-3 {
            return v / n;
        }
    }
}

/// Uniform rotation.
pub fn rand_rot(rng: &mut Rng) -> M3 {
    let (mut a, mut b);
    loop {
        a = rand_unit(rng);
        b = rand_unit(rng);
        if a.cross(&b).norm() > 0.05 {
            break;
        }
    }
    let z = a;
    let x = a.cross(&b).normalize();
    let y = z.cross(&x);
    M3::from_columns(&[x, y, z])
}

/// The rotations that map the axes to the axes: 24 of them, the first is the identity. Every entry is
/// exactly 0, 1 or -1.
pub fn quarter_turns(i: usize) -> M3 {
    let mut n = 0;
    for p in 0..6 {
        let perm = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]][p];
        for signs in 0..8 {
            let mut m = M3::zeros();
            for k in 0..3 {
                m[(k, perm[k])] = if signs >> k & 1 == 1 { -1.0 } else { 1.0 };
            }
            let odd = (p >= 3) ^ ((signs as u32).count_ones() % 2 == 1);
            if !odd {
                if n == i % 24 {
                    return m;
                }
                n += 1;
            }
        }
    }
    unreachable!()
}

/// A camera at `center` looking towards `target`, rolled by `roll`.
pub fn look_at(center: &V3, target: &V3, roll: f64, rng: &mut Rng) -> Rt {
    let z = (target - center).normalize();
    let mut up = rand_unit(rng);
    while up.cross(&z).norm() < 0.1 {
        up = rand_unit(rng);
    }
    let x = up.cross(&z).normalize();
    let y = z.cross(&x);
    let base = M3::from_rows(&[x.transpose(), y.transpose(), z.transpose()]);
    let r = rodrigues(&V3::z(), roll) * base;
    Rt {
        r,
        t: -(r * center),
    }
}

pub fn unit(v: V3) -> U3 {
    UnitVector3::new_normalize(v)
}

/// Rotates a direction by a random perpendicular angle of size `angle`.
pub fn tilt(v: &V3, angle: f64, rng: &mut Rng) -> V3 {
    let mut k = rand_unit(rng);
    while k.cross(v).norm() < 0.1 {
        k = rand_unit(rng);
    }
    let axis = k.cross(v);
    rodrigues(&axis, angle) * v
}

/// A pinhole camera with focal lengths, skew, principal point and division-model distortion, as
/// an independent reference of what the sensor does.
#[derive(Clone, Copy, Debug)]
pub struct Sensor {
    pub f: Vector2<f64>,
    pub c: Vector2<f64>,
    pub skew: f64,
    pub k1: f64,
}

impl Sensor {
    /// Direction in the camera frame to pixel; `None` when it is not in front.
    pub fn project(&self, d: &V3) -> Option<Vector2<f64>> {
        if d.z <= 0.0 {
            return None;
        }
        let u = Vector2::new(d.x / d.z, d.y / d.z);
        let ru = u.norm();
        // Find the distorted radius rd with rd / (1 + k1 rd^2) = ru by bisection.
        let rd = if self.k1 == 0.0 || ru == 0.0 {
            ru
        } else {
            let g = |rd: f64| rd / (1.0 + self.k1 * rd * rd) - ru;
            // For k1 < 0 the map is increasing up to the pole rd^2 = -1/k1; for k1 > 0 it rises
            // until rd^2 = 1/k1.
            let lim = 1.0 / self.k1.abs().sqrt();
            let (mut lo, mut hi) = (0.0, lim * (1.0 - 1e-12));
            if g(hi) < 0.0 {
                return None;
            }
            for _ in 0..200 {
                let mid = 0.5 * (lo + hi);
                if g(mid) < 0.0 {
                    lo = mid;
                } else {
                    hi = mid;
                }
            }
            0.5 * (lo + hi)
        };
        let d = if ru == 0.0 { u } else { u * (rd / ru) };
        Some(Vector2::new(
            d.x * self.f.x + self.skew * d.y + self.c.x,
            d.y * self.f.y + self.c.y,
        ))
    }
}

/// Singular values and right singular vectors of a small dense matrix by one-sided Jacobi, which
/// keeps small singular values accurate; the reference for every null vector. Sorted ascending.
pub fn jacobi_svd(rows: &[Vec<f64>]) -> Vec<(f64, Vec<f64>)> {
    let n = rows[0].len();
    let mut a: Vec<Vec<f64>> = (0..n)
        .map(|j| rows.iter().map(|r| r[j]).collect())
        .collect();
    let mut v: Vec<Vec<f64>> = (0..n)
        .map(|j| (0..n).map(|i| f64::from(u8::from(i == j))).collect())
        .collect();
    let dot = |x: &[f64], y: &[f64]| x.iter().zip(y).map(|(a, b)| a * b).sum::<f64>();
    for _ in 0..60 {
        let mut off = 0.0f64;
        for p in 0..n {
            for q in p + 1..n {
                let (al, be, ga) = (dot(&a[p], &a[p]), dot(&a[q], &a[q]), dot(&a[p], &a[q]));
                if ga == 0.0 {
                    continue;
                }
                off = off.max(ga.abs() / (al * be).sqrt().max(1e-300));
                let z = (be - al) / (2.0 * ga);
                let t = z.signum() / (z.abs() + (1.0 + z * z).sqrt());
                let c = 1.0 / (1.0 + t * t).sqrt();
                let s = c * t;
                for m in [&mut a, &mut v] {
                    for i in 0..m[p].len() {
                        let (x, y) = (m[p][i], m[q][i]);
                        m[p][i] = c * x - s * y;
                        m[q][i] = s * x + c * y;
                    }
                }
            }
        }
        if off < 1e-15 {
            break;
        }
    }
    let mut out: Vec<(f64, Vec<f64>)> = a
        .iter()
        .zip(v)
        .map(|(c, v)| (dot(c, c).sqrt(), v))
        .collect();
    out.sort_by(|x, y| x.0.total_cmp(&y.0));
    out
}
