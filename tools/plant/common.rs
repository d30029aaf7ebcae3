// Small helpers shared by the demonstrations.
#![allow(dead_code)]
use cv_core::nalgebra::{IsometryMatrix3, Point3, Rotation3, UnitVector3, Vector3};
use cv_core::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * ((self.next() >> 11) as f64 / (1u64 << 53) as f64)
    }
    pub fn vec(&mut self, s: f64) -> Vector3<f64> {
        Vector3::new(self.f(-s, s), self.f(-s, s), self.f(-s, s))
    }
    pub fn rot(&mut self, s: f64) -> Rotation3<f64> {
        Rotation3::new(self.vec(s))
    }
    pub fn iso(&mut self, t: f64, r: f64) -> IsometryMatrix3<f64> {
        IsometryMatrix3::from_parts(self.vec(t).into(), self.rot(r))
    }
}
pub fn unit(v: Vector3<f64>) -> UnitVector3<f64> {
    UnitVector3::new_normalize(v)
}
pub fn world(p: Vector3<f64>) -> WorldPoint {
    WorldPoint::from_point(Point3::from(p))
}
pub fn camera(p: Vector3<f64>) -> CameraPoint {
    CameraPoint::from_point(Point3::from(p))
}
/// The direction of a world position from a camera, computed without the library.
pub fn sees(pose: &IsometryMatrix3<f64>, p: Vector3<f64>) -> UnitVector3<f64> {
    unit(pose.rotation * p + pose.translation.vector)
}
pub fn motion_error(got: &IsometryMatrix3<f64>, want: &IsometryMatrix3<f64>) -> f64 {
    let r = (got.rotation.matrix() - want.rotation.matrix()).norm();
    let t = (got.translation.vector.normalize() - want.translation.vector.normalize()).norm();
    r + t
}
pub fn fail(msg: String) -> ! {
    println!("FAIL {msg}");
    std::process::exit(1)
}
