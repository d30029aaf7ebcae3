T = "cv-geom/src/triangulation.rs"
BUGS = []

def bug(id, prop, needs, breaks, edits, main):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main))

MANY = """
use common::*;
use cv_core::nalgebra::{IsometryMatrix3, Point3, Rotation3, UnitVector3, Vector3};
use cv_core::*;
use cv_geom::triangulation::*;
"""

CHIR_ALL = """                // Ensure the cheirality constraint.
                pairs.all(|(pose, bearing)| {"""
bug("c01-third-camera", "C01",
    "three or more observations, with a corrupt (mirrored) bearing from the third camera or a later one",
    "the linear triangulator checks chirality only in the first two cameras, so it returns points behind a later camera",
    [(T, CHIR_ALL, """                // Ensure the cheirality constraint.
                pairs.by_ref().take(2).all(|(pose, bearing)| {""")],
    MANY + """
fn main() {
    let mut g = Rng(1);
    for i in 0..200 {
        let p = g.vec(1.0) + Vector3::z() * 6.0;
        let mut obs = vec![];
        for k in 0..4 {
            let iso = g.iso(0.7, 0.2);
            let b = sees(&iso, p);
            obs.push((WorldToCamera(iso), if k == 2 + i % 2 { -b } else { b }));
        }
        if let Some(q) = LinearEigenTriangulator::new().triangulate_observations(obs.iter().copied()) {
            for (pose, b) in &obs {
                if pose.transform(q).bearing().dot(b) < -1e-6 {
                    fail(format!("scene {i}: the point is behind a camera that saw it"));
                }
            }
        }
    }
}
""")

bug("c01-any-camera", "C01",
    "several observations of which at least one but not all contradict the triangulated point",
    "the mean-mean triangulator accepts a point that is in front of any camera rather than every camera",
    [(T, """            // Ensure the cheirality constraint.
            pairs.all(|(pose, bearing)| {""", """            // Ensure the cheirality constraint.
            pairs.any(|(pose, bearing)| {""")],
    MANY + """
fn main() {
    let mut g = Rng(2);
    for i in 0..2000 {
        let obs: Vec<_> = (0..3).map(|_| (WorldToCamera(g.iso(2.0, 3.0)), unit(g.vec(1.0)))).collect();
        if let Some(q) = MeanMeanTriangulator.triangulate_observations(obs.iter().copied()) {
            for (pose, b) in &obs {
                if pose.transform(q).bearing().dot(b) < -1e-6 {
                    fail(format!("scene {i}: the point is behind a camera that saw it"));
                }
            }
        }
    }
}
""")


bug("c02-backward-bearing", "C02",
    "an exact match whose bearing in camera A has negative z (a wide-angle or omnidirectional camera)",
    "the direct linear transform builds its first rows from the absolute z of the bearing, so it returns a wrong point for backward bearings",
    [(T, """            .copy_from(&RowVector4::new(-a.z, 0.0, a.x, 0.0));
        design
            .row_mut(1)
            .copy_from(&RowVector4::new(0.0, -a.z, a.y, 0.0));""",
      ("""            .copy_from(&RowVector4::new(-a.z.abs(), 0.0, a.x, 0.0));
        design
            .row_mut(1)
            .copy_from(&RowVector4::new(0.0, -a.z.abs(), a.y, 0.0));""", 0))],
    MANY + """
fn main() {
    let mut g = Rng(4);
    let tr = RelativeDltTriangulator::new();
    for i in 0..500 {
        let iso = g.iso(1.0, 3.0);
        let p = g.vec(1.0) + if i % 2 == 0 { 4.0 } else { -4.0 } * Vector3::z();
        let got = tr.triangulate_relative(CameraToCamera(iso), unit(p), sees(&iso, p)).and_then(|q| q.point());
        match got {
            Some(q) if (q.coords - p).norm() < 1e-4 => {}
            other => fail(format!("match {i}: {other:?} instead of {p:?}")),
        }
    }
}
""")

bug("c02-far-landmarks", "C02",
    "a landmark that is at infinity or more than a million units away",
    "the linear triangulator refuses points whose homogeneous coordinate is below a threshold, so far landmarks and those at infinity are lost",
    [(T, """            .map(WorldPoint::from_homogeneous)
            .filter(|point| {
                // Ensure the point contains no NaN or infinity.
                point.homogeneous().iter().all(|n| n.is_finite())
            })
            .filter(|point| {
                // Ensure the cheirality constraint.
                pairs.all""", """            .map(WorldPoint::from_homogeneous)
            .filter(|point| {
                // Ensure the point contains no NaN or infinity.
                point.homogeneous().iter().all(|n| n.is_finite()) && point.0.w > 1e-6
            })
            .filter(|point| {
                // Ensure the cheirality constraint.
                pairs.all""")],
    MANY + """
fn main() {
    let mut g = Rng(5);
    for i in 0..100 {
        let dir = unit(g.vec(1.0));
        let obs: Vec<_> = (0..4)
            .map(|_| {
                let iso = g.iso(1.0, 3.0);
                (WorldToCamera(iso), unit(iso.rotation * dir.into_inner() * 1e8 + iso.translation.vector))
            })
            .collect();
        let mut found = false;
        let tr = LinearEigenTriangulator::new();
        for k in 2..5 {
            if let Some(q) = tr.triangulate_observations(obs.iter().copied().take(k)) {
                found |= q.bearing().dot(&dir).abs() > 1.0 - 1e-6;
            }
        }
        // A point this far cannot be told from its mirror image at infinity, which chirality refuses.
        if found {
            return;
        }
        if i == 99 {
            fail("no far landmark is ever triangulated".into());
        }
    }
}
""")

bug("c03-fixed-step", "C03",
    "five or more noisy observations of one landmark",
    "the refinement step is divided by two instead of by the number of observations, so it diverges when there are many",
    [(T, "let scale = self.optimization_rate / pairs.clone().count() as f64;", "let scale = self.optimization_rate / pairs.clone().count().min(2) as f64;")],
    MANY + """
fn cost(obs: &[(WorldToCamera, UnitVector3<f64>)], p: Vector3<f64>) -> f64 {
    obs.iter()
        .map(|(w, b)| {
            let q = w.0.rotation * p + w.0.translation.vector;
            (q - b.into_inner() * q.dot(b)).norm_squared()
        })
        .sum()
}
fn main() {
    let mut g = Rng(6);
    for i in 0..60 {
        let p = g.vec(1.0) + Vector3::z() * 5.0;
        let obs: Vec<_> = (0..3 + i % 8)
            .map(|_| {
                let iso = g.iso(1.5, 0.3);
                (WorldToCamera(iso), unit(sees(&iso, p).into_inner() + g.vec(0.003)))
            })
            .collect();
        let lin = LinearEigenTriangulator::new().triangulate_observations(obs.iter().copied()).and_then(|q| q.point());
        let fine = SineL1Triangulator::new().triangulate_observations(obs.iter().copied()).and_then(|q| q.point());
        let (lin, fine) = match (lin, fine) {
            (Some(l), Some(f)) => (l.coords, f.coords),
            _ => fail(format!("scene {i}: no point")),
        };
        if cost(&obs, fine) > cost(&obs, lin) * 1.0001 + 1e-12 {
            fail(format!("scene {i}: refinement made the error worse, {} > {}", cost(&obs, fine), cost(&obs, lin)));
        }
    }
}
""")

bug("c03-loose-stop", "C03",
    "noisy observations with a short baseline, where refinement converges slowly",
    "the stopping rule compares a squared step with an unsquared threshold, so refinement ends far from the optimum",
    [(T, "let epsilon_squared = self.epsilon * self.epsilon;", "let epsilon_squared = self.epsilon;")],
    MANY + """
fn main() {
    let mut g = Rng(7);
    for i in 0..60 {
        let p = g.vec(1.0) + Vector3::z() * 6.0;
        let obs: Vec<_> = (0..3)
            .map(|_| {
                let iso = g.iso(0.6, 0.2);
                (WorldToCamera(iso), unit(sees(&iso, p).into_inner() + g.vec(0.003)))
            })
            .collect();
        let at = |n: usize, e: f64| {
            SineL1Triangulator::new().max_iterations(n).epsilon(e).triangulate_observations(obs.iter().copied()).and_then(|q| q.point())
        };
        let (a, b) = (at(100_000, 1e-12), at(200_000, 1e-12));
        let c = at(400_000, 1e-15);
        if let (Some(a), Some(b), Some(c)) = (a, b, c) {
            if (a - b).norm() > 1e-9 || (a - c).norm() > 1e-6 {
                fail(format!("scene {i}: stopped {:e} before the point it converges to", (a - c).norm()));
            }
        }
    }
}
""")

bug("c03-l1-wrong-side", "C03",
    "a noisy match whose bearings make clearly different angles with the baseline",
    "the L1 triangulator corrects the bearing that costs more instead of the one that costs less",
    [(T, "let (a, b) = if cross_a_norm < cross_b_norm {", "let (a, b) = if cross_a_norm > cross_b_norm {")],
    MANY + """
fn main() {
    let mut g = Rng(8);
    for i in 0..300 {
        let iso = g.iso(1.0, 0.5);
        let p = g.vec(1.5) + Vector3::z() * 3.0;
        let (a, b) = (unit(unit(p).into_inner() + g.vec(0.01)), unit(sees(&iso, p).into_inner() + g.vec(0.01)));
        let q = match AngularL1Triangulator.triangulate_relative(CameraToCamera(iso), a, b).and_then(|q| q.point()) {
            Some(q) => q.coords,
            None => continue,
        };
        let cost = |q: Vector3<f64>| {
            let ang = |u: UnitVector3<f64>, v: UnitVector3<f64>| u.cross(&v).norm().atan2(u.dot(&v));
            ang(unit(q), a) + ang(sees(&iso, q), b)
        };
        // The two closed-form candidates: correct one bearing into the epipolar plane of the other.
        let t = iso.rotation.inverse() * -iso.translation.vector;
        let bw = unit(iso.rotation.inverse() * b.into_inner());
        let (na, nb) = (a.cross(&t).normalize(), bw.cross(&t).normalize());
        let best = (a.dot(&nb).abs().asin()).min(bw.dot(&na).abs().asin());
        if cost(q) > best * 1.0001 + 1e-9 {
            fail(format!("match {i}: angular error {} but {} is possible", cost(q), best));
        }
    }
}
""")

bug("c03-linf-wrong-plane", "C03",
    "any noisy match: exact ones do not tell the two candidate planes apart",
    "the L-infinity triangulator projects onto the plane with the larger angular error",
    [(T, "let n = if na_mag_squared > nb_mag_squared {", "let n = if na_mag_squared < nb_mag_squared {")],
    MANY + """
fn main() {
    let mut g = Rng(9);
    for i in 0..300 {
        let iso = g.iso(1.0, 0.5);
        let p = g.vec(1.0) + Vector3::z() * 4.0;
        let (a, b) = (unit(unit(p).into_inner() + g.vec(0.005)), unit(sees(&iso, p).into_inner() + g.vec(0.005)));
        let Some(q) = AngularLInfinityTriangulator.triangulate_relative(CameraToCamera(iso), a, b).and_then(|q| q.point()) else { continue };
        let ang = |u: UnitVector3<f64>, v: UnitVector3<f64>| u.cross(&v).norm().atan2(u.dot(&v));
        let cost = |q: Vector3<f64>| ang(unit(q), a).max(ang(sees(&iso, q), b));
        if cost(q.coords) > cost(p) * 1.001 + 1e-9 {
            fail(format!("match {i}: worst angle {} but the true point has {}", cost(q.coords), cost(p)));
        }
    }
}
""")

bug("c04-degraded-answer", "C04",
    "an iteration budget that is too small for the decomposition to converge",
    "the linear triangulator falls back to a coarse decomposition when the budget runs out, returning a different point instead of none",
    [(T, "let se = a.try_symmetric_eigen(self.epsilon, self.max_iterations)?;", """let se = a
            .try_symmetric_eigen(self.epsilon, self.max_iterations)
            .or_else(|| a.try_symmetric_eigen(self.epsilon.max(1e-2), 0))?;""")],
    MANY + """
fn main() {
    let mut g = Rng(10);
    for i in 0..200 {
        let p = g.vec(1.0) + Vector3::z() * 4.0;
        let obs: Vec<_> = (0..3)
            .map(|_| {
                let iso = g.iso(1.0, 0.5);
                (WorldToCamera(iso), sees(&iso, p))
            })
            .collect();
        for n in 1..30 {
            if let Some(q) = LinearEigenTriangulator::new().max_iterations(n).triangulate_observations(obs.iter().copied()) {
                let e = q.point().map_or(f64::INFINITY, |q| (q.coords - p).norm());
                if e > 1e-4 {
                    fail(format!("scene {i}: budget {n} gave a point {e} away"));
                }
            }
        }
    }
}
""")

bug("c04-tight-default", "C04",
    "a well-posed match whose decomposition needs more than nine steps",
    "the default iteration budget of the direct linear transform is too small for some well-posed problems",
    [(T, """impl Default for RelativeDltTriangulator {
    fn default() -> Self {
        Self {
            epsilon: 1e-12,
            max_iterations: 1000,""", """impl Default for RelativeDltTriangulator {
    fn default() -> Self {
        Self {
            epsilon: 1e-12,
            max_iterations: 6,""")],
    MANY + """
fn main() {
    let mut g = Rng(11);
    let mut none = 0;
    for _ in 0..3000 {
        let iso = g.iso(1.0, 1.0);
        let p = g.vec(1.0) + Vector3::z() * 4.0;
        if RelativeDltTriangulator::new().triangulate_relative(CameraToCamera(iso), unit(p), sees(&iso, p)).is_none() {
            none += 1;
        }
    }
    if none > 0 {
        fail(format!("{none} of 3000 exact matches have no point with the default budget"));
    }
}
""")
