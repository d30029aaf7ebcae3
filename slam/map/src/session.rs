//! C17 to C20: mapping sessions of feeds of frames, with everything that happens to frames, to the
//! map and to the node that keeps it.

use crate::entropy;
use crate::node::*;
use crate::world::*;
use cv_core::{Pose, Projective, WorldToWorld};
use cv_sfm::VSlamSettings;
use cvsim::geo::*;
use cvsim::rng::Rng;
use cvsim::runner::Scenario;
use cvsim::sim::*;
use std::collections::{BTreeMap, HashMap};

#[derive(PartialEq, Clone, Copy)]
pub enum Mode {
    Integrity,
    Truth,
    Persistence,
    Faithful,
}
pub struct Session(pub Mode, pub &'static str);
pub static C17: Session = Session(Mode::Integrity, "C17");
pub static C18: Session = Session(Mode::Truth, "C18");
pub static C19: Session = Session(Mode::Persistence, "C19");
pub static C20: Session = Session(Mode::Faithful, "C20");

/// Simulated microseconds between two frames of a feed.
const PERIOD: u64 = 33_333;
/// Frames after the last fault by which a camera must be in a map.
const TAIL: usize = 5;

impl Session {
    fn knobs(&self, rng: &mut Rng, plan: &mut Plan) {
        plan.world = rng.u64();
        let truth = self.0 == Mode::Truth;
        plan.set("points", rng.range(70, 130) as f64);
        plan.set("cluster", if rng.chance(0.5) { rng.range(40, 60) as f64 } else { 0.0 });
        plan.set("focal", rng.uni(240.0, 330.0));
        plan.set("k1", if rng.chance(0.5) { rng.uni(-0.2, 0.1) } else { 0.0 });
        plan.set("feeds", rng.range(1, 3) as f64);
        plan.set("places", rng.range(1, 2) as f64);
        plan.set("flips", rng.range(0, 6) as f64);
        plan.set("miss", *rng.pick(&[0.0, 0.0, 0.05, 0.15]));
        plan.set("clutter", rng.range(0, 20) as f64);
        plan.set("noise", *rng.pick(&[0.0, 0.0, 0.01, 0.05]));
        plan.set("reversed", f64::from(u8::from(rng.chance(0.5))));
        plan.set("hash", rng.below(1 << 30) as f64);
        plan.set("rounds", rng.range(60, 200) as f64);
        plan.set("approximate", if rng.chance(0.3) { rng.range(1, if truth { 20 } else { 200 }) as f64 } else { 0.0 });
        // Settings of the node.
        plan.set("cosine", *rng.pick(&[1e-5, 1e-5, 1e-4]));
        plan.set("sine", *rng.pick(&[1e-1, 1e-2]));
        plan.set("min_landmarks", rng.range(8, 32) as f64);
        plan.set("min_observations", rng.range(2, 4) as f64);
        plan.set("incidence", *rng.pick(&[1e-3, 1e-3, 1e-4]));
        plan.set("consensus1", 1e-5);
        plan.set("consensus2", *rng.pick(&[1e-7, 1e-6]));
        plan.set("loops", rng.range(1, 3) as f64);
        // With too little patience poses are left half way to where they belong.
        plan.set("patience", *rng.pick(if truth { &[100.0, 200.0, 400.0] } else { &[10.0, 30.0, 100.0] }));
        plan.set("initial_features", *rng.pick(&[16.0, 40.0, 8192.0, 8192.0]));
        plan.set("better_by", 24.0);
        plan.set("min_matches", rng.range(30, 40) as f64);
        plan.set("features", if rng.chance(0.2) { rng.range(60, 100) as f64 } else { 8192.0 });
        plan.set("recent", rng.range(4, 16) as f64);
        plan.set("similar", if rng.chance(0.5) { rng.range(1, 6) as f64 } else { 0.0 });
        plan.set("similar_recent", rng.below(4) as f64);
        plan.set("max_constraints", rng.range(2, 12) as f64);
        // A node that demands more constraints than it allows itself never grows a map.
        let most = if truth { plan.ku("max_constraints").min(4) } else { 4 };
        plan.set("min_constraints", rng.range(1, most) as f64);
        plan.set("iterations", *rng.pick(&[1.0, 8.0, 32.0, if truth { 32.0 } else { 200.0 }]));
    }

    fn run_op(&self, plan: &Plan, n: &mut Node, op: &Op, places: &[Place], texture: &image::RgbImage, cx: &mut Cx) -> Res {
        match op.k.as_str() {
            "frame" => {
                let shown = show(plan, places, op, op.u(5));
                if shown.feed >= n.feeds.len() {
                    return Ok(());
                }
                if shown.fault != "clean" {
                    cx.fault(shown.fault);
                }
                if n.frames.iter().any(|f| f.1.feed == shown.feed && f.1.place == shown.place && f.1.s == shown.s) {
                    cx.fault("camera-stands-still");
                }
                let image = image_of(texture, &shown, plan.k("reversed") != 0.0);
                let before = hgg::sim::missed();
                let home = |n: &Node| -> Vec<_> { n.frames.iter().map(|f| n.v.data.frame(f.0).view.map(|v| v.0)).collect() };
                let was = home(n);
                let old = n.reconstructions();
                let f = n.v.add_frame(n.feeds[shown.feed], &image);
                let is = home(n);
                if (0..was.len()).any(|i| (0..i).any(|j| was[i].is_some() && was[j].is_some() && was[i] != was[j] && is[i].is_some() && is[i] == is[j])) {
                    cx.probe("reconstructions-merged");
                }
                if hgg::sim::missed() > before {
                    cx.fault("nearest-neighbour-overlooked");
                }
                let placed = n.v.data.frame(f).view.is_some();
                cx.probe(if placed { "frame-placed" } else { "frame-not-placed" });
                cx.log(format!("frame {} feed {} place {} {} {}", n.frames.len(), shown.feed, shown.place, shown.fault, placed));
                n.frames.push((f, shown));
                self.features(plan, n, texture, cx)?;
                for r in n.reconstructions() {
                    if !old.contains(&r) && fresh(n, r) {
                        cx.probe("map-begun");
                        let groups = filtered(n, r);
                        let bad = groups.iter().filter(|g| g.frames.iter().any(|f| !f.2)).count();
                        // Landmarks may have been merged for a view that was then not kept.
                        cx.ensure("map-begun-with-wrong-landmarks", bad <= 2 + groups.len() / 20, || {
                            format!("{bad} of {} landmarks do not agree with what was seen", groups.len())
                        })?;
                    }
                }
            }
            "similar" => n.v.settings.tracking_similar_frames = op.u(0),
            "optimize" => {
                if let Some(r) = n.pick(op.u(0)) {
                    let ok = n.v.optimize_reconstruction(r);
                    gone(n, r, ok.is_some(), cx)?;
                }
            }
            "constrain" => {
                if let Some(r) = n.pick(op.u(0)) {
                    let want = constrained(n, r);
                    let ok = n.v.apply_constraints(r);
                    gone(n, r, ok.is_some(), cx)?;
                    if let Some(want) = want {
                        cx.probe("constraints-applied");
                        let rec = n.v.data.reconstruction(r);
                        for (k, p) in &want {
                            let Some(v) = rec.views.get(*k) else {
                                return fail("constrained-view-missing", format!("{k:?}"));
                            };
                            let got = Rt::of_iso(&v.pose.isometry());
                            let e = rot_diff(&got.r, &p.r) + (got.t - p.t).norm() / (1.0 + p.t.norm());
                            cx.within("constrained-pose", e, 1e-8, || format!("{k:?} is at {got:?}, the constraints put it at {p:?}"))?;
                        }
                        cx.ensure("unconstrained-view-kept", rec.views.len() == want.len(), || {
                            format!("{} views are constrained, {} are kept", want.len(), rec.views.len())
                        })?;
                    }
                }
            }
            "regenerate" => {
                if let Some(r) = n.pick(op.u(0)) {
                    let ok = n.v.regenerate_reconstruction(r);
                    gone(n, r, ok.is_some(), cx)?;
                }
            }
            "filter" => {
                if let Some(r) = n.pick(op.u(0)) {
                    let want = filtered(n, r);
                    let ok = n.v.filter_non_robust_observations(r);
                    gone(n, r, ok.is_some(), cx)?;
                    if ok.is_some() {
                        self.together(n, r, &want, cx)?;
                    }
                }
            }
            "prune" => {
                if let Some(r) = n.pick(op.u(0)) {
                    n.v.filter_non_robust_landmarks(r);
                    let rec = n.v.data.reconstruction(r);
                    for (lk, l) in rec.landmarks.iter() {
                        cx.ensure(
                            "landmark-not-robust-after-pruning",
                            l.observations.len() < 2 || n.v.triangulate_landmark_robust(r, lk).is_some(),
                            || format!("{lk:?} with {} observations", l.observations.len()),
                        )?;
                    }
                }
            }
            "merge" => {
                if let Some(r) = n.pick(op.u(0)) {
                    self.merge(n, r, op, cx)?;
                }
            }
            "normalize" => {
                if let Some(r) = n.pick(op.u(0)) {
                    self.normalize(n, r, cx)?;
                }
            }
            "join" => {
                let rs = n.reconstructions();
                if rs.len() >= 2 && self.0 != Mode::Truth {
                    let a = rs[op.u(0) % rs.len()];
                    let b = rs[(op.u(0) + 1 + op.u(1) % (rs.len() - 1)) % rs.len()];
                    let mut r = plan.entity("join", op.u(2), 0);
                    let rel = Rt { r: rand_rot(&mut r), t: rand_unit(&mut r) * r.uni(0.0, 5.0) };
                    let (mut la, lb) = (n.landmarks(a), n.landmarks(b));
                    r.shuffle(&mut la);
                    let count = r.below(la.len().min(lb.len()).min(40) + 1);
                    let map: HashMap<_, _> = la.into_iter().zip(lb).take(count).collect();
                    cx.probe("reconstructions-joined");
                    let (from, to) = (n.poses(a), n.poses(b));
                    let was = homes_in_join(n, a, b, &map);
                    let views_of_a: Vec<_> = from.iter().map(|p| p.1).collect();
                    let stay = staying(n, a, &map);
                    n.v.incorporate_reconstruction(a, b, WorldToWorld(rel.iso()), map);
                    gone(n, a, false, cx)?;
                    gone(n, b, true, cx)?;
                    // The views of both keep their places, in one world.
                    let now = n.poses(b);
                    for (_, i, p, _) in &to {
                        let q = now.iter().find(|q| q.1 == *i);
                        cx.ensure("join-moved-view", q.is_some_and(|q| (q.2.r, q.2.t) == (p.r, p.t)), || format!("frame {i}"))?;
                    }
                    for (_, i, p, _) in &from {
                        // Views that cannot be constrained are left out.
                        let Some(q) = now.iter().find(|q| q.1 == *i) else { continue };
                        let want = p.after(&rel.inv());
                        let e = rot_diff(&want.r, &q.2.r) + (want.t - q.2.t).norm() / (1.0 + want.t.norm());
                        cx.within("joined-pose", e, 1e-9, || format!("frame {i} came to {:?}, not {want:?}", q.2))?;
                    }
                    for i in &stay {
                        cx.probe("joined-view-must-stay");
                        cx.ensure("joined-view-lost", now.iter().any(|q| q.1 == *i), || format!("frame {i} of {views_of_a:?}"))?;
                    }
                    joined(n, b, &was, cx)?;
                    tied(n, b, &views_of_a, cx)?;
                }
            }
            "settings" => settings_file(plan, op, cx)?,
            "rate" => n.v.settings.graph_optimization_rate = op.f(0),
            "export" => {
                if let Some(r) = n.pick(op.u(0)) {
                    self.export(n, r, op.u(1) == 1, cx)?;
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// The last frame's features are what the camera saw: best first, in their directions and colours.
    fn features(&self, plan: &Plan, n: &Node, texture: &image::RgbImage, cx: &mut Cx) -> Res {
        let (k, shown) = n.frames.last().expect("just added");
        let f = n.v.data.frame(*k);
        let want = if plan.k("reversed") != 0.0 {
            // The extractor decides which are kept; the node sorts those.
            let skip = shown.features.len().saturating_sub(n.v.settings.tracking_features);
            &shown.features[skip..]
        } else {
            &shown.features[..shown.features.len().min(n.v.settings.tracking_features)]
        };
        cx.ensure("features-lost", f.descriptor_features.len() == want.len(), || {
            format!("{} features of {}", f.descriptor_features.len(), want.len())
        })?;
        let s = sensor(plan, shown.feed);
        for (i, o) in want.iter().enumerate() {
            let g = f.feature(i);
            cx.ensure("features-not-best-first", g.response == o.response, || {
                format!("feature {i} has response {}, and the one of rank {i} has {}", g.response, o.response)
            })?;
            // Pixel to direction by the division model.
            let y = (o.pixel.1 as f64 - s.c.y) / s.f.y;
            let x = (o.pixel.0 as f64 - s.c.x - s.skew * y) / s.f.x;
            let d = 1.0 + s.k1 * (x * x + y * y);
            let want = V3::new(x / d, y / d, 1.0);
            cx.within("feature-direction", ang(&want, &g.bearing), 1e-12, || format!("feature {i} at {:?}", o.pixel))?;
            let colors = color_at(texture, o.pixel);
            cx.ensure("feature-color", colors.iter().any(|c| (0..3).all(|k| (c[k] - g.color[k] as f64).abs() <= 3.0)), || {
                format!("feature {i} at {:?} is {:?}, the image there {colors:?}", o.pixel, g.color)
            })?;
            let ix = shown.features.iter().position(|p| p.response == o.response).expect("present");
            cx.ensure("feature-descriptor", f.descriptor(i).bytes() == &shown.descriptors[ix], || format!("feature {i}"))?;
        }
        Ok(())
    }

    fn merge(&self, n: &mut Node, r: cv_sfm::ReconstructionKey, op: &Op, cx: &mut Cx) -> Res {
        let ls = n.landmarks(r);
        // Prefer landmarks that are seen more than once.
        let many: Vec<_> = ls.iter().copied().filter(|l| n.v.data.landmark(r, *l).observations.len() >= 2).collect();
        let from = if op.u(3) % 4 == 0 || many.len() < 2 { &ls } else { &many };
        if from.len() < 2 {
            return Ok(());
        }
        let a = from[op.u(1) % from.len()];
        let shares = |l: &cv_sfm::LandmarkKey| {
            let o = |l| &n.v.data.landmark(r, l).observations;
            *l != a && o(a).keys().filter(|k| o(*l).contains_key(k)).count() == 1
        };
        // Half of the time one that a view sees both of.
        let overlapping: Vec<_> = if op.u(3) % 2 == 1 { from.iter().copied().filter(shares).collect() } else { vec![] };
        let from = if overlapping.is_empty() { from } else { &overlapping };
        let b = from[op.u(2) % from.len()];
        if a == b {
            return Ok(());
        }
        let (oa, ob) = (n.v.data.landmark(r, a).observations.clone(), n.v.data.landmark(r, b).observations.clone());
        let shared = oa.keys().filter(|k| ob.contains_key(k)).count();
        let all: usize = n.v.data.reconstruction(r).landmarks.values().map(|l| l.observations.len()).sum();
        let better = better_of(n, r, a, b);
        let merged = if shared == 0 && op.u(3) % 2 == 0 {
            Some(n.v.data.merge_landmarks(r, a, b))
        } else {
            n.v.merge_landmarks_dedup(r, a, b)
        };
        let rec = n.v.data.reconstruction(r);
        let now: usize = rec.landmarks.values().map(|l| l.observations.len()).sum();
        cx.ensure("observations-not-conserved", now == all, || format!("{all} observations became {now}"))?;
        if let Some(m) = merged {
            cx.probe("landmarks-merged");
            let Some(l) = rec.landmarks.get(m) else {
                return fail("merged-landmark-missing", format!("{m:?}"));
            };
            let views: std::collections::BTreeSet<u64> = oa.keys().chain(ob.keys()).map(|k| id(*k)).collect();
            let got: std::collections::BTreeSet<u64> = l.observations.keys().map(|k| id(*k)).collect();
            cx.ensure("merged-landmark-lost-views", views == got, || format!("{got:?} of {views:?}"))?;
            for (k, f) in &l.observations {
                cx.ensure("merged-landmark-invented-observation", oa.get(k) == Some(f) || ob.get(k) == Some(f), || {
                    format!("feature {f} of {k:?}")
                })?;
            }
            if let Some((view, kept, _)) = better {
                cx.probe("better-observation-kept");
                let at = l.observations.get(&view).copied();
                cx.ensure("worse-observation-kept", kept.is_some() && at == kept, || {
                    format!("of {view:?} feature {at:?} was kept, the better one is {kept:?}")
                })?;
            }
        } else {
            cx.probe("merge-refused");
            cx.ensure("better-observation-refused", better.is_none_or(|b| b.1.is_none()), || format!("{better:?}"))?;
            cx.ensure("merge-refused-without-reason", shared > 0, || format!("{a:?} and {b:?} share no view"))?;
        }
        Ok(())
    }

    fn normalize(&self, n: &mut Node, r: cv_sfm::ReconstructionKey, cx: &mut Cx) -> Res {
        let before = n.poses(r);
        let (_, view) = n.v.data.reconstruction(r).views.iter().next().expect("a view");
        let d: Vec<f64> = view
            .landmarks
            .iter()
            .filter_map(|&l| n.v.triangulate_landmark_robust(r, l))
            .filter_map(|p| Some((p.point()?.coords - before[0].2.center()).norm()))
            .collect();
        let mean = d.iter().sum::<f64>() / d.len() as f64;
        n.v.normalize_reconstruction(r);
        let after = n.poses(r);
        let first = &after[0].2;
        let Some(scale) = before
            .iter()
            .zip(&after)
            .map(|(b, a)| ((b.2.center() - before[0].2.center()).norm(), (a.2.center() - after[0].2.center()).norm()))
            .max_by(|x, y| x.0.total_cmp(&y.0))
            .filter(|x| x.0 > 0.0)
            .map(|x| x.1 / x.0)
        else {
            return Ok(());
        };
        let turned = before.iter().zip(&after).any(|(b, a)| (b.2.r, b.2.t) != (a.2.r, a.2.t));
        cx.probe(if turned { "normalized" } else { "normalizing-changed-nothing" });
        if !turned {
            return Ok(());
        }
        cx.within("normalized-origin", rot_angle(&first.r) + first.t.norm(), 1e-9, || format!("{first:?}"))?;
        for (b, a) in before.iter().zip(&after) {
            let rel = |p: &Rt, o: &Rt| (p.r * o.r.transpose(), o.r * (p.center() - o.center()));
            let ((rb, cb), (ra, ca)) = (rel(&b.2, &before[0].2), rel(&a.2, first));
            let tol = 1e-9;
            cx.within("normalized-shape", rot_diff(&rb, &ra) + (cb * scale - ca).norm() / (1.0 + ca.norm()), tol, || {
                format!("view of frame {} moved within the map", b.1)
            })?;
        }
        // The robust landmarks, as they were, are now at a mean distance of one from the first view.
        cx.within("normalized-distance", (mean * scale - 1.0).abs(), 1e-6, || format!("mean distance {mean} was scaled by {scale}"))?;
        Ok(())
    }

    fn export(&self, n: &Node, r: cv_sfm::ReconstructionKey, faces: bool, cx: &mut Cx) -> Res {
        let path = std::env::temp_dir().join(format!("mapsim-{}-{:?}.ply", std::process::id(), std::thread::current().id()));
        n.v.export_reconstruction(r, &path, faces);
        let text = std::fs::read_to_string(&path);
        let _ = std::fs::remove_file(&path);
        let Ok(text) = text else { return fail("export-unreadable", "not text") };
        cx.probe("exported");
        let rec = n.v.data.reconstruction(r);
        let robust: Vec<V3> = rec
            .landmarks
            .keys()
            .filter_map(|l| n.v.triangulate_landmark_robust(r, l))
            .filter_map(|p| Some(p.point()?.coords))
            .collect();
        let mut counts = HashMap::new();
        let mut lines = text.lines();
        cx.ensure("export-header", lines.next() == Some("ply"), || text.chars().take(20).collect())?;
        let mut order = vec![];
        for l in lines.by_ref() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w[..] {
                ["element", name, count] => {
                    counts.insert(name.to_string(), count.parse::<usize>().unwrap_or(usize::MAX));
                    order.push(name.to_string());
                }
                ["end_header"] => break,
                _ => {}
            }
        }
        let vertices = counts.get("vertex").copied().unwrap_or(0);
        let views = rec.views.len();
        cx.ensure("export-vertices", vertices == 5 * views + robust.len(), || {
            format!("{vertices} vertices for {views} cameras and {} points", robust.len())
        })?;
        let rows: Vec<Vec<f64>> = lines
            .map(|l| l.split_whitespace().map(|x| x.parse::<f64>().unwrap_or(f64::NAN)).collect())
            .collect();
        let faced = if faces { 4 * views } else { 0 };
        cx.ensure("export-rows", rows.len() == vertices + faced, || format!("{} rows for {vertices} vertices and {faced} faces", rows.len()))?;
        let vertex = |i: usize| V3::new(rows[i][0], rows[i][1], rows[i][2]);
        for (i, (_, v)) in rec.views.iter().enumerate() {
            let pose = Rt::of_iso(&v.pose.isometry());
            let c = vertex(5 * i);
            cx.within("export-camera", (c - pose.center()).norm() / (1.0 + c.norm()), 1e-9, || format!("camera {i} is at {c}"))?;
            // The corners are in front of the camera, as a square around its axis.
            let d: Vec<V3> = (1..5).map(|k| pose.apply(&vertex(5 * i + k))).collect();
            if d.iter().all(|d| d.iter().all(|x| x.is_finite())) {
                let f = d[0].z;
                cx.ensure("export-camera-frame", f > 0.0, || format!("camera {i} looks along {f}"))?;
                let want = [(1.0, -1.0), (-1.0, -1.0), (-1.0, 1.0), (1.0, 1.0)];
                for (d, w) in d.iter().zip(want) {
                    let e = (d - V3::new(w.0 * f, w.1 * f, f)).norm() / f;
                    cx.within("export-camera-corner", e, 1e-6, || format!("camera {i} has corner {d}"))?;
                }
            }
        }
        // Every point is a robust landmark and the other way around.
        let key = |p: &V3| p.map(f64::to_bits);
        let sorted = |v: &mut Vec<V3>| v.sort_by_key(|p| { let k = key(p); (k.x, k.y, k.z) });
        let mut got: Vec<V3> = (5 * views..vertices).map(vertex).collect();
        let mut want = robust;
        sorted(&mut got);
        sorted(&mut want);
        for (g, w) in got.iter().zip(&want) {
            cx.ensure("export-point", key(g) == key(w), || format!("{g} is not {w}"))?;
        }
        let color = |row: &[f64]| (row.len() == 6).then(|| [row[3] as u8, row[4] as u8, row[5] as u8]);
        for row in &rows[5 * views..vertices] {
            let p = key(&V3::new(row[0], row[1], row[2]));
            let ok = rec.landmarks.iter().any(|(lk, l)| {
                let at = n.v.triangulate_landmark_robust(r, lk).and_then(|p| p.point());
                at.is_some_and(|q| key(&q.coords) == p)
                    && l.observations.iter().any(|(v, f)| color(row) == Some(n.v.data.observation_color(r, *v, *f)))
            });
            cx.ensure("export-color", ok, || format!("{row:?} has the color of no observation"))?;
        }
        // The faces of a camera join its center to each side of its square.
        let mut sides = std::collections::BTreeSet::new();
        for row in rows.iter().skip(vertices) {
            let ok = row[0] == 3.0 && row.len() == 4 && row[1..].iter().all(|x| *x >= 0.0 && (*x as usize) < 5 * views);
            cx.ensure("export-face", ok, || format!("{row:?}"))?;
            let mut v: Vec<usize> = row[1..].iter().map(|x| *x as usize).collect();
            v.sort();
            let adjacent = matches!((v[1] % 5, v[2] % 5), (1, 2) | (2, 3) | (3, 4) | (1, 4));
            cx.ensure("export-face", v[0] % 5 == 0 && v[2] / 5 == v[0] / 5 && adjacent && sides.insert(v.clone()), || format!("{row:?}"))?;
        }
        Ok(())
    }

    /// The map is the world, up to where it is, how it is turned and how large it is.
    fn truth(&self, plan: &Plan, n: &Node, cx: &mut Cx) -> Res {
        for r in n.reconstructions() {
            let poses = n.poses(r);
            let place = n.frames[poses[0].1].1.place;
            cx.ensure("frames-of-two-places-in-one-map", poses.iter().all(|p| n.frames[p.1].1.place == place), || {
                format!("{:?}", poses.iter().map(|p| (p.1, n.frames[p.1].1.place)).collect::<Vec<_>>())
            })?;
            let Some(f) = fit(&poses) else { continue };
            let points = &crate::world::place(plan, place).points;
            let exact = plan.k("noise") == 0.0 && sound(&poses.iter().map(|p| p.3).collect::<Vec<_>>(), points);
            if !exact {
                continue;
            }
            cx.probe("map-compared");
            cx.within("map-orientations", f.rot_err, 1e-3, || format!("of {} views", poses.len()))?;
            cx.within("map-positions", f.pos_err, 5e-3, || format!("of {} views", poses.len()))?;
            self.landmarks(n, r, &f, points, cx)?;
        }
        Ok(())
    }

    /// Landmarks seen from several sides are points of the world.
    fn landmarks(&self, n: &Node, r: cv_sfm::ReconstructionKey, f: &Fit, points: &[V3], cx: &mut Cx) -> Res {
        let rec = n.v.data.reconstruction(r);
        let (mut all, mut pure, mut near) = (0, 0, 0);
        for (lk, l) in rec.landmarks.iter() {
            if l.observations.len() < 3 {
                continue;
            }
            let Some(p) = n.v.triangulate_landmark_robust(r, lk).and_then(|p| p.point()) else { continue };
            all += 1;
            let origins: Vec<Option<usize>> = l
                .observations
                .iter()
                .map(|(v, ft)| {
                    let i = n.index_of(rec.views[*v].frame)?;
                    n.origin(i, *ft)?.point
                })
                .collect();
            let Some(j) = origins[0].filter(|_| origins.iter().all(|o| *o == origins[0])) else { continue };
            pure += 1;
            let at = f.rotation * p.coords * f.scale + f.shift;
            let d = (at - points[j]).norm();
            if d < 0.1 {
                near += 1;
            }
        }
        if all >= 10 {
            cx.probe("landmarks-compared");
            cx.ensure("landmarks-mix-points", pure * 100 >= all * 98, || format!("{pure} of {all} landmarks are of one point"))?;
            cx.ensure("landmarks-misplaced", near * 100 >= pure * 98, || format!("{near} of {pure} landmarks are where their point is"))?;
        }
        Ok(())
    }

    /// Once nothing goes wrong with its frames any more, a camera is in a map again.
    fn liveness(&self, plan: &Plan, n: &Node, cx: &mut Cx) -> Res {
        let calm = plan.ops.iter().rev().take_while(|o| o.k == "frame" && o.f(6) == 1.0).count();
        if calm < TAIL {
            return Ok(());
        }
        // Where two cameras stood too close, or saw something along the line between them, maps may bend.
        let place = n.frames.last().expect("calm frames").1.place;
        let there: Vec<_> = n.frames.iter().filter(|f| f.1.place == place).map(|f| f.1.pose).collect();
        if !sound(&there, &crate::world::place(plan, place).points) {
            return Ok(());
        }
        let homes: Vec<_> = n.frames.iter().rev().take(3).map(|f| n.v.data.frame(f.0).view.map(|v| id(v.0))).collect();
        cx.probe("recovered");
        cx.ensure("camera-not-in-map", homes.iter().all(|h| h.is_some() && *h == homes[0]), || {
            format!("the last frames are in {homes:?}")
        })
    }
}

/// An operation on a reconstruction says whether it is still there.
fn gone(n: &Node, r: cv_sfm::ReconstructionKey, ok: bool, cx: &mut Cx) -> Res {
    cx.probe(if ok { "reconstruction-kept" } else { "reconstruction-dropped" });
    cx.ensure("answer-and-map-disagree", n.reconstructions().contains(&r) == ok, || format!("{r:?} kept: {ok}"))
}

impl Scenario for Session {
    fn id(&self) -> &'static str {
        self.1
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 20_000 } else { 600 }
    }
    fn gen(&self, rng: &mut Rng, _thorough: bool) -> Plan {
        let mut plan = Plan::empty();
        self.knobs(rng, &mut plan);
        let truth = self.0 == Mode::Truth;
        // A tour of one camera that comes by every place once.
        let tour = truth && rng.chance(0.4);
        if tour {
            plan.set("feeds", 1.0);
            plan.set("places", 1.0);
            plan.set("noise", 0.0);
            plan.set("initial_features", 8192.0);
            plan.set("features", 8192.0);
            plan.set("miss", plan.k("miss").min(0.05));
            plan.set("min_landmarks", plan.k("min_landmarks").min(24.0));
            plan.set("min_observations", plan.k("min_observations").min(3.0));
        }
        let (feeds, places) = (plan.ku("feeds"), plan.ku("places"));
        let frames = rng.range(5, if tour { 9 } else { 14 });
        let step = if tour { rng.uni(0.1, 0.13) } else { rng.uni(0.08, 0.25) };
        let hostile = rng.uni(0.0, 0.5);
        let busy = rng.uni(0.0, if self.0 == Mode::Persistence || self.0 == Mode::Faithful { 0.75 } else { 0.6 });
        let mut at = vec![0usize; feeds];
        let mut s: Vec<f64> = (0..feeds).map(|_| rng.uni(-0.5, 0.5)).collect();
        // Cameras on opposite sides of what they see would be a degenerate pair; where the truth of the
        // map is judged, cameras turn back before.
        let mut heading = vec![1.0; feeds];
        if tour {
            s[0] = -1.05;
        }
        let mut go = |s: &mut f64, feed: usize, by: f64| {
            if truth && (*s + by * heading[feed]).abs() > 1.1 {
                heading[feed] = -s.signum();
            }
            *s += by * heading[feed];
        };
        let mut t = 0;
        // Feeds that first map the place on their own and are then allowed to recognize it.
        let meeting = feeds > 1 && rng.chance(0.5);
        if meeting {
            plan.set("similar", 0.0);
            plan.set("places", 1.0);
            at.fill(0);
        }
        let (places, alone) = if meeting { (1, rng.range(3, 5)) } else { (places, 0) };
        let frames = if meeting { alone * 2 + rng.range(2, 6) } else { frames };
        for serial in 0..frames {
            t += PERIOD + rng.below(PERIOD as usize) as u64;
            let feed = if serial < 2 * alone { serial / alone } else { rng.below(feeds) };
            if meeting && serial == 2 * alone {
                if !truth && rng.chance(0.4) {
                    plan.ops.push(Op::new(t - 1, "join", vec![rng.below(2) as f64, rng.below(4) as f64, rng.below(1000) as f64]));
                }
                plan.ops.push(Op::new(t - 1, "similar", vec![rng.range(2, 12) as f64]));
            }
            if places > 1 && rng.chance(0.15) {
                at[feed] = rng.below(places);
            }
            if tour || !rng.chance(0.08 * hostile) {
                go(&mut s[feed], feed, step * rng.uni(0.7, 1.3));
            }
            let kind = if rng.chance(hostile) {
                if truth { *rng.pick(&[1usize, 2, 3, 6, 9, 10]) } else { rng.range(1, KINDS.len() - 1) }
            } else {
                0
            };
            let amount = match KINDS[kind] {
                "pixel-noise" => rng.logu(0.05, 20.0),
                "occluded" => rng.uni(0.2, 0.8),
                "clutter" => rng.uni(0.1, 1.0),
                _ => rng.uni(0.02, 0.6),
            };
            plan.ops.push(Op::new(t, "frame", vec![feed as f64, at[feed] as f64, s[feed], kind as f64, amount, serial as f64, 0.0]));
            while rng.chance(busy) {
                t += rng.range(1, PERIOD as usize / 2) as u64;
                let r = rng.below(4) as f64;
                let op = if truth {
                    match rng.below(9) {
                        8 => Op::new(t, "similar", vec![rng.below(8) as f64]),
                        0 => Op::new(t, "optimize", vec![r]),
                        1 => Op::new(t, "constrain", vec![r]),
                        2 => Op::new(t, "filter", vec![r]),
                        3 => Op::new(t, "normalize", vec![r]),
                        4 => Op::new(t, "regenerate", vec![r]),
                        5 => Op::new(t, "save", vec![0.0]),
                        6 => Op::new(t, "crash", vec![]),
                        _ => Op::new(t, "export", vec![r, rng.below(2) as f64]),
                    }
                } else {
                    let kinds = match self.0 {
                        Mode::Persistence if rng.chance(0.5) => rng.range(5, 7),
                        Mode::Faithful if rng.chance(0.5) => 8,
                        _ => rng.below(15),
                    };
                    match kinds {
                        12 => Op::new(t, "rate", vec![if rng.chance(0.5) { rng.logu(1e-3, 0.1) } else { rng.logu(0.1, 1e4) }]),
                        0 => Op::new(t, "optimize", vec![r]),
                        1 => Op::new(t, "constrain", vec![r]),
                        2 => Op::new(t, "filter", vec![r]),
                        3 => Op::new(t, "normalize", vec![r]),
                        4 => Op::new(t, "regenerate", vec![r]),
                        5 | 6 => Op::new(t, "save", vec![rng.below(4) as f64, rng.f()]),
                        7 => Op::new(t, "crash", vec![]),
                        8 => Op::new(t, "export", vec![r, rng.below(2) as f64]),
                        9 => Op::new(t, "prune", vec![r]),
                        10 => Op::new(t, "similar", vec![rng.below(8) as f64]),
                        11 => Op::new(t, "join", vec![r, rng.below(4) as f64, rng.below(1000) as f64]),
                        _ => Op::new(t, "merge", vec![r, rng.below(1000) as f64, rng.below(1000) as f64, rng.below(8) as f64]),
                    }
                };
                // What was merged wrongly is to be found out.
                let filter = op.k == "merge" && rng.chance(0.6);
                plan.ops.push(op);
                if filter {
                    plan.ops.push(Op::new(t, "filter", vec![r]));
                }
                if self.0 == Mode::Persistence && rng.chance(0.2) {
                    plan.ops.push(Op::new(t, "settings", vec![rng.below(1 << 20) as f64]));
                }
            }
        }
        let easy = plan.k("noise") == 0.0 && plan.k("miss") < 0.1 && plan.k("features") > 1000.0;
        // A map whose parts were joined by a few of their landmarks only is full of doubles.
        let whole = plan.k("initial_features") > 1000.0;
        if truth && easy && whole && plan.ku("min_landmarks") <= 24 && plan.ku("min_observations") <= 3 {
            // The faults are over.
            let step = if tour { step } else { rng.uni(0.12, 0.22) };
            for i in 0..TAIL {
                t += PERIOD + rng.below(PERIOD as usize) as u64;
                go(&mut s[0], 0, step * rng.uni(0.9, 1.1));
                plan.ops.push(Op::new(t, "frame", vec![0.0, at[0] as f64, s[0], 0.0, 0.0, (frames + i) as f64, 1.0]));
            }
        }
        plan
    }
    fn run(&self, plan: &Plan, cx: &mut Cx) -> Res {
        let places: Vec<Place> = (0..plan.ku("places").max(1)).map(|p| place(plan, p)).collect();
        let texture = texture(plan);
        let mut disk = Image::default();
        let mut next = 0;
        let mut restarts = 0;
        // Each turn is the life of one process.
        loop {
            let hash = cvsim::rng::mix(&[plan.k("hash") as u64, restarts as u64]);
            let (places, texture, cx, disk_in) = (&places, &texture, &mut *cx, disk.clone());
            let out = entropy::process(hash, move || -> Result<Option<(usize, Image)>, Violation> {
                hgg::sim::approximate(hash, plan.k("approximate") as u64);
                let mut disk = disk_in;
                let mut n = Node::start(plan, &disk, restarts);
                for (i, op) in plan.ops.iter().enumerate().skip(next) {
                    cx.sim_us = op.t;
                    match op.k.as_str() {
                        "save" => self.save(&n, &mut disk, op, cx)?,
                        "crash" => {
                            cx.fault("crash");
                            cx.log(format!("crash, {} frames of {} are on disk", disk.frames.len(), n.frames.len()));
                            return Ok(Some((i + 1, disk)));
                        }
                        _ => self.run_op(plan, &mut n, op, places, texture, cx)?,
                    }
                    let (h, s) = n.digest();
                    cx.log(format!("{}{s} {h:016x}", op.k));
                    cx.sched(cvsim::rng::fnv(op.k.as_bytes()));
                    cx.state(&[n.reconstructions().len() as u64, n.frames.iter().filter(|f| n.v.data.frame(f.0).view.is_some()).count() as u64, cvsim::rng::fnv(s.as_bytes())]);
                    n.consistent(cx)?;
                    if self.0 == Mode::Integrity {
                        n.robust(i, cx)?;
                    }
                    if self.0 == Mode::Truth {
                        self.truth(plan, &n, cx)?;
                    }
                }
                if self.0 == Mode::Truth {
                    self.liveness(plan, &n, cx)?;
                }
                Ok(None)
            })?;
            match out {
                None => return Ok(()),
                Some((i, d)) => {
                    next = i;
                    disk = d;
                    restarts += 1;
                }
            }
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &["cv-sfm", "cv-optimize", "cv-geom", "cv-pinhole", "cv-core", "eight-point", "lambda-twist"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["camera and feature extraction (simulated sightings)", "sample consensus (seeded RANSAC for arrsac)", "hgg, hamming-lsh, slotmap, ply-rs, imageproc, average (stand-ins)", "disk", "clock", "hash map seeds"]
    }
    fn rule(&self) -> &'static str {
        "a run counts when its session recorded at least three events and made at least one comparison; distinct by its order of steps and world"
    }
    fn floors(&self) -> &'static [(&'static str, f64)] {
        &[("noise", 0.0), ("flips", 0.0), ("clutter", 0.0), ("miss", 0.0), ("approximate", 0.0), ("k1", 0.0), ("reversed", 0.0), ("similar", 0.0), ("feeds", 1.0), ("places", 1.0)]
    }
}

impl Session {
    fn save(&self, n: &Node, disk: &mut Image, op: &Op, cx: &mut Cx) -> Res {
        let bytes = bincode::serialize(&n.v.data).map_err(|e| Violation { class: "save-failed".into(), detail: e.to_string() })?;
        let kind = op.u(0);
        if kind > 0 {
            // The write was torn before it was made durable, so the old file stays; what was written of
            // the new one must not pass for a map.
            cx.fault("torn-write");
            let cut = ((bytes.len() as f64 * op.f(1)) as usize).min(bytes.len() - 1);
            let r = bincode::deserialize::<cv_sfm::VSlamData>(&bytes[..cut]);
            return cx.ensure("torn-map-accepted", r.is_err(), || format!("{cut} bytes of {}", bytes.len()));
        }
        cx.probe("saved");
        cx.log(format!("saved {} frames", n.frames.len()));
        if self.0 == Mode::Persistence || op.u(0) == 0 {
            let mut copy = Node::empty();
            copy.v.data = match bincode::deserialize(&bytes) {
                Ok(d) => d,
                Err(e) => return fail("saved-map-refused", e.to_string()),
            };
            copy.feeds = n.feeds.clone();
            copy.frames = n.frames.clone();
            let (a, b) = (n.snapshot(), copy.snapshot());
            for (x, y) in a.iter().zip(&b) {
                cx.ensure("restored-map-differs", x == y, || format!("{x:.200} became {y:.200}"))?;
            }
            cx.ensure("restored-map-differs", a.len() == b.len(), || format!("{} became {}", a.len(), b.len()))?;
        }
        *disk = Image { data: Some(bytes), feeds: n.feeds.clone(), frames: n.frames.clone() };
        Ok(())
    }
}

/// Settings that are left out of a file are the defaults, and those in it are what they say.
fn settings_file(plan: &Plan, op: &Op, cx: &mut Cx) -> Res {
    let mut r = plan.entity("settings", op.u(0), 0);
    let mine = serde_json::to_value(settings(plan)).expect("settings can be written");
    let default = serde_json::to_value(VSlamSettings::default()).expect("settings can be written");
    let read = |v: &serde_json::Value| serde_json::from_value::<VSlamSettings>(v.clone()).map(|s| serde_json::to_value(s).unwrap());
    let mut file = mine.clone();
    let mut want = mine.clone();
    let all = r.chance(0.2);
    let names: Vec<String> = mine.as_object().expect("settings are named").keys().cloned().collect();
    for k in &names {
        if all || r.chance(0.4) {
            file.as_object_mut().unwrap().remove(k);
            want[k] = default[k].clone();
        }
    }
    cx.probe("settings-read");
    match read(&file) {
        Ok(got) => {
            for k in &names {
                cx.ensure("setting-not-as-written", got[k] == want[k], || format!("{k} is {}, should be {}", got[k], want[k]))?;
            }
        }
        Err(e) => return fail("settings-refused", format!("{file}: {e}")),
    }
    // What is not a setting's kind of value is refused, not taken for another.
    let k = &names[r.below(names.len())];
    file[k] = serde_json::Value::String("x".into());
    cx.ensure("bad-setting-accepted", read(&file).is_err(), || format!("{k} was text"))
}

/// What the image shows at a place between its pixels; at its border there may be no color.
fn color_at(t: &image::RgbImage, (x, y): (f32, f32)) -> Vec<[f64; 3]> {
    let (w, h) = (W as i64, H as i64);
    let (left, top) = (x.floor() as i64 - 1, y.floor() as i64 - 1);
    let (fx, fy) = ((x - x.floor()) as f64, (y - y.floor()) as f64);
    let inside = |margin: i64| left >= margin && top >= margin && left + 3 < w - margin && top + 3 < h - margin;
    let mut out = vec![];
    if !inside(1) {
        out.push([0.0; 3]);
    }
    if inside(0) {
        let cubic = |p: [f64; 4], x: f64| {
            // Catmull-Rom.
            let v = p[1] + 0.5 * x * (p[2] - p[0] + x * (2.0 * p[0] - 5.0 * p[1] + 4.0 * p[2] - p[3] + x * (3.0 * (p[1] - p[2]) + p[3] - p[0])));
            v.clamp(0.0, 255.0)
        };
        let mut c = [0.0; 3];
        for (k, c) in c.iter_mut().enumerate() {
            let rows: Vec<f64> = (0..4)
                .map(|j| {
                    let px = |i: i64| t.get_pixel((left + i) as u32, (top + j) as u32).0[k] as f64;
                    cubic([px(0), px(1), px(2), px(3)], fx)
                })
                .collect();
            *c = cubic([rows[0], rows[1], rows[2], rows[3]], fy);
        }
        out.push(c);
    }
    out
}

/// Where the constraints of a reconstruction put its views: in every round each view moves by the given
/// part of the sum of what its constraints ask of it, all at once. Nothing if the reconstruction is dropped.
fn constrained(n: &Node, r: cv_sfm::ReconstructionKey) -> Option<BTreeMap<cv_sfm::ViewKey, Rt>> {
    let rec = n.v.data.reconstruction(r);
    let mut edges = vec![];
    for (_, c) in rec.constraints.iter() {
        let j = serde_json::to_value(c).ok()?;
        let views: [cv_sfm::ViewKey; 3] = serde_json::from_value(j.get("views")?.clone()).ok()?;
        let poses: [cv_core::nalgebra::IsometryMatrix3<f64>; 2] = serde_json::from_value(j.get("poses")?.clone()).ok()?;
        let [b, c] = poses.map(|p| Rt::of_iso(&p));
        let all = [Rt { r: M3::identity(), t: V3::zeros() }, b, c];
        for x in 0..3 {
            for y in 0..3 {
                if x != y {
                    edges.push((views[x], views[y], all[x].after(&all[y].inv())));
                }
            }
        }
    }
    // Steps that overshoot magnify rounding.
    let most = rec.views.keys().map(|k| edges.iter().filter(|e| e.0 == k).count()).max()?;
    if most as f64 * n.v.settings.graph_optimization_rate > 0.5 {
        return None;
    }
    let mut at: BTreeMap<cv_sfm::ViewKey, Rt> = rec.views.iter().map(|(k, v)| (k, Rt::of_iso(&v.pose.isometry()))).collect();
    let mut alive: std::collections::BTreeSet<_> = at.keys().copied().collect();
    for _ in 0..n.v.settings.optimization_iterations {
        let mut next = BTreeMap::new();
        edges.retain(|e| alive.contains(&e.0) && alive.contains(&e.1));
        for (k, p) in &at {
            let mut sum = nalgebra::Vector6::zeros();
            let mut any = false;
            for (_, y, rel) in edges.iter().filter(|e| e.0 == *k) {
                let d = rel.after(&at[y]).after(&p.inv());
                sum += cv_core::CameraToCamera(d.iso()).se3();
                any = true;
            }
            if !any {
                continue;
            }
            let step = sum * n.v.settings.graph_optimization_rate;
            // Steps of a diverging map are not followed.
            if !step.iter().all(|x| x.abs() < 0.5) {
                return None;
            }
            let d = Rt::of_iso(&cv_core::CameraToCamera::from_se3(step).0);
            next.insert(*k, d.after(p));
        }
        if next.len() < 3 {
            return None;
        }
        alive = next.keys().copied().collect();
        at = next;
    }
    Some(at)
}

/// Whether a map is as it was when it began: three views that stand exactly where their constraint says.
fn fresh(n: &Node, r: cv_sfm::ReconstructionKey) -> bool {
    let rec = n.v.data.reconstruction(r);
    let Some(c) = rec.constraints.values().next().filter(|_| rec.views.len() == 3 && rec.constraints.len() == 1) else { return false };
    let j = serde_json::to_value(c).unwrap_or_default();
    let read = || {
        let views: [cv_sfm::ViewKey; 3] = serde_json::from_value(j.get("views")?.clone()).ok()?;
        let poses: [cv_core::nalgebra::IsometryMatrix3<f64>; 2] = serde_json::from_value(j.get("poses")?.clone()).ok()?;
        Some((views, poses))
    };
    let Some((views, poses)) = read() else { return false };
    let at = |i: usize| rec.views.get(views[i]).map(|v| v.pose.isometry());
    let id = cv_core::nalgebra::IsometryMatrix3::identity();
    at(0) == Some(id) && at(1) == Some(poses[0]) && at(2) == Some(poses[1])
}

/// Which observations of each landmark belong together: those that agree on where it is.
struct Group {
    frames: Vec<(cv_sfm::ViewKey, usize, bool)>,
}
fn filtered(n: &Node, r: cv_sfm::ReconstructionKey) -> Vec<Group> {
    let rec = n.v.data.reconstruction(r);
    let s = &n.v.settings;
    let mut out = vec![];
    for (lk, l) in rec.landmarks.iter() {
        let o: Vec<_> = l
            .observations
            .iter()
            .map(|(v, f)| (*v, *f, Rt::of_iso(&rec.views[*v].pose.isometry()), n.v.data.observation_bearing(r, *v, *f).into_inner()))
            .collect();
        // Nothing is said where rounding decides.
        let side = |x: f64, limit: f64| (x.is_finite() && (x / limit - 1.0).abs() > 1e-3).then_some(x < limit);
        let keep: Option<Vec<bool>> = match o.len() {
            0 | 1 => continue,
            2 => {
                // The sine of the angle by which the two rays miss each other's plane.
                let rel = o[1].2.after(&o[0].2.inv());
                let a = rel.r * o[0].3;
                let (na, nb) = (a.cross(&rel.t).normalize(), o[1].3.cross(&rel.t).normalize());
                let miss = o[1].3.dot(&na).abs().min(a.dot(&nb).abs());
                // Rays more than a right angle apart do not see the same thing; those that do not
                // clearly meet in front of both cameras are left to the code.
                let z = a.cross(&o[1].3);
                let (la, lb) = (-z.dot(&rel.t.cross(&o[1].3)), -z.dot(&rel.t.cross(&a)));
                let clear = 1e-6 * rel.t.norm() * z.norm();
                if a.dot(&o[1].3) < -0.01 {
                    Some(vec![false; 2])
                } else if a.dot(&o[1].3) > 0.01 && la > clear && lb > clear {
                    side(miss, s.maximum_sine_distance).map(|k| vec![k; 2])
                } else {
                    None
                }
            }
            _ => match n.v.triangulate_landmark(r, lk).and_then(|p| p.point()) {
                None => None,
                Some(p) => o
                    .iter()
                    .map(|o| {
                        let q = o.2.apply(&p.coords);
                        side(1.0 - q.normalize().dot(&o.3), s.maximum_cosine_distance)
                    })
                    .collect(),
            },
        };
        if let Some(keep) = keep {
            out.push(Group { frames: o.iter().zip(keep).map(|(o, k)| (o.0, o.1, k)).collect() });
        }
    }
    out
}
impl Session {
    fn together(&self, n: &Node, r: cv_sfm::ReconstructionKey, want: &[Group], cx: &mut Cx) -> Res {
        let home = |o: &(cv_sfm::ViewKey, usize, bool)| id(n.v.data.observation_landmark(r, o.0, o.1));
        for g in want {
            for (i, a) in g.frames.iter().enumerate() {
                for b in &g.frames[..i] {
                    let (one, keep) = (home(a) == home(b), a.2 && b.2);
                    cx.ensure(if keep { "consistent-observations-split" } else { "inconsistent-observation-kept" }, one == keep, || {
                        format!("{:?} of a landmark of {} observations", (a, b), g.frames.len())
                    })?;
                }
            }
            cx.probe(if g.frames.iter().all(|f| f.2) { "landmark-kept" } else { "landmark-split" });
        }
        Ok(())
    }
}

/// Which frames' features are to be on one landmark once `a` is in `b`: the features of both, each with the
/// landmark it had, where landmarks of `a` that are said to be landmarks of `b` are those.
type Home = (bool, u64);
fn homes_in_join(n: &Node, a: cv_sfm::ReconstructionKey, b: cv_sfm::ReconstructionKey, map: &HashMap<cv_sfm::LandmarkKey, cv_sfm::LandmarkKey>) -> Vec<(cv_sfm::FrameKey, usize, Home)> {
    let mut out = vec![];
    for r in [a, b] {
        for (_, v) in n.v.data.reconstruction(r).views.iter() {
            for (f, l) in v.landmarks.iter().enumerate() {
                let home = match map.get(l).filter(|_| r == a) {
                    Some(to) => (false, id(*to)),
                    None => (r == a, id(*l)),
                };
                out.push((v.frame, f, home));
            }
        }
    }
    out
}
/// The frames of `a` that have to stay when it is joined to another map: what they share with each other
/// suffices for the constraints that are demanded of a view.
fn staying(n: &Node, a: cv_sfm::ReconstructionKey, map: &HashMap<cv_sfm::LandmarkKey, cv_sfm::LandmarkKey>) -> Vec<usize> {
    let s = &n.v.settings;
    let rec = n.v.data.reconstruction(a);
    let mut stay = n.poses(a);
    // In a small map fewer observations make a landmark robust.
    if stay.len() < s.robust_minimum_observations || s.optimization_minimum_new_constraints > s.optimization_maximum_three_view_constraints {
        return vec![];
    }
    let least = s.optimization_robust_covisibility_minimum_landmarks.max(s.optimization_minimum_landmarks) + 2;
    let robust: Vec<_> = rec
        .landmarks
        .iter()
        .filter(|(k, l)| !map.contains_key(k) && l.observations.len() >= 3 && n.v.triangulate_landmark_robust(a, *k).is_some())
        .map(|(_, l)| l)
        .collect();
    let enough = |v: [cv_sfm::ViewKey; 3]| {
        let shared: Vec<_> = robust.iter().filter(|l| v.iter().all(|v| l.observations.contains_key(v))).collect();
        if shared.len() < least {
            return false;
        }
        let dirs: Vec<_> = shared.iter().map(|l| v.map(|v| n.v.data.observation_bearing(a, v, l.observations[&v]).into_inner())).collect();
        let mut spread = 0;
        for (i, x) in dirs.iter().enumerate() {
            for y in &dirs[..i] {
                let far = (0..3).all(|k| 1.0 - x[k].dot(&y[k]) > s.robust_view_bearing_pair_minimum_cosine_distance * 1.001);
                spread += usize::from(far);
            }
        }
        // Only some of the landmarks are looked at; landmarks of both maps may be among them.
        let (all, some) = (dirs.len(), dirs.len().min(s.optimization_maximum_landmarks.saturating_sub(map.len())));
        let close = all * (all - 1) / 2 - spread;
        some * some.saturating_sub(1) / 2 >= close + s.robust_view_num_robust_bearing_pair
    };
    let mut triples = vec![];
    for (i, x) in stay.iter().enumerate() {
        for (j, y) in stay[..i].iter().enumerate() {
            for z in &stay[..j] {
                let t = [x.0, y.0, z.0];
                if enough(t) {
                    triples.push(t);
                }
            }
        }
    }
    loop {
        let here: Vec<_> = stay.iter().map(|p| p.0).collect();
        let whole = |t: &&[cv_sfm::ViewKey; 3]| t.iter().all(|v| here.contains(v));
        let ties = |v| triples.iter().filter(whole).filter(|t| t.contains(&v)).count();
        let before = stay.len();
        stay.retain(|p| ties(p.0) >= s.optimization_minimum_new_constraints);
        if stay.len() == before {
            return stay.into_iter().map(|p| p.1).collect();
        }
    }
}
fn joined(n: &Node, b: cv_sfm::ReconstructionKey, was: &[(cv_sfm::FrameKey, usize, Home)], cx: &mut Cx) -> Res {
    let (mut to, mut back) = (BTreeMap::new(), BTreeMap::new());
    for (k, f, home) in was {
        // Views that cannot be constrained are left out.
        let Some((r, v)) = n.v.data.frame(*k).view else { continue };
        cx.ensure("joined-frame-elsewhere", r == b, || format!("{k:?}"))?;
        let is = id(n.v.data.observation_landmark(r, v, *f));
        let first = *to.entry(*home).or_insert(is);
        cx.ensure("joined-landmark-apart", first == is, || format!("what was {home:?} is on {first} and {is}"))?;
        let first = *back.entry(is).or_insert(*home);
        cx.ensure("joined-landmarks-mixed", first == *home, || format!("{is} was {first:?} and {home:?}"))?;
    }
    Ok(())
}
/// The views that came with a join are tied to the others by constraints: as many as are demanded or as
/// there are others, each on views that share robust landmarks, and at the scale of the map.
fn tied(n: &Node, b: cv_sfm::ReconstructionKey, came: &[usize], cx: &mut Cx) -> Res {
    let s = &n.v.settings;
    let rec = n.v.data.reconstruction(b);
    let new: Vec<_> = came.iter().filter_map(|i| n.v.data.frame(n.frames[*i].0).view.map(|v| v.1)).collect();
    if new.len() < came.len() {
        // With a view that is left out go its constraints.
        cx.probe("joined-view-left-out");
        return Ok(());
    }
    cx.probe("joined-views-tied");
    let mut ties: BTreeMap<cv_sfm::ViewKey, usize> = BTreeMap::new();
    for (_, c) in rec.constraints.iter() {
        let j = serde_json::to_value(c).unwrap_or_default();
        let Some(views) = j.get("views").and_then(|v| serde_json::from_value::<[cv_sfm::ViewKey; 3]>(v.clone()).ok()) else { continue };
        let Some(poses) = j.get("poses").and_then(|v| serde_json::from_value::<[cv_core::nalgebra::IsometryMatrix3<f64>; 2]>(v.clone()).ok()) else { continue };
        if !views.iter().any(|v| new.contains(v)) {
            continue;
        }
        for v in views {
            *ties.entry(v).or_default() += 1;
        }
        let seen = |l: &&cv_sfm::Landmark| views.iter().all(|v| l.observations.contains_key(v));
        let shared = rec.landmarks.values().filter(seen).count();
        let least = s.optimization_robust_covisibility_minimum_landmarks;
        cx.ensure("constraint-of-strangers", shared >= least, || format!("{shared} landmarks are shared, {least} demanded"))?;
        let at = views.map(|v| Rt::of_iso(&rec.views[v].pose.isometry()));
        let inv = at[0].inv();
        let want: f64 = (1..3).map(|i| at[i].after(&inv).t.norm()).sum();
        let got: f64 = poses.iter().map(|p| p.translation.vector.norm()).sum();
        if want > 1e-6 {
            cx.within("constraint-scale", (got / want - 1.0).abs(), 1e-6, || format!("{got} where the views are {want} apart"))?;
        }
    }
    for v in &new {
        let (got, want) = (ties.get(v).copied().unwrap_or(0), s.optimization_minimum_new_constraints.min(rec.views.len() - 1));
        cx.ensure("joined-view-not-tied", got >= want, || format!("{got} constraints on {v:?}, {want} demanded"))?;
    }
    Ok(())
}

/// How far an observation is from the landmark it is of: as one minus a cosine. Nothing where that is left to
/// the code.
fn loss(n: &Node, r: cv_sfm::ReconstructionKey, l: cv_sfm::LandmarkKey, view: cv_sfm::ViewKey) -> Option<f64> {
    let o: Vec<_> = n
        .v
        .data
        .landmark(r, l)
        .observations
        .iter()
        .map(|(v, f)| (*v, Rt::of_iso(&n.v.data.view(r, *v).pose.isometry()), n.v.data.observation_bearing(r, *v, *f).into_inner()))
        .collect();
    match &o[..] {
        [] | [_] => Some(2.0),
        [a, b] => {
            let rel = b.1.after(&a.1.inv());
            let x = rel.r * a.2;
            let (na, nb) = (x.cross(&rel.t).normalize(), b.2.cross(&rel.t).normalize());
            let miss = b.2.dot(&na).abs().min(x.dot(&nb).abs());
            let z = x.cross(&b.2);
            let (la, lb) = (-z.dot(&rel.t.cross(&b.2)), -z.dot(&rel.t.cross(&x)));
            let clear = 1e-6 * rel.t.norm() * z.norm();
            (x.dot(&b.2) > 0.01 && la > clear && lb > clear).then(|| 1.0 - miss.min(1.0).asin().cos())
        }
        _ => {
            let p = n.v.triangulate_landmark(r, l)?.point()?;
            let o = o.iter().find(|o| o.0 == view)?;
            Some(1.0 - o.1.apply(&p.coords).normalize().dot(&o.2))
        }
    }
}
/// Of two landmarks that one view sees both of: the view, which of its features is to be kept, and the
/// losses. There is none to keep if the worse is all that its landmark has.
type Better = (cv_sfm::ViewKey, Option<usize>, (f64, f64));
fn better_of(n: &Node, r: cv_sfm::ReconstructionKey, a: cv_sfm::LandmarkKey, b: cv_sfm::LandmarkKey) -> Option<Better> {
    let (oa, ob) = (&n.v.data.landmark(r, a).observations, &n.v.data.landmark(r, b).observations);
    let shared: Vec<_> = oa.keys().filter(|k| ob.contains_key(k)).copied().collect();
    let [view] = shared[..] else { return None };
    let (x, y) = (loss(n, r, a, view)?, loss(n, r, b, view)?);
    // Nothing is said where rounding decides.
    let clear = x.is_finite() && y.is_finite() && (x - y).abs() > 1e-13 + 1e-2 * x.max(y);
    let (worse, kept) = if x > y { (oa, ob[&view]) } else { (ob, oa[&view]) };
    clear.then(|| (view, (worse.len() > 1).then_some(kept), (x, y)))
}
