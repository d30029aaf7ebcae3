//! A mapping node: the real `VSlam` with simulated frames, and what must be true of its map.

use crate::world::*;
use cv_core::nalgebra::UnitVector3;
use cv_core::{Pose, Projective, TriangulatorObservations, WorldPoint, WorldToCamera};
use cv_geom::triangulation::LinearEigenTriangulator;
use cv_sfm::{FeedKey, FrameKey, LandmarkKey, ReconstructionKey, VSlam, VSlamData, VSlamSettings, ViewKey};
use cvsim::geo::*;
use cvsim::sim::*;
use eight_point::EightPoint;
use lambda_twist::LambdaTwist;
use slotmap::Key;
use std::collections::{BTreeMap, BTreeSet};

pub type Slam = VSlam<Ransac, Ransac, LambdaTwist, EightPoint, LinearEigenTriangulator, NodeRng>;

pub fn id(k: impl Key) -> u64 {
    k.data().as_ffi()
}

/// What a node has on disk, and what the simulator knows about it.
#[derive(Clone, Default)]
pub struct Image {
    pub data: Option<Vec<u8>>,
    pub feeds: Vec<FeedKey>,
    pub frames: Vec<(FrameKey, Shown)>,
}

pub struct Node {
    pub v: Slam,
    pub feeds: Vec<FeedKey>,
    pub frames: Vec<(FrameKey, Shown)>,
}

pub fn settings(plan: &Plan) -> VSlamSettings {
    VSlamSettings {
        maximum_cosine_distance: plan.k("cosine"),
        maximum_sine_distance: plan.k("sine"),
        minimum_robust_landmarks: plan.ku("min_landmarks"),
        robust_minimum_observations: plan.ku("min_observations"),
        robust_observation_incidence_minimum_cosine_distance: plan.k("incidence"),
        single_view_consensus_threshold: plan.k("consensus1"),
        single_view_filter_loop_iterations: plan.ku("loops"),
        single_view_patience: plan.ku("patience"),
        single_view_initial_features: plan.ku("initial_features"),
        single_view_minimum_landmarks: 16,
        single_view_minimum_robust_landmarks: 20,
        single_view_match_better_by: plan.ku("better_by") as u32,
        two_view_consensus_threshold: plan.k("consensus2"),
        two_view_minimum_robust_matches: plan.ku("min_matches"),
        two_view_match_better_by: plan.ku("better_by") as u32,
        two_view_patience: plan.ku("patience"),
        three_view_patience: plan.ku("patience"),
        three_view_filter_loop_iterations: plan.ku("loops"),
        three_view_minimum_relative_scales: 16,
        tracking_features: plan.ku("features"),
        tracking_recent_frames: plan.ku("recent"),
        tracking_similar_frames: plan.ku("similar"),
        tracking_similar_frame_recent_threshold: plan.ku("similar_recent"),
        tracking_similar_frame_search_num: 64,
        optimization_maximum_three_view_constraints: plan.ku("max_constraints"),
        optimization_minimum_new_constraints: plan.ku("min_constraints"),
        optimization_iterations: plan.ku("iterations"),
        optimization_minimum_landmarks: 16,
        optimization_robust_covisibility_minimum_landmarks: 16,
        constraint_patience: plan.ku("patience"),
        ..Default::default()
    }
}

impl Node {
    /// A node that only holds a map.
    pub fn empty() -> Node {
        Node::start(&Plan::empty(), &Image::default(), 0)
    }
    /// A node that starts, with what is on its disk.
    pub fn start(plan: &Plan, image: &Image, restarts: usize) -> Node {
        let data: VSlamData = match &image.data {
            Some(b) => bincode::deserialize(b).expect("what was saved whole can be read"),
            None => VSlamData::default(),
        };
        let s = settings(plan);
        let mut r = plan.entity("node", restarts, 0);
        let mut rng = || cvsim::rng::Rng::new(r.u64());
        let rounds = plan.ku("rounds");
        let v = VSlam::new(
            data,
            s,
            Ransac { rng: rng(), threshold: s.single_view_consensus_threshold, rounds },
            Ransac { rng: rng(), threshold: s.two_view_consensus_threshold, rounds },
            LambdaTwist::new(),
            EightPoint::new(),
            LinearEigenTriangulator::new(),
            NodeRng(rng()),
        );
        let mut n = Node { v, feeds: image.feeds.clone(), frames: image.frames.clone() };
        if image.data.is_none() {
            for f in 0..plan.ku("feeds") {
                let s = sensor(plan, f);
                let i = cv_pinhole::CameraIntrinsics {
                    focals: s.f,
                    principal_point: nalgebra::Point2::from(s.c),
                    skew: s.skew,
                };
                n.feeds.push(n.v.add_feed(cv_pinhole::CameraIntrinsicsK1Distortion::new(i, s.k1)));
            }
        }
        n
    }

    pub fn reconstructions(&self) -> Vec<ReconstructionKey> {
        self.v.data.reconstructions().collect()
    }
    pub fn pick(&self, i: usize) -> Option<ReconstructionKey> {
        let r = self.reconstructions();
        (!r.is_empty()).then(|| r[i % r.len()])
    }
    pub fn landmarks(&self, r: ReconstructionKey) -> Vec<LandmarkKey> {
        self.v.data.reconstruction(r).landmarks.keys().collect()
    }
    pub fn index_of(&self, f: FrameKey) -> Option<usize> {
        self.frames.iter().position(|x| x.0 == f)
    }
    pub fn shown(&self, f: FrameKey) -> Option<&Shown> {
        self.index_of(f).map(|i| &self.frames[i].1)
    }

    /// The map refers only to itself, and every part of it agrees with every other.
    pub fn consistent(&self, cx: &mut Cx) -> Res {
        let d = &self.v.data;
        for &r in &self.reconstructions() {
            let rec = d.reconstruction(r);
            cx.ensure("reconstruction-without-baselines", rec.views.len() >= 3, || {
                format!("a reconstruction of {} views", rec.views.len())
            })?;
            let mut seen_frames = BTreeSet::new();
            for (vk, view) in rec.views.iter() {
                let Some(i) = self.index_of(view.frame) else {
                    return fail("view-of-no-frame", format!("view {vk:?} is of frame {:?}", view.frame));
                };
                cx.ensure("frame-in-two-views", seen_frames.insert(i), || format!("frame {i}"))?;
                cx.ensure("frame-and-view-disagree", d.frame(view.frame).view == Some((r, vk)), || {
                    format!("view {vk:?} is of frame {i}, which says {:?}", d.frame(view.frame).view)
                })?;
                let n = d.frame(view.frame).descriptor_features.len();
                cx.ensure("view-does-not-cover-its-features", view.landmarks.len() == n, || {
                    format!("{} landmarks for {n} features", view.landmarks.len())
                })?;
                for (f, &l) in view.landmarks.iter().enumerate() {
                    let ok = rec.landmarks.get(l).is_some_and(|l| l.observations.get(&vk) == Some(&f));
                    cx.ensure("landmark-does-not-know-observation", ok, || {
                        format!(
                            "view {vk:?} of frame {i}, feature {f}: landmark {l:?} is {:?}",
                            rec.landmarks.get(l).map(|l| l.observations.get(&vk))
                        )
                    })?;
                }
                let m = view.pose.isometry();
                let rt = Rt::of_iso(&m);
                cx.ensure("pose-not-a-number", rt.r.iter().chain(rt.t.iter()).all(|x| x.is_finite()), || {
                    format!("pose of frame {i} is {m}")
                })?;
                cx.within("pose-not-rigid", rot_defect(&rt.r), 1e-9, || format!("pose of frame {i} is {m}"))?;
            }
            for (lk, l) in rec.landmarks.iter() {
                cx.ensure("landmark-without-observations", !l.observations.is_empty(), || format!("{lk:?}"))?;
                for (&vk, &f) in &l.observations {
                    let ok = rec.views.get(vk).is_some_and(|v| v.landmarks.get(f) == Some(&lk));
                    cx.ensure("observation-does-not-know-landmark", ok, || {
                        format!("landmark {lk:?} claims feature {f} of view {vk:?}")
                    })?;
                }
            }
            for (_, c) in rec.constraints.iter() {
                let j = serde_json::to_value(c).expect("constraints can be written");
                let mut keys = vec![];
                walk(&j, &mut keys);
                let text = format!("{c:?}");
                let distinct: BTreeSet<u64> = keys.iter().map(|k| id(*k)).collect();
                cx.ensure("constraint-of-missing-view", keys.len() == 3 && distinct.len() == 3 && keys.iter().all(|k| rec.views.contains_key(*k)), || {
                    format!("constraint on {keys:?}")
                })?;
                cx.ensure("constraint-not-a-number", !text.contains("NaN") && !text.contains("inf"), || text.clone())?;
            }
        }
        for (i, (f, shown)) in self.frames.iter().enumerate() {
            let frame = d.frame(*f);
            if let Some((r, vk)) = frame.view {
                let ok = d.reconstructions().any(|x| x == r)
                    && d.reconstruction(r).views.get(vk).is_some_and(|v| v.frame == *f);
                cx.ensure("frame-of-missing-view", ok, || format!("frame {i} says {:?}", frame.view))?;
            }
            cx.ensure("frame-of-other-feed", frame.feed == self.feeds[shown.feed], || format!("frame {i}"))?;
        }
        Ok(())
    }

    /// What is said of how well landmarks are seen is so, for some of the landmarks each time.
    pub fn robust(&self, step: usize, cx: &mut Cx) -> Res {
        let d = &self.v.data;
        let s = &self.v.settings;
        for &r in &self.reconstructions() {
            let rec = d.reconstruction(r);
            let all = self.landmarks(r);
            let many: Vec<_> = all.iter().copied().filter(|l| rec.landmarks[*l].observations.len() >= 2).collect();
            let mut last = None;
            for i in 0..16 {
                let from = if i % 4 == 3 || many.is_empty() { &all } else { &many };
                let l = from[(step * 31 + i * 7) % from.len()];
                let o = seen(d, r, &[l], None);
                let enough = |n: usize| n >= s.robust_minimum_observations.min(rec.views.len());
                let apart = self.apart(&o);
                let want = if enough(o.len()) { apart } else { Some(false) };
                let listed: Vec<_> = rec.landmarks[l].observations.iter().map(|(v, f)| (*v, *f)).collect();
                if let Some(want) = want {
                    cx.probe(if want { "robust-landmark" } else { "landmark-not-robust" });
                    let got = [self.v.is_landmark_robust(r, l), self.v.are_observations_robust(r, &listed)];
                    cx.ensure("robustness-of-landmark", got == [want; 2], || format!("{got:?} for {} observations, should be {want}", o.len()))?;
                    self.triangulated(self.v.triangulate_landmark_robust(r, l), want, &o, cx)?;
                }
                self.triangulated(self.v.triangulate_landmark(r, l), o.len() >= 2, &o, cx)?;
                for (v, f) in &listed {
                    let same = d.landmark_bearing(r, *v, l) == d.observation_bearing(r, *v, *f)
                        && d.observation_color(r, *v, *f) == d.frame(rec.views[*v].frame).color(*f);
                    cx.ensure("observation-of-other-feature", same, || format!("feature {f} of {v:?}"))?;
                }
                // Without one of its views it is as if that had not seen it.
                let (without, _) = listed[step % listed.len()];
                let rest = seen(d, r, &[l], Some(without));
                if let Some(want) = self.apart(&rest) {
                    let got = self.v.is_landmark_robust_without_view(r, l, without);
                    cx.ensure("robustness-without-view", got == want, || format!("{got} for {} observations", rest.len()))?;
                    self.triangulated(self.v.triangulate_landmark_robust_without_view(r, l, without), want, &rest, cx)?;
                }
                // And together with another one that no common view sees.
                if let Some(m) = last.filter(|m| *m != l) {
                    let other = &rec.landmarks[m].observations;
                    if listed.iter().all(|(v, _)| !other.contains_key(v)) {
                        let both = seen(d, r, &[m, l], None);
                        let want = if enough(both.len()) { self.apart(&both) } else { Some(false) };
                        if let Some(want) = want {
                            cx.probe("merger-judged");
                            let got = self.v.is_merged_landmark_robust(r, [m, l]);
                            cx.ensure("robustness-of-merger", got == want, || format!("{got} for {} observations", both.len()))?;
                            self.triangulated(self.v.triangulate_merged_landmark_robust(r, [m, l]), want, &both, cx)?;
                        }
                    }
                }
                last = Some(l);
            }
        }
        Ok(())
    }
    /// Whether some two of the directions in the world are far enough apart.
    fn apart(&self, o: &[Sight]) -> Option<bool> {
        let limit = self.v.settings.robust_observation_incidence_minimum_cosine_distance;
        let (mut most, mut bad) = (f64::MIN, false);
        for (i, a) in o.iter().enumerate() {
            for b in &o[..i] {
                let w = |s: &Sight| Rt::of_iso(&s.0.isometry()).r.transpose() * s.1.into_inner();
                let x = 1.0 - w(a).dot(&w(b));
                bad |= !x.is_finite();
                most = most.max(x);
            }
        }
        (!bad && (most - limit).abs() > 1e-9).then_some(most > limit)
    }
    /// A landmark that may be triangulated is where its observations put it.
    fn triangulated(&self, got: Option<WorldPoint>, may: bool, o: &[Sight], cx: &mut Cx) -> Res {
        if !may {
            return cx.ensure("triangulated-without-robustness", got.is_none(), || format!("{got:?} of {} observations", o.len()));
        }
        let t = LinearEigenTriangulator::new();
        let (a, b) = (t.triangulate_observations(o.iter().copied()), t.triangulate_observations(o.iter().rev().copied()));
        let (Some(a), Some(_)) = (a, b) else {
            // Where only the order decides, nothing is said.
            return cx.ensure("triangulated-from-nothing", got.is_none() || a.is_some() || b.is_some(), || format!("{got:?}"));
        };
        cx.probe("triangulation-compared");
        let Some(got) = got else { return fail("robust-landmark-not-triangulated", format!("{} observations give {a:?}", o.len())) };
        for s in o {
            let see = |p: WorldPoint| s.0.transform(p).bearing().into_inner();
            let (x, y) = (see(got), see(a));
            if y.iter().all(|v| v.is_finite()) {
                cx.within("landmark-elsewhere", ang(&x, &y), 1e-4, || format!("{got:?}, its observations put it at {a:?}"))?;
            }
        }
        Ok(())
    }

    /// Everything that can be seen of the map, to the last bit.
    pub fn snapshot(&self) -> Vec<String> {
        let d = &self.v.data;
        let mut out = vec![];
        for f in &self.feeds {
            out.push(format!("feed {:?}", d.feed(*f)));
        }
        for (k, _) in &self.frames {
            let f = d.frame(*k);
            let mut s = format!("frame {} {} {} {:?}", id(*k), id(f.feed), f.feed_frame, f.view.map(|v| (id(v.0), id(v.1))));
            for i in 0..f.descriptor_features.len() {
                let x = f.feature(i);
                s += &format!(" {} {:08x} {:?} {:?}", bits(x.bearing.iter()), x.response.to_bits(), x.color, f.descriptor(i).bytes());
            }
            s += &format!(" {:?}", f.lsh.bytes());
            out.push(s);
        }
        let mut recs = self.reconstructions();
        recs.sort_by_key(|k| id(*k));
        for r in recs {
            let rec = d.reconstruction(r);
            let mut lines = vec![];
            for (vk, v) in rec.views.iter() {
                let rt = Rt::of_iso(&v.pose.isometry());
                lines.push(format!(
                    "view {} of {} {} {} {:?}",
                    id(vk),
                    id(v.frame),
                    bits(rt.r.iter()),
                    bits(rt.t.iter()),
                    v.landmarks.iter().map(|l| id(*l)).collect::<Vec<_>>()
                ));
            }
            for (lk, l) in rec.landmarks.iter() {
                let o: BTreeMap<u64, usize> = l.observations.iter().map(|(k, f)| (id(*k), *f)).collect();
                lines.push(format!("landmark {} {o:?}", id(lk)));
            }
            for (ck, c) in rec.constraints.iter() {
                lines.push(format!("constraint {} {c:?}", id(ck)));
            }
            lines.sort();
            out.push(format!("reconstruction {}", id(r)));
            out.extend(lines);
        }
        out
    }

    /// A short summary for the event log: what exists and where the cameras are, to the last bit.
    pub fn digest(&self) -> (u64, String) {
        let mut h = 0u64;
        let mut s = String::new();
        for r in self.reconstructions() {
            let rec = self.v.data.reconstruction(r);
            for (_, v) in rec.views.iter() {
                let rt = Rt::of_iso(&v.pose.isometry());
                h = cvsim::rng::mix(&[h, cvsim::rng::fnv(bits(rt.r.iter().chain(rt.t.iter())).as_bytes())]);
            }
            let many = rec.landmarks.values().filter(|l| l.observations.len() >= 2).count();
            s += &format!(" [{} views {}/{} landmarks {} constraints]", rec.views.len(), many, rec.landmarks.len(), rec.constraints.len());
        }
        (h, s)
    }

    /// The camera poses of a reconstruction and the true ones, in the order of the views.
    pub fn poses(&self, r: ReconstructionKey) -> Vec<(ViewKey, usize, Rt, Rt)> {
        self.v
            .data
            .reconstruction(r)
            .views
            .iter()
            .filter_map(|(k, v)| {
                let i = self.index_of(v.frame)?;
                Some((k, i, Rt::of_iso(&v.pose.isometry()), self.frames[i].1.pose))
            })
            .collect()
    }

    /// What a feature of a frame really is.
    pub fn origin(&self, i: usize, feature: usize) -> Option<Origin> {
        let (k, shown) = &self.frames[i];
        let response = self.v.data.frame(*k).feature(feature).response;
        shown.features.iter().find(|o| o.response == response).copied()
    }
}

type Sight = (WorldToCamera, UnitVector3<f64>);
/// From where and in which direction landmarks are seen.
fn seen(d: &VSlamData, r: ReconstructionKey, ls: &[LandmarkKey], without: Option<ViewKey>) -> Vec<Sight> {
    let rec = d.reconstruction(r);
    let mut out = vec![];
    for l in ls {
        for (v, f) in &rec.landmarks[*l].observations {
            if Some(*v) != without {
                let view = &rec.views[*v];
                out.push((view.pose, d.frame(view.frame).bearing(*f)));
            }
        }
    }
    out
}

/// Collects what looks like a key.
fn walk(j: &serde_json::Value, keys: &mut Vec<ViewKey>) {
    use serde_json::Value::*;
    match j {
        Object(m) if m.contains_key("idx") && m.contains_key("version") => {
            if let Ok(k) = serde_json::from_value(j.clone()) {
                keys.push(k);
            }
        }
        Object(m) => m.values().for_each(|v| walk(v, keys)),
        Array(a) => a.iter().for_each(|v| walk(v, keys)),
        _ => {}
    }
}

/// The similarity that takes the positions and orientations of a reconstruction to the true ones,
/// and how far the poses are from it: rotation in radians, position relative to the spread of the
/// cameras.
pub struct Fit {
    pub rotation: M3,
    pub scale: f64,
    pub shift: V3,
    pub rot_err: f64,
    pub pos_err: f64,
}
pub fn fit(poses: &[(ViewKey, usize, Rt, Rt)]) -> Option<Fit> {
    // The true world is turned by q: R_true q = R.
    let q = nearest_rotation(&poses.iter().map(|p| p.3.r.transpose() * p.2.r).sum::<M3>());
    let rot_err = poses.iter().map(|p| rot_diff(&(p.3.r * q), &p.2.r)).fold(0.0, f64::max);
    let n = poses.len() as f64;
    let got: Vec<V3> = poses.iter().map(|p| q * p.2.center()).collect();
    let want: Vec<V3> = poses.iter().map(|p| p.3.center()).collect();
    let (mg, mw) = (got.iter().sum::<V3>() / n, want.iter().sum::<V3>() / n);
    let sg: f64 = got.iter().map(|p| (p - mg).norm_squared()).sum();
    let dot: f64 = got.iter().zip(&want).map(|(g, w)| (g - mg).dot(&(w - mw))).sum();
    let spread = want.iter().map(|w| (w - mw).norm()).fold(0.0, f64::max);
    if sg == 0.0 || spread < 1e-6 {
        return None;
    }
    let scale = dot / sg;
    let pos_err = got.iter().zip(&want).map(|(g, w)| ((g - mg) * scale - (w - mw)).norm()).fold(0.0, f64::max) / spread;
    Some(Fit { rotation: q, scale, shift: mw - mg * scale, rot_err, pos_err })
}
/// Whether every pair of the cameras stands well apart and sees nothing along the line between them.
pub fn sound(poses: &[Rt], points: &[V3]) -> bool {
    let c: Vec<V3> = poses.iter().map(|p| p.center()).collect();
    (0..c.len()).all(|i| {
        (0..i).all(|j| {
            let t = c[i] - c[j];
            let off = |v: V3| v.cross(&t).norm() / (v.norm() * t.norm());
            t.norm() > 0.2 && points.iter().all(|p| off(p - c[i]) > 0.15 && off(p - c[j]) > 0.15)
        })
    })
}
fn nearest_rotation(m: &M3) -> M3 {
    // Newton's iteration for the polar factor.
    let mut x = *m / m.norm().max(1e-300) * 1.7;
    for _ in 0..60 {
        let Some(inv) = x.try_inverse() else { return x };
        x = (x + inv.transpose()) * 0.5;
    }
    x
}
