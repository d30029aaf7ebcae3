//! C11: nodes save values to a simulated disk (write to a temporary file, sync, rename) and send them
//! to each other, through crashes, torn and short writes, full disks and failing or short reads.

use crate::geo::*;
use crate::rng::Rng;
use crate::runner::Scenario;
use crate::sim::*;
use cv_core::nalgebra::{IsometryMatrix3, Point2, Rotation3, Vector2};
use cv_core::{
    CameraModel, CameraPoint, CameraToCamera, CameraToWorld, KeyPoint, Pose, Projective, Skew3,
    WorldPoint, WorldToCamera, WorldToWorld,
};
use cv_pinhole::{CameraIntrinsics, CameraIntrinsicsK1Distortion, CameraSpecification};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::BTreeMap;
use std::io;

pub struct Persist;
pub static C11: Persist = Persist;

const TYPES: [&str; 13] = [
    "WorldToCamera",
    "CameraToWorld",
    "CameraToCamera",
    "WorldToWorld",
    "WorldPoint",
    "CameraPoint",
    "Skew3",
    "KeyPoint",
    "CameraIntrinsics",
    "CameraIntrinsicsK1Distortion",
    "CameraSpecification",
    "bearing",
    "checkpoint",
];

/// A value as the node holds it; every variant is one of the library's public types.
#[derive(Clone, Debug)]
enum Value {
    W2C(WorldToCamera),
    C2W(CameraToWorld),
    C2C(CameraToCamera),
    W2W(WorldToWorld),
    WP(WorldPoint),
    CP(CameraPoint),
    Skew(Skew3),
    KP(KeyPoint),
    Intr(CameraIntrinsics),
    K1(CameraIntrinsicsK1Distortion),
    Spec(CameraSpecification),
    Bearing(U3),
    /// What a real checkpoint looks like: several values in one record.
    Pack(Pack),
}

type Pack = (Vec<WorldToCamera>, Vec<WorldPoint>, Vec<(U3, U3)>, Option<CameraIntrinsicsK1Distortion>);

/// Floats that travel badly: signed zeros, subnormals, extremes, neighbours of round numbers.
fn number(r: &mut Rng, special: f64) -> f64 {
    if r.chance(special) {
        return *r.pick(&[
            0.0,
            -0.0,
            f64::MIN_POSITIVE,
            5e-324,
            -1.234e-310,
            f64::MAX,
            f64::MIN,
            1.0 + f64::EPSILON,
            0.1,
            1e23,
            9_007_199_254_740_993.0,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::NAN,
        ]);
    }
    match r.below(4) {
        0 => r.uni(-1.0, 1.0),
        1 => r.uni(-1.0, 1.0) * 10.0_f64.powf(r.uni(-300.0, 300.0)),
        2 => r.range(0, 5000) as f64 + 0.5 * r.below(2) as f64,
        _ => loop {
            let x = f64::from_bits(r.u64());
            if x.is_finite() {
                break x;
            }
        },
    }
}

fn make(plan: &Plan, kind: usize, salt: usize) -> Value {
    let mut r = plan.entity("value", kind, salt);
    let special = if plan.k("special") > 0.0 { 0.1 } else { 0.0 };
    let iso = |r: &mut Rng| -> IsometryMatrix3<f64> {
        let m = if r.chance(0.2) { M3::identity() } else { rand_rot(r) };
        let t = V3::from_fn(|_, _| number(r, special));
        IsometryMatrix3::from_parts(t.into(), Rotation3::from_matrix_unchecked(m))
    };
    let intr = |r: &mut Rng| CameraIntrinsics {
        focals: Vector2::new(r.uni(100.0, 3000.0), r.uni(100.0, 3000.0)),
        principal_point: Point2::new(number(r, special), r.uni(0.0, 2000.0)),
        skew: if r.chance(0.5) { 0.0 } else { r.normal() * 3.0 },
    };
    let k1 = |r: &mut Rng| CameraIntrinsicsK1Distortion::new(intr(r), if r.chance(0.2) { 0.0 } else { r.normal() * 0.2 });
    let hom = |r: &mut Rng| {
        let d = rand_unit(r);
        let w = *r.pick(&[0.0, 1.0, 0.25, 1e-300, 3.7]);
        if special > 0.0 && r.chance(0.2) {
            V4::from_fn(|_, _| number(r, 0.3))
        } else {
            d.push(w * r.uni(0.5, 1.0))
        }
    };
    match kind {
        0 => Value::W2C(WorldToCamera(iso(&mut r))),
        1 => Value::C2W(CameraToWorld(iso(&mut r))),
        2 => Value::C2C(CameraToCamera(iso(&mut r))),
        3 => Value::W2W(WorldToWorld(iso(&mut r))),
        4 => Value::WP(WorldPoint::from_homogeneous_unchecked(hom(&mut r))),
        5 => Value::CP(CameraPoint::from_homogeneous_unchecked(hom(&mut r))),
        6 => Value::Skew(Skew3(V3::from_fn(|_, _| number(&mut r, special)))),
        7 => Value::KP(KeyPoint(Point2::new(number(&mut r, special), number(&mut r, special)))),
        8 => Value::Intr(intr(&mut r)),
        9 => Value::K1(k1(&mut r)),
        10 => Value::Spec(CameraSpecification {
            pixels: Vector2::new(r.u64() as usize >> r.below(60), r.below(10_000)),
            pixel_dimensions: Vector2::new(number(&mut r, special), r.logu(1e-7, 1e-4)),
        }),
        11 => Value::Bearing(U3::new_unchecked(rand_unit(&mut r))),
        _ => {
            let n = r.below(6);
            let m = r.below(6);
            Value::Pack((
                (0..n).map(|_| WorldToCamera(iso(&mut r))).collect(),
                (0..m).map(|_| WorldPoint::from_homogeneous_unchecked(hom(&mut r))).collect(),
                (0..m).map(|_| (U3::new_unchecked(rand_unit(&mut r)), U3::new_unchecked(rand_unit(&mut r)))).collect(),
                r.chance(0.5).then(|| k1(&mut r)),
            ))
        }
    }
}

macro_rules! each {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            Value::W2C($x) => $e,
            Value::C2W($x) => $e,
            Value::C2C($x) => $e,
            Value::W2W($x) => $e,
            Value::WP($x) => $e,
            Value::CP($x) => $e,
            Value::Skew($x) => $e,
            Value::KP($x) => $e,
            Value::Intr($x) => $e,
            Value::K1($x) => $e,
            Value::Spec($x) => $e,
            Value::Bearing($x) => $e,
            Value::Pack($x) => $e,
        }
    };
}

/// Every number in the value, in a fixed order, read through public fields and methods only.
fn words(v: &Value) -> Vec<u64> {
    let iso = |i: &IsometryMatrix3<f64>| -> Vec<u64> {
        i.rotation.matrix().iter().chain(i.translation.vector.iter()).map(|x| x.to_bits()).collect()
    };
    let intr = |c: &CameraIntrinsics| -> Vec<u64> {
        [c.focals.x, c.focals.y, c.principal_point.x, c.principal_point.y, c.skew].iter().map(|x| x.to_bits()).collect()
    };
    let k1 = |c: &CameraIntrinsicsK1Distortion| -> Vec<u64> {
        let mut v = intr(&c.simple_intrinsics);
        v.push(c.k1.to_bits());
        v
    };
    let vec = |x: &mut dyn Iterator<Item = &f64>| -> Vec<u64> { x.map(|x| x.to_bits()).collect() };
    match v {
        Value::W2C(p) => iso(&p.0),
        Value::C2W(p) => iso(&p.0),
        Value::C2C(p) => iso(&p.0),
        Value::W2W(p) => iso(&p.0),
        Value::WP(p) => vec(&mut p.homogeneous().iter()),
        Value::CP(p) => vec(&mut p.homogeneous().iter()),
        Value::Skew(s) => vec(&mut s.0.iter()),
        Value::KP(k) => vec(&mut k.0.coords.iter()),
        Value::Intr(c) => intr(c),
        Value::K1(c) => k1(c),
        Value::Spec(s) => {
            let mut v = vec(&mut s.pixel_dimensions.iter());
            v.extend(s.pixels.iter().map(|x| *x as u64));
            v
        }
        Value::Bearing(b) => vec(&mut b.iter()),
        Value::Pack((p, w, m, k)) => {
            let mut v = vec![p.len() as u64, w.len() as u64, m.len() as u64];
            v.extend(p.iter().flat_map(|p| iso(&p.0)));
            v.extend(w.iter().flat_map(|p| vec(&mut p.homogeneous().iter())));
            v.extend(m.iter().flat_map(|(a, b)| vec(&mut a.iter().chain(b.iter()))));
            v.extend(k.iter().flat_map(k1));
            v
        }
    }
}

/// What the value does when it is used: a restored value must do the same.
fn behave(v: &Value) -> Vec<u64> {
    let q = V4::new(0.48, -0.6, 0.64, 0.3);
    let h = |v: V4| -> Vec<u64> { v.iter().map(|x| x.to_bits()).collect() };
    let cam = |c: &dyn Fn(KeyPoint) -> U3, u: &dyn Fn(U3) -> Option<KeyPoint>| -> Vec<u64> {
        let b = c(KeyPoint(Point2::new(320.5, 200.25)));
        let mut v: Vec<u64> = b.iter().map(|x| x.to_bits()).collect();
        v.extend(u(b).iter().flat_map(|k| k.0.coords.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
        v
    };
    match v {
        Value::W2C(p) => h(p.transform(WorldPoint::from_homogeneous(q)).homogeneous()),
        Value::C2W(p) => h(p.transform(CameraPoint::from_homogeneous(q)).homogeneous()),
        Value::C2C(p) => h(p.transform(CameraPoint::from_homogeneous(q)).homogeneous()),
        Value::W2W(p) => h(p.transform(WorldPoint::from_homogeneous(q)).homogeneous()),
        Value::WP(p) => p.point().map_or(vec![], |p| p.coords.iter().map(|x| x.to_bits()).collect()),
        Value::CP(p) => p.bearing().iter().map(|x| x.to_bits()).collect(),
        Value::Skew(s) => s.rotation().matrix().iter().map(|x| x.to_bits()).collect(),
        Value::Intr(c) => cam(&|k| c.calibrate(k), &|b| c.uncalibrate(b)),
        Value::K1(c) => cam(&|k| c.calibrate(k), &|b| c.uncalibrate(b)),
        _ => vec![],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Text,
    Binary,
}

/// Faults of one transfer, by byte position.
#[derive(Clone, Copy, Debug)]
struct Faults {
    /// Bytes moved per call at most.
    chunk: usize,
    /// Every how many calls one is interrupted (0: never).
    interrupt: usize,
    /// Byte at which the device fails, if it does.
    fail_at: Option<usize>,
}

struct SimFile<'a> {
    data: &'a mut Vec<u8>,
    pos: usize,
    calls: usize,
    f: Faults,
    hits: [u64; 3],
}

impl SimFile<'_> {
    fn gate(&mut self, want: usize) -> io::Result<usize> {
        self.calls += 1;
        if self.f.interrupt > 0 && self.calls % self.f.interrupt == 0 {
            self.hits[0] += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "simulated EINTR"));
        }
        let mut n = want.min(self.f.chunk.max(1));
        if let Some(at) = self.f.fail_at {
            if self.pos >= at && want > 0 {
                self.hits[1] += 1;
                return Err(io::Error::new(io::ErrorKind::Other, "simulated device error"));
            }
            n = n.min(at - self.pos);
        }
        if n < want {
            self.hits[2] += 1;
        }
        Ok(n)
    }
}

impl io::Write for SimFile<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.gate(buf.len())?;
        self.data.extend_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl io::Read for SimFile<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.data.len() - self.pos.min(self.data.len());
        let n = self.gate(buf.len())?.min(left);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn encode<T: Serialize>(v: &T, form: Form, file: &mut SimFile) -> Result<(), String> {
    match form {
        Form::Text => serde_json::to_writer(file, v).map_err(|e| e.to_string()),
        Form::Binary => bincode::serialize_into(file, v).map_err(|e| e.to_string()),
    }
}

fn decode_as<T: DeserializeOwned>(form: Form, file: &mut SimFile) -> Result<T, String> {
    match form {
        Form::Text => serde_json::from_reader(file).map_err(|e| e.to_string()),
        Form::Binary => {
            let v = bincode::deserialize_from(&mut *file).map_err(|e| e.to_string())?;
            if file.pos < file.data.len() {
                return Err("bytes left over".into());
            }
            Ok(v)
        }
    }
}

fn save(v: &Value, form: Form, file: &mut SimFile) -> Result<(), String> {
    each!(v, x => encode(x, form, file))
}

fn load(kind: usize, form: Form, file: &mut SimFile) -> Result<Value, String> {
    Ok(match kind {
        0 => Value::W2C(decode_as(form, file)?),
        1 => Value::C2W(decode_as(form, file)?),
        2 => Value::C2C(decode_as(form, file)?),
        3 => Value::W2W(decode_as(form, file)?),
        4 => Value::WP(decode_as(form, file)?),
        5 => Value::CP(decode_as(form, file)?),
        6 => Value::Skew(decode_as(form, file)?),
        7 => Value::KP(decode_as(form, file)?),
        8 => Value::Intr(decode_as(form, file)?),
        9 => Value::K1(decode_as(form, file)?),
        10 => Value::Spec(decode_as(form, file)?),
        11 => Value::Bearing(decode_as(form, file)?),
        _ => Value::Pack(decode_as(form, file)?),
    })
}

fn bytes_of(v: &Value, form: Form) -> Vec<u8> {
    let mut data = vec![];
    let mut f = SimFile { data: &mut data, pos: 0, calls: 0, f: CLEAN, hits: [0; 3] };
    save(v, form, &mut f).expect("saving to a healthy disk");
    data
}

const CLEAN: Faults = Faults { chunk: usize::MAX, interrupt: 0, fail_at: None };

fn read(kind: usize, form: Form, data: &[u8], f: Faults, cx: &mut Cx) -> Result<Value, String> {
    let mut data = data.to_vec();
    let mut file = SimFile { data: &mut data, pos: 0, calls: 0, f, hits: [0; 3] };
    let r = load(kind, form, &mut file);
    note(file.hits, ["read-interrupted", "read-device-error", "read-short"], cx);
    r
}

fn note(hits: [u64; 3], names: [&'static str; 3], cx: &mut Cx) {
    for (n, name) in hits.iter().zip(names) {
        if *n > 0 {
            cx.fault(name);
        }
    }
}

#[derive(Clone, Debug)]
struct Saved {
    kind: usize,
    form: Form,
    data: Vec<u8>,
}

/// The simulated disk: what has been renamed into place, and temporary files that were never synced.
#[derive(Default, Clone)]
struct Disk {
    files: BTreeMap<usize, Saved>,
    temps: Vec<Saved>,
}

/// Checks one value read back against the one that was saved.
fn same(was: &Value, now: &Value, form: Form, cx: &mut Cx) -> Res {
    cx.ensure("restored-exactly", words(was) == words(now), || {
        format!("{form:?} saved {was:?} and restored {now:?}")
    })?;
    cx.ensure("restored-behaves-alike", behave(was) == behave(now), || {
        format!("{form:?} {was:?} and {now:?} behave differently")
    })
}

/// Text cannot hold a number that is not finite.
fn storable(v: &Value, form: Form) -> bool {
    form == Form::Binary
        || match v {
            Value::Spec(s) => s.pixel_dimensions.iter().all(|x| x.is_finite()),
            Value::Pack((p, w, m, k)) => {
                p.iter().all(|p| p.0.translation.vector.iter().all(|x| x.is_finite()))
                    && w.iter().all(|p| p.homogeneous().iter().all(|x| x.is_finite()))
                    && m.iter().all(|(a, b)| a.iter().chain(b.iter()).all(|x| x.is_finite()))
                    && k.map_or(true, |k| {
                        let c = k.simple_intrinsics;
                        [c.principal_point.x, c.principal_point.y].iter().all(|x| x.is_finite())
                    })
            }
            other => words(other).iter().all(|w| f64::from_bits(*w).is_finite()),
        }
}

/// Damage to a text record that a careless format would read as another value.
fn maim(v: &serde_json::Value, r: &mut Rng) -> Option<(serde_json::Value, String)> {
    // Paths to every node.
    fn walk(v: &serde_json::Value, here: Vec<String>, out: &mut Vec<Vec<String>>) {
        match v {
            serde_json::Value::Object(m) => {
                for (k, x) in m {
                    let mut p = here.clone();
                    p.push(k.clone());
                    out.push(p.clone());
                    walk(x, p, out);
                }
            }
            serde_json::Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    let mut p = here.clone();
                    p.push(i.to_string());
                    out.push(p.clone());
                    walk(x, p, out);
                }
            }
            _ => {}
        }
    }
    let mut paths = vec![];
    walk(v, vec![], &mut paths);
    if paths.is_empty() {
        return None;
    }
    let path = r.pick(&paths).clone();
    let mut out = v.clone();
    let mut cur = &mut out;
    for k in &path[..path.len() - 1] {
        cur = match cur {
            serde_json::Value::Object(m) => m.get_mut(k).unwrap(),
            serde_json::Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            _ => return None,
        };
    }
    let last = path.last().unwrap();
    let how = r.below(3);
    match cur {
        serde_json::Value::Object(m) => match how {
            0 => {
                m.remove(last);
            }
            1 => {
                m.insert(last.clone(), serde_json::Value::Null);
            }
            _ => {
                m.insert(last.clone(), serde_json::Value::String("0".into()));
            }
        },
        serde_json::Value::Array(a) => {
            let i = last.parse::<usize>().unwrap();
            match how {
                0 => {
                    a.remove(i);
                }
                1 => a[i] = serde_json::Value::Null,
                _ => a[i] = serde_json::Value::String("0".into()),
            }
        }
        _ => return None,
    }
    Some((out, format!("{} at {}", ["removed", "null", "text"][how], path.join("."))))
}

impl Scenario for Persist {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough {
            20_000_000
        } else {
            600_000
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &[
            "serialization and deserialization of every serializable public type of cv-core and cv-pinhole",
            "their conversions and transformations after restore",
            "serde_json and bincode, as a user of the library would call them",
        ]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["disk, files, rename and sync, network, crash (simulator)"]
    }
    fn rule(&self) -> &'static str {
        "one case is one simulated history of saves, transfers, faults, crashes and restores; values and faults come from the seed; non-trivial when values were restored and judged; distinct by the sequence of operations"
    }
    fn floors(&self) -> &'static [(&'static str, f64)] {
        &[("special", 0.0)]
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut plan = Plan::empty();
        plan.world = rng.u64();
        plan.set("special", f64::from(u8::from(rng.chance(0.5))));
        let faulty = if rng.chance(0.3) { 0.0 } else { rng.uni(0.1, 0.8) };
        let mut t = 0;
        for salt in 0..rng.range(3, if thorough { 40 } else { 20 }) {
            t += rng.range(1, 1000) as u64;
            let fault = |rng: &mut Rng| -> Vec<f64> {
                if !rng.chance(faulty) {
                    return vec![1e9, 0.0, -1.0];
                }
                let chunk = *rng.pick(&[1.0, 2.0, 7.0, 64.0, 1e9]);
                let fail = if rng.chance(0.5) { rng.below(400) as f64 } else { -1.0 };
                vec![chunk, rng.below(5) as f64, fail]
            };
            match rng.below(10) {
                0..=4 => {
                    let mut a = vec![
                        rng.below(5) as f64,
                        rng.below(TYPES.len()) as f64,
                        salt as f64,
                        rng.below(2) as f64,
                    ];
                    a.extend(fault(rng));
                    plan.ops.push(Op::new(t, "save", a));
                }
                5 => {
                    // The node dies while it saves: how much of the file the disk still got.
                    plan.ops.push(Op::new(
                        t,
                        "die",
                        vec![
                            rng.below(5) as f64,
                            rng.below(TYPES.len()) as f64,
                            salt as f64,
                            rng.below(2) as f64,
                            rng.f(),
                            f64::from(u8::from(rng.chance(0.2))),
                        ],
                    ));
                }
                6 | 7 => {
                    let mut a = vec![rng.below(5) as f64];
                    a.extend(fault(rng));
                    plan.ops.push(Op::new(t, "load", a));
                }
                8 => plan.ops.push(Op::new(t, "maim", vec![rng.below(5) as f64, salt as f64])),
                _ => plan.ops.push(Op::new(t, "restart", vec![])),
            }
        }
        plan.ops.push(Op::new(t + 1000, "restart", vec![]));
        plan
    }
    fn run(&self, plan: &Plan, cx: &mut Cx) -> Res {
        let mut disk = Disk::default();
        // What was acknowledged last for each slot.
        let mut acked: BTreeMap<usize, Value> = BTreeMap::new();
        let form_of = |x: usize| if x == 0 { Form::Text } else { Form::Binary };
        let faults_of = |op: &Op, i: usize| Faults {
            chunk: op.u(i).max(1),
            interrupt: op.u(i + 1),
            fail_at: (op.f(i + 2) >= 0.0).then(|| op.u(i + 2)),
        };
        for op in &plan.ops {
            cx.sim_us = op.t;
            match op.k.as_str() {
                "save" => {
                    let (slot, kind, form) = (op.u(0), op.u(1).min(TYPES.len() - 1), form_of(op.u(3)));
                    let v = make(plan, kind, op.u(2));
                    // An interrupted call is retried: an interrupt on every call would never end.
                    let mut f = faults_of(op, 4);
                    if f.interrupt == 1 {
                        f.interrupt = 2;
                    }
                    let mut data = vec![];
                    let mut file = SimFile { data: &mut data, pos: 0, calls: 0, f, hits: [0; 3] };
                    let r = save(&v, form, &mut file);
                    note(file.hits, ["write-interrupted", "disk-full", "write-short"], cx);
                    let failed = file.hits[1] > 0;
                    cx.sched((slot * 64 + kind * 2 + op.u(3)) as u64 * 2 + u64::from(r.is_ok()));
                    cx.log(format!("save {slot} {} {form:?}: {} bytes, {}", TYPES[kind], data.len(), if r.is_ok() { "ok" } else { "failed" }));
                    cx.state(&[kind as u64, op.u(3) as u64, u64::from(failed), data.len() as u64]);
                    match r {
                        Ok(()) => {
                            cx.ensure("failed-write-reported", !failed, || {
                                format!("{} was acknowledged although the disk failed", TYPES[kind])
                            })?;
                            cx.ensure("faults-do-not-change-bytes", data == bytes_of(&v, form), || {
                                format!("{} wrote other bytes to a slow disk", TYPES[kind])
                            })?;
                            disk.files.insert(slot, Saved { kind, form, data });
                            acked.insert(slot, v);
                            cx.probe("acknowledged");
                        }
                        Err(e) => {
                            cx.ensure("only-faults-refuse-a-save", failed, || format!("{} {form:?}: {e}", TYPES[kind]))?;
                            disk.temps.push(Saved { kind, form, data });
                        }
                    }
                }
                "die" => {
                    let (slot, kind, form) = (op.u(0), op.u(1).min(TYPES.len() - 1), form_of(op.u(3)));
                    let v = make(plan, kind, op.u(2));
                    let data = bytes_of(&v, form);
                    if op.u(5) > 0 {
                        // Died after the rename, before the acknowledgement: the new value is there.
                        cx.fault("crash-before-acknowledgement");
                        disk.files.insert(slot, Saved { kind, form, data });
                        acked.insert(slot, v);
                    } else {
                        cx.fault("crash-tearing-a-write");
                        let n = (data.len() as f64 * op.f(4)) as usize;
                        disk.temps.push(Saved { kind, form, data: data[..n.min(data.len() - 1)].to_vec() });
                    }
                    cx.sched(1000 + slot as u64);
                    cx.log(format!("die saving {slot} {}", TYPES[kind]));
                    recover(&mut disk, &acked, cx)?;
                }
                "load" => {
                    let slot = op.u(0);
                    let Some(s) = disk.files.get(&slot) else { continue };
                    let was = &acked[&slot];
                    let mut f = faults_of(op, 1);
                    if f.interrupt == 1 {
                        f.interrupt = 2;
                    }
                    let r = read(s.kind, s.form, &s.data, f, cx);
                    cx.sched(2000 + slot as u64);
                    cx.log(format!("load {slot} {}: {}", TYPES[s.kind], if r.is_ok() { "ok" } else { "refused" }));
                    let hurt = f.fail_at.map_or(false, |at| at <= s.data.len());
                    match r {
                        Ok(now) => {
                            cx.ensure("failed-read-reported", f.fail_at.map_or(true, |at| at >= s.data.len()), || {
                                format!("{} was restored although the disk failed", TYPES[s.kind])
                            })?;
                            same(was, &now, s.form, cx)?;
                        }
                        Err(e) => cx.ensure("saved-can-be-restored", hurt || !storable(was, s.form), || {
                            format!("{} {:?} {was:?}: {e}", TYPES[s.kind], s.form)
                        })?,
                    }
                }
                "maim" => {
                    let Some(s) = disk.files.get(&op.u(0)) else { continue };
                    let mut r = plan.entity("maim", op.u(1), 0);
                    let what;
                    let data = if s.form == Form::Text {
                        let v: serde_json::Value = serde_json::from_slice(&s.data).expect("text record");
                        let Some((v, how)) = maim(&v, &mut r) else { continue };
                        what = how;
                        // Lists of a checkpoint may lose an element and an option may be null.
                        if s.kind == 12 {
                            continue;
                        }
                        serde_json::to_vec(&v).unwrap()
                    } else {
                        let n = r.below(s.data.len());
                        what = format!("cut to {n} of {}", s.data.len());
                        s.data[..n].to_vec()
                    };
                    cx.fault("record-damaged");
                    cx.sched(3000 + op.u(0) as u64);
                    let got = read(s.kind, s.form, &data, CLEAN, cx);
                    cx.log(format!("damaged {} {what}: {}", TYPES[s.kind], if got.is_ok() { "accepted" } else { "refused" }));
                    cx.ensure("damaged-record-refused", got.is_err(), || {
                        format!("{} with {what} was restored as {got:?}", TYPES[s.kind])
                    })?;
                }
                "restart" => {
                    cx.fault("restart");
                    cx.sched(7);
                    cx.log("restart".into());
                    recover(&mut disk, &acked, cx)?;
                }
                _ => {}
            }
        }
        Ok(())
    }
}

/// What a node does when it comes up: restore every slot, look at what temporary files hold.
fn recover(disk: &mut Disk, acked: &BTreeMap<usize, Value>, cx: &mut Cx) -> Res {
    for (slot, s) in &disk.files {
        let was = &acked[slot];
        let r = read(s.kind, s.form, &s.data, CLEAN, cx);
        cx.log(format!("recover {slot}: {}", r.is_ok()));
        match r {
            Ok(now) => {
                cx.probe("restored-after-crash");
                same(was, &now, s.form, cx)?;
                // Saving again what was restored gives the same bytes: nothing drifts over restarts.
                cx.ensure("resave-is-stable", bytes_of(&now, s.form) == s.data, || {
                    format!("{} changes when it is saved again", TYPES[s.kind])
                })?;
                // Through the other form as well, where it can hold the value.
                let other = if s.form == Form::Text { Form::Binary } else { Form::Text };
                if storable(was, other) {
                    let b = bytes_of(&now, other);
                    match read(s.kind, other, &b, CLEAN, cx) {
                        Ok(v) => same(was, &v, other, cx)?,
                        Err(e) => return fail("saved-can-be-restored", format!("{} {other:?} {was:?}: {e}", TYPES[s.kind])),
                    }
                }
            }
            Err(e) => cx.ensure("saved-can-be-restored", !storable(was, s.form), || {
                format!("{} {:?} {was:?}: {e}", TYPES[s.kind], s.form)
            })?,
        }
    }
    for s in disk.temps.drain(..) {
        let r = read(s.kind, s.form, &s.data, CLEAN, cx);
        cx.probe("torn-file-met");
        cx.ensure("torn-record-refused", r.is_err(), || {
            format!("{} bytes of a torn {} were restored as {r:?}", s.data.len(), TYPES[s.kind])
        })?;
    }
    Ok(())
}
