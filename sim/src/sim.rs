//! The simulator core: plans, the event queue, the run context and the fault bookkeeping.

use crate::rng::{fnv, mix, Rng};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::fmt::Write as _;

/// One decision of a run: a workload step or a fault, with its simulated time and arguments.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    /// Simulated time in microseconds.
    pub t: u64,
    pub k: String,
    pub a: Vec<f64>,
}

impl Op {
    pub fn new(t: u64, k: &str, a: Vec<f64>) -> Self {
        Op {
            t,
            k: k.to_string(),
            a,
        }
    }
    pub fn u(&self, i: usize) -> usize {
        self.a.get(i).copied().unwrap_or(0.0) as usize
    }
    pub fn f(&self, i: usize) -> f64 {
        self.a.get(i).copied().unwrap_or(0.0)
    }
}

/// A run, written out: executing it is a pure function of the plan and the code.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub property: String,
    /// VERIF_SEED and index the plan was generated from (informative; nothing is drawn from them).
    pub origin: String,
    /// Seed of the simulated world (cameras, landmarks, noise).
    pub world: u64,
    pub knobs: BTreeMap<String, f64>,
    pub ops: Vec<Op>,
}

impl Plan {
    pub fn empty() -> Plan {
        Plan {
            property: String::new(),
            origin: String::new(),
            world: 0,
            knobs: Default::default(),
            ops: vec![],
        }
    }
    pub fn k(&self, name: &str) -> f64 {
        self.knobs.get(name).copied().unwrap_or(0.0)
    }
    pub fn ku(&self, name: &str) -> usize {
        self.k(name) as usize
    }
    pub fn set(&mut self, name: &str, v: f64) {
        self.knobs.insert(name.to_string(), v);
    }
    /// Generator for one entity of the world; independent of every other entity, so that dropping
    /// steps from the plan never changes what remains.
    pub fn entity(&self, kind: &str, i: usize, j: usize) -> Rng {
        Rng::of(&[self.world, fnv(kind.as_bytes()), i as u64, j as u64])
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    /// Stable name of what failed; the minimiser and the replay keep it.
    pub class: String,
    pub detail: String,
}

pub type Res = Result<(), Violation>;

pub fn fail<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        class: class.into(),
        detail: detail.into(),
    })
}

/// What one run records. Logging draws nothing from any generator and reads no clock.
pub struct Cx {
    pub hash: u64,
    pub events: u64,
    pub lines: Option<Vec<String>>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub worst: BTreeMap<&'static str, f64>,
    pub states: BTreeSet<u64>,
    pub order: u64,
    pub sim_us: u64,
    pub checks: u64,
}

impl Cx {
    pub fn new(verbose: bool) -> Self {
        Cx {
            hash: 0xcbf2_9ce4_8422_2325,
            events: 0,
            lines: verbose.then(Vec::new),
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            worst: BTreeMap::new(),
            states: BTreeSet::new(),
            order: 0,
            sim_us: 0,
            checks: 0,
        }
    }
    pub fn log(&mut self, line: String) {
        self.events += 1;
        self.hash = mix(&[self.hash, fnv(line.as_bytes())]);
        if let Some(l) = &mut self.lines {
            l.push(format!("[{:>9}us] {line}", self.sim_us));
        }
    }
    /// A fault that really fired.
    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
    }
    pub fn probe(&mut self, kind: &'static str) {
        *self.probes.entry(kind).or_insert(0) += 1;
    }
    /// Largest ratio seen of an error to its tolerance.
    pub fn margin(&mut self, kind: &'static str, err: f64, tol: f64) {
        let r = err / tol;
        let e = self.worst.entry(kind).or_insert(0.0);
        if r > *e || r.is_nan() {
            *e = r;
        }
    }
    /// Records the abstract state reached, for the distinct-states measure.
    pub fn state(&mut self, words: &[u64]) {
        self.states.insert(mix(words));
    }
    /// Folds a scheduling decision into the interleaving signature.
    pub fn sched(&mut self, word: u64) {
        self.order = mix(&[self.order, word]);
    }
    /// Checks `err <= tol`, keeping the margin.
    pub fn within(
        &mut self,
        name: &'static str,
        err: f64,
        tol: f64,
        detail: impl FnOnce() -> String,
    ) -> Res {
        self.checks += 1;
        self.margin(name, err, tol);
        if err <= tol {
            Ok(())
        } else {
            fail(name, format!("{} (error {err:e}, allowed {tol:e})", detail()))
        }
    }
    pub fn ensure(&mut self, name: &'static str, ok: bool, detail: impl FnOnce() -> String) -> Res {
        self.checks += 1;
        if ok {
            Ok(())
        } else {
            fail(name, detail())
        }
    }
}

/// Bit-exact rendering of floats for the event log.
pub fn bits<'a>(v: impl IntoIterator<Item = &'a f64>) -> String {
    let mut s = String::new();
    for x in v {
        let _ = write!(s, "{:016x}", x.to_bits());
    }
    s
}

struct Entry<E> {
    at: u64,
    seq: u64,
    ev: E,
}
impl<E> PartialEq for Entry<E> {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl<E> Eq for Entry<E> {}
impl<E> PartialOrd for Entry<E> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<E> Ord for Entry<E> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

/// Discrete-event queue ordered by (time, sequence): a total order, no real clock anywhere.
pub struct Queue<E> {
    q: BinaryHeap<Entry<E>>,
    seq: u64,
}

impl<E> Default for Queue<E> {
    fn default() -> Self {
        Queue {
            q: BinaryHeap::new(),
            seq: 0,
        }
    }
}

impl<E> Queue<E> {
    pub fn push(&mut self, at: u64, ev: E) {
        self.seq += 1;
        self.q.push(Entry {
            at,
            seq: self.seq,
            ev,
        });
    }
    pub fn pop(&mut self) -> Option<(u64, E)> {
        self.q.pop().map(|e| (e.at, e.ev))
    }
    pub fn is_empty(&self) -> bool {
        self.q.is_empty()
    }
    pub fn len(&self) -> usize {
        self.q.len()
    }
}

/// Fault rates of one run's links, drawn once per run (swarm style).
#[derive(Clone, Copy, Debug)]
pub struct Link {
    pub loss: f64,
    pub dup: f64,
    pub min_us: u64,
    pub jitter_us: u64,
    pub stall: f64,
}

impl Link {
    pub fn swarm(rng: &mut Rng) -> Self {
        Link {
            loss: if rng.chance(0.5) { rng.uni(0.0, 0.5) } else { 0.0 },
            dup: if rng.chance(0.5) { rng.uni(0.0, 0.5) } else { 0.0 },
            min_us: rng.range(10, 2000) as u64,
            jitter_us: if rng.chance(0.7) {
                rng.range(1, 200_000) as u64
            } else {
                1
            },
            stall: if rng.chance(0.3) { rng.uni(0.0, 0.1) } else { 0.0 },
        }
    }
    pub fn clean(rng: &mut Rng) -> Self {
        Link {
            loss: 0.0,
            dup: 0.0,
            min_us: 10,
            jitter_us: rng.range(1, 50_000) as u64,
            stall: 0.0,
        }
    }
    /// Fate of one message: the delay of every copy that arrives; empty when it is lost.
    pub fn fate(&self, rng: &mut Rng) -> Vec<f64> {
        let mut out = vec![];
        if rng.chance(self.loss) {
            return out;
        }
        let one = |rng: &mut Rng| {
            let mut d = self.min_us + rng.below(self.jitter_us as usize + 1) as u64;
            if rng.chance(self.stall) {
                d += 2_000_000;
            }
            d as f64
        };
        out.push(one(rng));
        while rng.chance(self.dup) && out.len() < 4 {
            out.push(one(rng));
        }
        out
    }
}

/// Counts what the network did to one message from its list of delays.
pub fn note_fate(cx: &mut Cx, delays: &[f64]) {
    if delays.is_empty() {
        cx.fault("net-loss");
    }
    if delays.len() > 1 {
        cx.fault("net-duplicate");
    }
    if delays.iter().any(|d| *d >= 2_000_000.0) {
        cx.fault("net-stall");
    }
}
