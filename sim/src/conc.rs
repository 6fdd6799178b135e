//! C10, C17, C18: threads sharing snapshots, caches and stores. Real threads, one running at a time,
//! switched at every lock and store access by the scheduler.
use crate::outcome::{guard, mixh, Out, RunResult, Stats};
use crate::plan::{random_items, secrets, Cfg, Elem, Items, Profile, KEYS};
use crate::query::Q;
use crate::reads::{
    check_complete, check_prefix, check_tiles, chunks, elements, show, Kind, Triple, KINDS,
};
use crate::rng::{mix, Rng};
use crate::sched::{yield_now, Sched, SchedResult, SchedSpec};
use crate::store::{AnyReader, AnyWriter, Fault, Store};
use crate::types::{hash64, Key, KeySeq, Link, Val, TT};
use crate::walk::Walker;
use banyan::index::{Branch, Index, LeafIndex};
use banyan::store::{BlockWriter, BranchCache, MemCache, MemStore, ReadOnlyStore};
use banyan::{Forest, StreamBuilder, Transaction, Tree};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroUsize;
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SOp {
    Put(u8),
    Get(u8),
}

/// C18: real MemStore, several threads
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StorePlan {
    /// sizes of the blocks
    pub lens: Vec<u32>,
    pub max: u32,
    pub prefill: Vec<u8>,
    pub threads: Vec<Vec<SOp>>,
    pub sched: SchedSpec,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MOp {
    Get(u8),
    /// 0: works, 1: fails, 2: stored, but reports failure
    Put(u8, u8),
    /// offer the block (0), or something else under the same link
    Offer(u8, u8),
    /// the underlying store loses the block
    Lose(u8),
    /// the block arrives in the underlying store
    Land(u8),
}

/// C17: MemCache in front of a store
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MemPlan {
    pub lens: Vec<u32>,
    pub max_size: u32,
    pub cap: u32,
    pub threads: Vec<Vec<MOp>>,
    pub sched: SchedSpec,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum BOp {
    Put(u8),
    Get(u8),
    Reset(u32),
}

/// C17: BranchCache
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BranchPlan {
    /// number of children of each branch
    pub sizes: Vec<u16>,
    pub cap: u32,
    pub threads: Vec<Vec<BOp>>,
    pub sched: SchedSpec,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum WOp {
    Extend(Items),
    Unpacked(Items),
    Pack,
    Retain(Q),
    Repair,
    Rollback(Items),
    Reopen,
    /// continue from an older snapshot
    ReopenOld(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TOp {
    Write { stream: u8, op: WOp },
    Read { snap: u32, kind: u8, q: Q },
    Get { snap: u32, offs: u32 },
    Collect { snap: u32, from: u32 },
    /// open the root of a snapshot again and read it
    Open { snap: u32, kind: u8 },
    Reset { cap: u32 },
    /// put a block that exists into the block cache
    Offer { n: u32 },
}

/// C10, C17: streams, snapshots and caches shared by threads
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TreePlan {
    pub cfg: Cfg,
    /// keys of the two streams
    pub secrets: [u8; 2],
    pub cache: u32,
    pub mem: Option<(u32, u32)>,
    pub prologue: Vec<TOp>,
    /// thread i writes to stream i only
    pub threads: Vec<Vec<TOp>>,
    pub faults: Vec<Fault>,
    pub sched: SchedSpec,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ConcPlan {
    Store(StorePlan),
    Mem(MemPlan),
    Branch(BranchPlan),
    Tree(TreePlan),
}

// ------------------------------------------------------------------------------------- generation

fn random_sched(rng: &mut Rng, steps: u64) -> SchedSpec {
    if rng.pct(60) {
        SchedSpec::Seed {
            seed: rng.u64(),
            pct: *rng.pick(&[3, 10, 30, 60, 100]),
        }
    } else {
        let n = rng.below(5);
        SchedSpec::Prio {
            seed: rng.u64(),
            changes: (0..n).map(|_| rng.range(1, steps) as u32).collect(),
        }
    }
}

fn gen_store(rng: &mut Rng) -> StorePlan {
    let n = rng.range(2, 6) as usize;
    let scale = *rng.pick(&[1, 1, 1, 1, 1, 50, 1500]);
    let lens: Vec<u32> = (0..n)
        .map(|_| match rng.below(8) {
            0 => 0,
            1 => 1,
            _ => rng.range(1, 60 * scale) as u32,
        })
        .collect();
    let total: u32 = lens.iter().sum();
    let max = match rng.below(6) {
        0 => total,
        1 => total + 1,
        2 => total.saturating_sub(1),
        3 => 0,
        _ => rng.range(1, total.max(1) as u64) as u32,
    };
    let nt = rng.range(2, 3);
    let threads = (0..nt)
        .map(|_| {
            (0..rng.range(1, 6))
                .map(|_| {
                    let i = rng.idx(n) as u8;
                    if rng.pct(60) {
                        SOp::Put(i)
                    } else {
                        SOp::Get(i)
                    }
                })
                .collect()
        })
        .collect();
    let prefill = if rng.pct(30) {
        vec![rng.idx(n) as u8]
    } else {
        vec![]
    };
    StorePlan {
        lens,
        max,
        prefill,
        threads,
        sched: random_sched(rng, 40),
    }
}

fn gen_mem(rng: &mut Rng) -> MemPlan {
    let n = rng.range(2, 6) as usize;
    let scale = *rng.pick(&[1, 1, 1, 1, 40, 700, 3000]);
    let lens: Vec<u32> = (0..n)
        .map(|_| rng.range(1, 60 * scale) as u32)
        .collect();
    let total: u32 = lens.iter().sum();
    let some = |rng: &mut Rng| match rng.below(8) {
        0 => 0,
        1 => *rng.pick(&lens),
        2 => rng.pick(&lens).saturating_sub(1),
        3 => 1 << 20,
        4 => total,
        _ => rng.range(1, total as u64) as u32,
    };
    let max_size = some(rng);
    let cap = some(rng);
    let lose = rng.bool();
    let variants = rng.pct(40);
    let nt = rng.range(1, 3);
    let len = if rng.pct(15) { 40 } else { 12 };
    let threads = (0..nt)
        .map(|_| {
            (0..rng.range(2, len))
                .map(|_| {
                    let i = rng.idx(n) as u8;
                    match rng.below(12) {
                        0..=3 => MOp::Get(i),
                        4..=7 => MOp::Put(
                            i,
                            match rng.below(5) {
                                0 => 1,
                                1 => 2,
                                _ => 0,
                            },
                        ),
                        8 | 9 => MOp::Offer(i, if variants { rng.below(3) as u8 } else { 0 }),
                        10 if lose => MOp::Lose(i),
                        _ => MOp::Land(i),
                    }
                })
                .collect()
        })
        .collect();
    MemPlan {
        lens,
        max_size,
        cap,
        threads,
        sched: random_sched(rng, 60),
    }
}

fn gen_branch(rng: &mut Rng) -> BranchPlan {
    let n = rng.range(2, 6) as usize;
    let most = *rng.pick(&[12, 12, 12, 60]);
    let sizes: Vec<u16> = (0..n).map(|_| rng.range(1, most) as u16).collect();
    let cap = |rng: &mut Rng| match rng.below(8) {
        0 => 1,
        1 => 1 << 24,
        2 => rng.range(1, 200) as u32,
        3 => rng.range(200, 30000) as u32,
        _ => rng.range(200, 6000) as u32,
    };
    let c = if rng.pct(8) { 0 } else { cap(rng) };
    let nt = rng.range(1, 3);
    let len = if rng.pct(15) { 40 } else { 12 };
    let threads = (0..nt)
        .map(|_| {
            (0..rng.range(2, len))
                .map(|_| {
                    let i = rng.idx(n) as u8;
                    match rng.below(10) {
                        0..=3 => BOp::Put(i),
                        4..=8 => BOp::Get(i),
                        _ => BOp::Reset(cap(rng)),
                    }
                })
                .collect()
        })
        .collect();
    BranchPlan {
        sizes,
        cap: c,
        threads,
        sched: random_sched(rng, 60),
    }
}

fn gen_write(rng: &mut Rng, prof: &Profile, count: &mut u64) -> WOp {
    let mut items = |rng: &mut Rng, max: u32| {
        let mut i = random_items(rng, prof);
        i.n = i.n.min(max);
        i.bad = None;
        *count += i.n as u64;
        i
    };
    match rng.below(20) {
        0..=6 => WOp::Extend(items(rng, 60)),
        7..=10 => WOp::Unpacked(items(rng, 12)),
        11 | 12 => WOp::Pack,
        13 | 14 => WOp::Retain(Q::random(rng, KEYS, *count, 1)),
        15 => WOp::Repair,
        16 => WOp::Rollback(items(rng, 30)),
        17 => WOp::ReopenOld(rng.below(8) as u32),
        _ => WOp::Reopen,
    }
}

fn gen_tree(prop: &str, rng: &mut Rng) -> TreePlan {
    let prof = Profile::default();
    let mut counts = [0u64; 2];
    let two = rng.pct(40);
    let mut prologue = vec![];
    for _ in 0..rng.range(1, 5) {
        let s = if two { rng.idx(2) } else { 0 };
        prologue.push(TOp::Write {
            stream: s as u8,
            op: gen_write(rng, &prof, &mut counts[s]),
        });
    }
    let nt = rng.range(2, 4) as usize;
    let threads = (0..nt)
        .map(|t| {
            let writer = t == 0 || (t == 1 && two);
            let n = rng.range(1, if writer { 6 } else { 5 });
            (0..n)
                .map(|_| {
                    let c = counts[0].max(counts[1]);
                    if writer && rng.pct(80) {
                        return TOp::Write {
                            stream: t as u8,
                            op: gen_write(rng, &prof, &mut counts[t]),
                        };
                    }
                    let snap = rng.below(1000) as u32;
                    match rng.below(16) {
                        0..=6 => TOp::Read {
                            snap,
                            kind: rng.below(7) as u8,
                            q: if rng.pct(30) {
                                Q::All
                            } else {
                                Q::random(rng, KEYS, c, 1)
                            },
                        },
                        7..=9 => TOp::Get {
                            snap,
                            offs: rng.below(c + 3) as u32,
                        },
                        10 => TOp::Collect {
                            snap,
                            from: rng.below(c + 3) as u32,
                        },
                        11 | 12 => TOp::Open {
                            snap,
                            kind: rng.below(7) as u8,
                        },
                        13 | 14 => TOp::Reset {
                            cap: *rng.pick(&[1, 300, 900, 3000, 1 << 20]),
                        },
                        _ => TOp::Offer {
                            n: rng.below(1000) as u32,
                        },
                    }
                })
                .collect()
        })
        .collect();
    let s0 = rng.below(3) as u8;
    let secrets = [s0, if rng.bool() { s0 } else { rng.below(3) as u8 }];
    let faults = if rng.pct(if prop == "C17" { 40 } else { 10 }) {
        (0..rng.range(1, 3))
            .map(|_| {
                let n = rng.skewed(60) as u32;
                match rng.below(4) {
                    0 => Fault::PutFail {
                        n,
                        times: 1 + rng.below(3) as u32,
                    },
                    1 => Fault::PutAckLost { n },
                    _ => Fault::GetFail {
                        n,
                        times: 1 + rng.skewed(10) as u32,
                    },
                }
            })
            .collect()
    } else {
        vec![]
    };
    TreePlan {
        cfg: Cfg::random(rng),
        secrets,
        cache: *rng.pick(&[0, 1, 700, 1500, 4000, 1 << 26]),
        mem: if rng.pct(60) {
            Some((
                *rng.pick(&[0, 60, 200, 1000, 1 << 20]),
                *rng.pick(&[0, 1, 300, 1500, 1 << 22]),
            ))
        } else {
            None
        },
        prologue,
        threads,
        faults,
        sched: random_sched(rng, 400),
    }
}

pub fn generate(prop: &str, seed: u64) -> ConcPlan {
    let mut rng = Rng::new(mix(seed, 0xc0c0));
    match prop {
        "C18" => ConcPlan::Store(gen_store(&mut rng)),
        "C10" => ConcPlan::Tree(gen_tree(prop, &mut rng)),
        _ => match rng.below(10) {
            0..=2 => ConcPlan::Mem(gen_mem(&mut rng)),
            3 | 4 => ConcPlan::Branch(gen_branch(&mut rng)),
            _ => ConcPlan::Tree(gen_tree(prop, &mut rng)),
        },
    }
}

// -------------------------------------------------------------------------------------- shrinking

fn shrink_sched(s: &SchedSpec, res: &RunResult) -> Vec<SchedSpec> {
    let mut out = vec![];
    match s {
        SchedSpec::List(xs) => {
            let n = xs.len();
            if n > 0 {
                let mut size = n;
                while size >= 1 {
                    let mut from = 0;
                    while from < n {
                        let mut ys = xs.clone();
                        ys.drain(from..(from + size).min(n));
                        out.push(SchedSpec::List(ys));
                        from += size;
                    }
                    size /= 2;
                }
            }
        }
        _ => out.push(SchedSpec::List(res.switches.clone())),
    }
    out
}

/// remove operations, then whole threads
fn shrink_threads<T: Clone>(ts: &[Vec<T>]) -> Vec<Vec<Vec<T>>> {
    let mut out = vec![];
    for i in 0..ts.len() {
        if !ts[i].is_empty() {
            let mut x = ts.to_vec();
            x[i].clear();
            out.push(x);
        }
    }
    for i in 0..ts.len() {
        for j in 0..ts[i].len() {
            if ts[i].len() > 1 || !ts[i].is_empty() {
                let mut x = ts.to_vec();
                x[i].remove(j);
                out.push(x);
            }
        }
    }
    out
}

fn simpler(op: &TOp) -> Vec<TOp> {
    let mut out = vec![];
    match op {
        TOp::Write { stream, op } => {
            let mut items = |x: &Items, f: &dyn Fn(Items) -> WOp| {
                for n in [1, x.n / 2, x.n.saturating_sub(1)] {
                    if n >= 1 && n < x.n {
                        out.push(TOp::Write {
                            stream: *stream,
                            op: f(Items { n, ..*x }),
                        });
                    }
                }
                if x.shapes != 0 {
                    out.push(TOp::Write {
                        stream: *stream,
                        op: f(Items { shapes: 0, ..*x }),
                    });
                }
            };
            match op {
                WOp::Extend(x) => items(x, &WOp::Extend),
                WOp::Unpacked(x) => items(x, &WOp::Unpacked),
                WOp::Rollback(x) => items(x, &WOp::Rollback),
                _ => {}
            }
        }
        TOp::Read { snap, kind, q } => {
            if *q != Q::All {
                out.push(TOp::Read {
                    snap: *snap,
                    kind: *kind,
                    q: Q::All,
                });
            }
            if let Q::And(a, b) | Q::Or(a, b) = q {
                for x in [a, b] {
                    out.push(TOp::Read {
                        snap: *snap,
                        kind: *kind,
                        q: (**x).clone(),
                    });
                }
            }
        }
        _ => {}
    }
    out
}

pub fn shrink(p: &ConcPlan, res: &RunResult) -> Vec<ConcPlan> {
    let mut out = vec![];
    match p {
        ConcPlan::Store(p) => {
            for t in shrink_threads(&p.threads) {
                out.push(StorePlan {
                    threads: t,
                    ..p.clone()
                });
            }
            for s in shrink_sched(&p.sched, res) {
                out.push(StorePlan {
                    sched: s,
                    ..p.clone()
                });
            }
            if !p.prefill.is_empty() {
                out.push(StorePlan {
                    prefill: vec![],
                    ..p.clone()
                });
            }
            out.into_iter().map(ConcPlan::Store).collect()
        }
        ConcPlan::Mem(p) => {
            let mut out = vec![];
            for t in shrink_threads(&p.threads) {
                out.push(MemPlan {
                    threads: t,
                    ..p.clone()
                });
            }
            for s in shrink_sched(&p.sched, res) {
                out.push(MemPlan {
                    sched: s,
                    ..p.clone()
                });
            }
            out.into_iter().map(ConcPlan::Mem).collect()
        }
        ConcPlan::Branch(p) => {
            let mut out = vec![];
            for t in shrink_threads(&p.threads) {
                out.push(BranchPlan {
                    threads: t,
                    ..p.clone()
                });
            }
            for s in shrink_sched(&p.sched, res) {
                out.push(BranchPlan {
                    sched: s,
                    ..p.clone()
                });
            }
            out.into_iter().map(ConcPlan::Branch).collect()
        }
        ConcPlan::Tree(p) => {
            let mut out = vec![];
            for t in shrink_threads(&p.threads) {
                out.push(TreePlan {
                    threads: t,
                    ..p.clone()
                });
            }
            for i in 0..p.prologue.len() {
                let mut q = p.clone();
                q.prologue.remove(i);
                out.push(q);
            }
            for i in 0..p.faults.len() {
                let mut q = p.clone();
                q.faults.remove(i);
                out.push(q);
            }
            for i in 0..p.prologue.len() {
                for a in simpler(&p.prologue[i]) {
                    let mut q = p.clone();
                    q.prologue[i] = a;
                    out.push(q);
                }
            }
            for t in 0..p.threads.len() {
                for i in 0..p.threads[t].len() {
                    for a in simpler(&p.threads[t][i]) {
                        let mut q = p.clone();
                        q.threads[t][i] = a;
                        out.push(q);
                    }
                }
            }
            if p.mem.is_some() {
                out.push(TreePlan {
                    mem: None,
                    ..p.clone()
                });
            }
            if p.cache != 0 {
                out.push(TreePlan {
                    cache: 0,
                    ..p.clone()
                });
            }
            let simple = Cfg {
                msb: 2,
                mkb: 2,
                mlc: 2,
                tls: 10000,
                mul: 16 << 20,
                zl: 1,
            };
            if p.cfg != simple {
                out.push(TreePlan {
                    cfg: simple,
                    ..p.clone()
                });
            }
            for s in shrink_sched(&p.sched, res) {
                out.push(TreePlan {
                    sched: s,
                    ..p.clone()
                });
            }
            out.into_iter().map(ConcPlan::Tree).collect()
        }
    }
}

// -------------------------------------------------------------------------------------- execution

pub(crate) fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    match m.lock() {
        Ok(x) => x,
        Err(x) => x.into_inner(),
    }
}

/// everything the threads report
#[derive(Default)]
pub(crate) struct Log {
    pub(crate) violation: Option<(String, String)>,
    pub(crate) foreign: Option<String>,
    pub(crate) stats: Stats,
    pub(crate) hash: u64,
    pub(crate) states: Vec<u64>,
    pub(crate) trace: Vec<String>,
    pub(crate) trace_on: bool,
    pub(crate) nontrivial: bool,
}

#[derive(Clone, Default)]
pub(crate) struct Shared(pub(crate) Arc<Mutex<Log>>);

impl Shared {
    pub(crate) fn new(trace_on: bool) -> Self {
        let s = Self::default();
        lock(&s.0).trace_on = trace_on;
        s
    }
    pub(crate) fn stat(&self, k: &'static str) {
        *lock(&self.0).stats.entry(k).or_default() += 1;
    }
    pub(crate) fn fail(&self, class: &str, msg: String) {
        let mut l = lock(&self.0);
        if l.violation.is_none() {
            l.violation = Some((class.into(), msg));
        }
    }
    pub(crate) fn foreign(&self, msg: String) {
        let mut l = lock(&self.0);
        if l.foreign.is_none() {
            l.foreign = Some(msg);
        }
    }
    pub(crate) fn hash(&self, x: u64) {
        mixh(&mut lock(&self.0).hash, x);
    }
    pub(crate) fn state(&self, x: u64) {
        let mut l = lock(&self.0);
        if l.states.len() < 400 {
            l.states.push(x);
        }
    }
    pub(crate) fn note(&self, f: impl FnOnce() -> String) {
        let mut l = lock(&self.0);
        if l.trace_on {
            let s = f();
            l.trace.push(s);
        }
    }
    fn sched(&self, r: &SchedResult) {
        if r.deadlock {
            self.fail("deadlock", "no thread can run any more".into());
        }
        for (t, p) in &r.panics {
            if !p.contains("SIM-DEADLOCK") {
                self.fail("panic", format!("thread {} panicked: {}", t, p));
            }
        }
        let mut l = lock(&self.0);
        mixh(&mut l.hash, r.hash);
        mixh(&mut l.hash, r.steps as u64);
        l.states.push(r.hash);
        *l.stats.entry("thread_switches").or_default() += r.switches.len() as u64;
        *l.stats.entry("scheduling_points").or_default() += r.steps as u64;
        *l.stats.entry("lock_contended").or_default() += r.contended;
    }
    pub(crate) fn finish_plain(&self) -> RunResult {
        self.finish(SchedResult {
            steps: 0,
            switches: vec![],
            hash: 0,
            deadlock: false,
            contended: 0,
            panics: vec![],
        })
    }
    fn finish(&self, r: SchedResult) -> RunResult {
        let mut l = lock(&self.0);
        RunResult {
            violation: l.violation.take(),
            foreign: l.foreign.take(),
            stats: std::mem::take(&mut l.stats),
            hash: l.hash,
            states: std::mem::take(&mut l.states),
            nontrivial: l.nontrivial,
            sim_time: r.steps as u64,
            trace: std::mem::take(&mut l.trace),
            switches: r.switches,
            ..Default::default()
        }
    }
}

type TaskFn = Box<dyn FnOnce() + Send>;

fn content(id: u8, len: u32) -> Vec<u8> {
    let mut v = vec![0u8; len as usize];
    let mut rng = Rng::new(1000 + id as u64);
    for b in v.iter_mut() {
        *b = rng.u64() as u8;
    }
    v
}

// ------------------------------------------------------------------------------------ C18 MemStore

#[derive(Clone, Debug)]
struct Ev {
    thread: usize,
    op: SOp,
    /// put: acknowledged, get: found
    ok: bool,
    start: u64,
    end: u64,
}

/// is there a sequential order that explains the history?
fn linearizable(evs: &[Ev], lens: &[u32], max: u32, initial: u64) -> bool {
    fn go(
        done: u64,
        present: u64,
        evs: &[Ev],
        lens: &[u32],
        max: u32,
        seen: &mut BTreeSet<(u64, u64)>,
    ) -> bool {
        if done == (1u64 << evs.len()) - 1 {
            return true;
        }
        if !seen.insert((done, present)) {
            return false;
        }
        let first_end = (0..evs.len())
            .filter(|i| done & (1 << i) == 0)
            .map(|i| evs[i].end)
            .min()
            .unwrap();
        let size: u32 = (0..lens.len())
            .filter(|i| present & (1 << i) != 0)
            .map(|i| lens[i])
            .sum();
        for (i, e) in evs.iter().enumerate() {
            if done & (1 << i) != 0 || e.start > first_end {
                continue;
            }
            let next = match e.op {
                SOp::Get(b) => {
                    if (present & (1 << b) != 0) == e.ok {
                        Some(present)
                    } else {
                        None
                    }
                }
                SOp::Put(b) => {
                    let there = present & (1 << b) != 0;
                    let fits = size + lens[b as usize] <= max;
                    match (there, fits, e.ok) {
                        (true, _, true) => Some(present),
                        // a duplicate may be refused when there is no room
                        (true, false, false) => Some(present),
                        (true, true, false) => None,
                        (false, true, true) => Some(present | 1 << b),
                        (false, false, false) => Some(present),
                        _ => None,
                    }
                }
            };
            if let Some(p) = next {
                if go(done | 1 << i, p, evs, lens, max, seen) {
                    return true;
                }
            }
        }
        false
    }
    go(0, initial, evs, lens, max, &mut BTreeSet::new())
}

fn run_store(p: &StorePlan, trace: bool) -> RunResult {
    let sh = Shared::new(trace);
    // two different blocks of size 0 are the same block
    let blocks: Arc<Vec<Vec<u8>>> = Arc::new(
        p.lens
            .iter()
            .enumerate()
            .map(|(i, l)| content(i as u8, *l))
            .collect(),
    );
    let alias: Vec<u8> = (0..blocks.len())
        .map(|i| blocks.iter().position(|b| *b == blocks[i]).unwrap() as u8)
        .collect();
    let links: Arc<Vec<Link>> = Arc::new(blocks.iter().map(|b| Link::digest(b)).collect());
    let store = MemStore::new(p.max as usize, |data: &[u8]| {
        yield_now();
        Link::digest(data)
    });
    let mut initial = 0u64;
    let mut size = 0;
    for b in &p.prefill {
        let b = alias[*b as usize];
        let ok = store.clone().put(blocks[b as usize].clone()).is_ok();
        let fits = size + p.lens[b as usize] <= p.max;
        if ok {
            if initial & 1 << b == 0 {
                size += p.lens[b as usize];
            }
            initial |= 1 << b;
        }
        if ok != fits && initial & 1 << b == 0 {
            sh.fail("refused", format!("block {} refused in an empty store", b));
        }
    }
    let log: Arc<Mutex<(u64, Vec<Ev>)>> = Arc::default();
    let tasks = p
        .threads
        .iter()
        .cloned()
        .enumerate()
        .map(|(t, ops)| {
            let (store, log, blocks, links, alias, sh) = (
                store.clone(),
                log.clone(),
                blocks.clone(),
                links.clone(),
                alias.clone(),
                sh.clone(),
            );
            Box::new(move || {
                let mut store = store;
                for op in ops {
                    let op = match op {
                        SOp::Put(b) => SOp::Put(alias[b as usize % alias.len()]),
                        SOp::Get(b) => SOp::Get(alias[b as usize % alias.len()]),
                    };
                    let tick = || {
                        let mut l = lock(&log);
                        l.0 += 1;
                        l.0
                    };
                    let start = tick();
                    let ok = match &op {
                        SOp::Put(b) => match store.put(blocks[*b as usize].clone()) {
                            Ok(l) => {
                                if l != links[*b as usize] {
                                    sh.fail("link", format!("put of block {} returned a wrong link", b));
                                }
                                true
                            }
                            Err(_) => {
                                sh.stat("refused_full");
                                false
                            }
                        },
                        SOp::Get(b) => match store.get(&links[*b as usize]) {
                            Ok(x) => {
                                if *x != blocks[*b as usize][..] {
                                    sh.fail("bytes", format!("block {} has changed", b));
                                }
                                true
                            }
                            Err(_) => false,
                        },
                    };
                    sh.stat(if matches!(op, SOp::Put(_)) { "put" } else { "get" });
                    let end = tick();
                    sh.note(|| format!("thread {} {:?} [{}..{}] -> {}", t, op, start, end, ok));
                    lock(&log).1.push(Ev {
                        thread: t,
                        op,
                        ok,
                        start,
                        end,
                    });
                    yield_now();
                }
            }) as TaskFn
        })
        .collect();
    let r = Sched::run(&p.sched, tasks);
    sh.sched(&r);
    let evs = lock(&log).1.clone();
    for e in &evs {
        sh.hash(e.start << 20 | e.end << 8 | e.ok as u64 | (e.thread as u64) << 1);
    }
    sh.state(hash64(
        1,
        format!("{:?}", evs.iter().map(|e| (e.op.clone(), e.ok)).collect::<Vec<_>>()).as_bytes(),
    ));
    if evs.len() < 60 && !linearizable(&evs, &p.lens, p.max, initial) {
        sh.fail(
            "linearizability",
            format!("no sequential order explains {:?}", evs),
        );
    }
    // what is left
    let acked: BTreeSet<u8> = evs
        .iter()
        .filter(|e| e.ok)
        .filter_map(|e| match e.op {
            SOp::Put(b) => Some(b),
            _ => None,
        })
        .chain((0..64u8).filter(|b| initial & 1 << b != 0))
        .collect();
    let fail = |c: &str, m: String| sh.fail(c, m);
    for b in 0..blocks.len() as u8 {
        let b = alias[b as usize];
        match store.get(&links[b as usize]) {
            Ok(x) if *x == blocks[b as usize][..] => {
                if !acked.contains(&b) {
                    fail("trace", format!("refused block {} is in the store", b))
                }
            }
            Ok(_) => fail("bytes", format!("block {} has changed", b)),
            Err(_) => {
                if acked.contains(&b) {
                    fail("lost", format!("acknowledged block {} is gone", b))
                }
            }
        }
    }
    let mut store = store;
    // whatever fits must still be accepted
    let used: u32 = acked.iter().map(|b| p.lens[*b as usize]).sum();
    if used > p.max {
        fail("limit", format!("{} bytes stored, limit is {}", used, p.max));
    }
    let mut extra = BTreeSet::new();
    for (n, free) in [(77u8, p.max.saturating_sub(used)), (78, 1)] {
        let len = free;
        let data = content(n, len);
        if len == 0 {
            continue;
        }
        let fits = n == 77;
        match store.put(data.clone()) {
            Ok(l) => {
                extra.insert(l);
                if !fits {
                    fail("limit", "a full store accepts another byte".into())
                }
            }
            Err(_) if fits => fail(
                "refused",
                format!("{} of {} bytes used, but {} bytes do not fit", used, p.max, len),
            ),
            Err(_) => {}
        }
    }
    match store.into_inner() {
        Ok(map) => {
            let total: usize = map.values().map(|x| x.len()).sum();
            if total > p.max as usize {
                fail("limit", format!("{} bytes stored, limit is {}", total, p.max));
            }
            let want: BTreeSet<Link> = acked
                .iter()
                .map(|b| links[*b as usize])
                .chain(extra)
                .collect();
            let got: BTreeSet<Link> = map.keys().copied().collect();
            if want != got {
                fail("set", format!("store contains {:?}, acknowledged {:?}", got, want));
            }
        }
        Err(e) => fail("set", format!("into_inner: {}", e)),
    }
    lock(&sh.0).nontrivial = evs
        .iter()
        .any(|a| evs.iter().any(|b| a.thread != b.thread && a.start < b.end && b.start < a.end));
    sh.finish(r)
}

// ------------------------------------------------------------------------------------ C17 MemCache

#[derive(Clone, Default)]
struct Base(Arc<Mutex<BTreeMap<Link, Vec<u8>>>>);
struct BaseWriter(Base);
thread_local!(static PUT_FAULT: Cell<u8> = Cell::new(0));

impl ReadOnlyStore<Link> for Base {
    fn get(&self, link: &Link) -> anyhow::Result<Box<[u8]>> {
        yield_now();
        match lock(&self.0).get(link) {
            Some(x) => Ok(x.clone().into()),
            None => anyhow::bail!("not there"),
        }
    }
}
impl BlockWriter<Link> for BaseWriter {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Link> {
        yield_now();
        let fault = PUT_FAULT.with(|x| x.get());
        let link = Link::digest(&data);
        if fault != 1 {
            lock(&self.0 .0).insert(link, data);
        }
        yield_now();
        anyhow::ensure!(fault == 0, "injected");
        Ok(link)
    }
}

#[derive(Default)]
struct MemLog {
    /// real content may be in the store (or is on its way)
    landed: BTreeSet<u8>,
    /// real content may be in the cache
    cached: BTreeSet<u8>,
    /// variant may be in the cache
    variants: BTreeSet<(u8, u8)>,
    /// is in the store for good
    solid: BTreeSet<u8>,
}

fn variant(id: u8, v: u8, len: u32) -> Vec<u8> {
    content(id ^ (v << 5) ^ 0x80, (len + v as u32 * 7).saturating_sub(4).max(1))
}

fn run_mem(p: &MemPlan, trace: bool) -> RunResult {
    let sh = Shared::new(trace);
    let blocks: Arc<Vec<Vec<u8>>> = Arc::new(
        p.lens
            .iter()
            .enumerate()
            .map(|(i, l)| {
                let mut b = content(i as u8, *l);
                b[0] = i as u8;
                b
            })
            .collect(),
    );
    let links: Arc<Vec<Link>> = Arc::new(blocks.iter().map(|b| Link::digest(b)).collect());
    let base = Base::default();
    let mc = MemCache::new(base.clone(), p.max_size as usize, p.cap as usize);
    let disabled = p.max_size == 0 || p.cap == 0;
    let lossy: BTreeSet<u8> = p
        .threads
        .iter()
        .flatten()
        .filter_map(|o| match o {
            MOp::Lose(b) => Some(*b),
            _ => None,
        })
        .collect();
    let state: Arc<Mutex<MemLog>> = Arc::default();
    let max_size = p.max_size as usize;
    let tasks = p
        .threads
        .iter()
        .cloned()
        .map(|ops| {
            let (mc, base, blocks, links, state, sh, lossy) = (
                mc.clone(),
                base.clone(),
                blocks.clone(),
                links.clone(),
                state.clone(),
                sh.clone(),
                lossy.clone(),
            );
            let lens = p.lens.clone();
            Box::new(move || {
                let mut w = match mc.write(|b| Ok(BaseWriter(b.clone()))) {
                    Ok(w) => w,
                    Err(e) => return sh.fail("write", format!("no writer: {}", e)),
                };
                for op in ops {
                    match op {
                        MOp::Get(b) => {
                            let i = b as usize;
                            let solid = lock(&state).solid.contains(&b);
                            let r = mc.get(&links[i]);
                            let s = lock(&state);
                            match r {
                                Ok(x) if *x == blocks[i][..] => {
                                    sh.stat("get_hit");
                                    sh.hash(1);
                                    if !s.landed.contains(&b) && !s.cached.contains(&b) {
                                        sh.fail(
                                            "failed_write_served",
                                            format!("block {} is served, but was never written", b),
                                        );
                                    }
                                }
                                Ok(x) => {
                                    sh.hash(2);
                                    let v = (1..4u8).find(|v| *x == variant(b, *v, lens[i])[..]);
                                    match v {
                                        Some(v) if s.variants.contains(&(b, v)) => {}
                                        _ => sh.fail(
                                            "foreign_bytes",
                                            format!("link {} serves bytes that were never put there", b),
                                        ),
                                    }
                                    if disabled || x.len() > max_size {
                                        sh.fail(
                                            "too_big",
                                            format!("{} bytes served from a cache with block size limit {}", x.len(), max_size),
                                        );
                                    }
                                }
                                Err(_) => {
                                    sh.stat("get_miss");
                                    sh.hash(3);
                                    if solid && !lossy.contains(&b) {
                                        sh.fail("lost", format!("block {} is in the store, but can not be read", b));
                                    }
                                }
                            }
                        }
                        MOp::Put(b, fault) => {
                            let i = b as usize;
                            if fault != 1 {
                                lock(&state).landed.insert(b);
                            }
                            if fault == 0 && !disabled && blocks[i].len() <= max_size {
                                lock(&state).cached.insert(b);
                            }
                            PUT_FAULT.with(|x| x.set(fault));
                            let r = w.put(blocks[i].clone());
                            PUT_FAULT.with(|x| x.set(0));
                            match (fault, r) {
                                (0, Ok(l)) if l == links[i] => {
                                    lock(&state).solid.insert(b);
                                    sh.stat("put");
                                }
                                (0, r) => sh.fail("put", format!("put of block {}: {:?}", b, r)),
                                (_, Ok(_)) => sh.fail("put", format!("failing put of block {} is reported as success", b)),
                                (f, Err(_)) => sh.stat(if f == 1 { "put_fail" } else { "put_ack_lost" }),
                            }
                        }
                        MOp::Offer(b, v) => {
                            let i = b as usize;
                            let data = if v == 0 {
                                blocks[i].clone()
                            } else {
                                variant(b, v, lens[i])
                            };
                            if !disabled && data.len() <= max_size {
                                let mut s = lock(&state);
                                if v == 0 {
                                    s.cached.insert(b);
                                } else {
                                    s.variants.insert((b, v));
                                }
                            }
                            mc.offer(&links[i], &data);
                            sh.stat("offer");
                        }
                        MOp::Lose(b) => {
                            lock(&base.0).remove(&links[b as usize]);
                            sh.stat("block_lost");
                        }
                        MOp::Land(b) => {
                            lock(&state).landed.insert(b);
                            lock(&base.0).insert(links[b as usize], blocks[b as usize].clone());
                            lock(&state).solid.insert(b);
                        }
                    }
                    yield_now();
                }
            }) as TaskFn
        })
        .collect();
    let r = Sched::run(&p.sched, tasks);
    sh.sched(&r);
    // only the cache is left
    lock(&base.0).clear();
    let s = lock(&state);
    let mut total = 0;
    let mut served = vec![];
    for (i, l) in links.iter().enumerate() {
        if let Ok(x) = mc.get(l) {
            let b = i as u8;
            served.push(i);
            total += x.len();
            if x.len() > max_size || disabled {
                sh.fail(
                    "too_big",
                    format!("block of {} bytes is cached, limit is {}", x.len(), max_size),
                );
            }
            let real = *x == blocks[i][..];
            let ok = if real {
                s.cached.contains(&b)
            } else {
                (1..4u8).any(|v| s.variants.contains(&(b, v)) && *x == variant(b, v, p.lens[i])[..])
            };
            if !ok {
                sh.fail(
                    "cached",
                    format!("block {} is cached, but was neither written nor offered", i),
                );
            }
        }
    }
    if total > p.cap as usize {
        sh.fail(
            "capacity",
            format!("{} bytes cached, capacity is {}", total, p.cap),
        );
    }
    sh.hash(hash64(1, format!("{:?}", served).as_bytes()));
    sh.state(hash64(2, format!("{:?}", served).as_bytes()));
    lock(&sh.0).nontrivial = !served.is_empty();
    drop(s);
    sh.finish(r)
}

// --------------------------------------------------------------------------------- C17 BranchCache

fn make_branch(id: u8, n: u16) -> Branch<TT> {
    let cs = (0..n)
        .map(|i| {
            Index::Leaf(
                LeafIndex {
                    link: Some(Link::of_id((id as u64) << 16 | i as u64)),
                    value_bytes: i as u64,
                    sealed: true,
                    keys: KeySeq(vec![Key {
                        k: i as u64,
                        link: None,
                    }]),
                }
                .into(),
            )
        })
        .collect();
    Branch::new(cs, id as u64 * 100..id as u64 * 100 + n as u64)
}

fn run_branch(p: &BranchPlan, trace: bool) -> RunResult {
    let sh = Shared::new(trace);
    let cache: BranchCache<TT> = BranchCache::new(p.cap as usize);
    let links: Arc<Vec<Link>> = Arc::new((0..p.sizes.len() as u64).map(Link::of_id).collect());
    // (start, end, op, hit)
    let log: Arc<Mutex<(u64, Vec<(u64, u64, BOp, bool)>)>> = Arc::default();
    let tasks = p
        .threads
        .iter()
        .cloned()
        .map(|ops| {
            let (cache, links, sh, log) = (cache.clone(), links.clone(), sh.clone(), log.clone());
            let sizes = p.sizes.clone();
            let cap = p.cap;
            Box::new(move || {
                for op in ops {
                    let tick = || {
                        let mut l = lock(&log);
                        l.0 += 1;
                        l.0
                    };
                    let start = tick();
                    let mut hit = false;
                    match &op {
                        BOp::Put(b) => {
                            cache.put(links[*b as usize], make_branch(*b, sizes[*b as usize]));
                            sh.stat("put");
                        }
                        BOp::Get(b) => {
                            if let Some(x) = cache.get(&links[*b as usize]) {
                                hit = true;
                                check_branch(&sh, *b, sizes[*b as usize], &x);
                                if cap == 0 {
                                    sh.fail("disabled", "a disabled cache has content".into());
                                }
                            }
                            sh.stat(if hit { "get_hit" } else { "get_miss" });
                        }
                        BOp::Reset(c) => {
                            if let Some(c) = NonZeroUsize::new(*c as usize) {
                                cache.reset(c);
                                sh.stat("cache_reset");
                            }
                        }
                    }
                    let end = tick();
                    sh.note(|| format!("{:?} [{}..{}] hit {}", op, start, end, hit));
                    sh.hash(end * 2 + hit as u64);
                    lock(&log).1.push((start, end, op, hit));
                    yield_now();
                }
            }) as TaskFn
        })
        .collect();
    let r = Sched::run(&p.sched, tasks);
    sh.sched(&r);
    let evs = lock(&log).1.clone();
    // a hit needs a put that is not followed by a complete reset before the get
    for (s, e, op, hit) in &evs {
        if let (BOp::Get(b), true) = (op, hit) {
            let ok = evs.iter().any(|(ps, _pe, pop, _)| {
                *pop == BOp::Put(*b)
                    && ps < e
                    && !evs.iter().any(|(rs, re, rop, _)| {
                        matches!(rop, BOp::Reset(_)) && rs > _pe && re < s
                    })
            });
            if !ok {
                sh.fail(
                    "reset",
                    format!("branch {} is served without having been put since the last reset", b),
                );
            }
        }
    }
    let weight = || -> (usize, usize) {
        let mut w = 0;
        let mut n = 0;
        for (i, l) in links.iter().enumerate() {
            if let Some(x) = cache.get(l) {
                check_branch(&sh, i as u8, p.sizes[i], &x);
                n += 1;
                w += std::mem::size_of::<Branch<TT>>()
                    + x.children.len() * std::mem::size_of::<Index<TT>>();
            }
        }
        (w, n)
    };
    let caps: Vec<u32> = evs
        .iter()
        .filter_map(|x| match x.2 {
            BOp::Reset(c) => Some(c),
            _ => None,
        })
        .collect();
    let limit = caps.iter().copied().max().unwrap_or(0).max(p.cap) as usize;
    let limit = if caps.len() == 1 && p.cap != 0 {
        caps[0] as usize
    } else {
        limit
    };
    let (w, n) = weight();
    if w > limit {
        sh.fail(
            "capacity",
            format!("at least {} bytes cached, capacity is {}", w, limit),
        );
    }
    lock(&sh.0).nontrivial = n > 0;
    // reset, and use again, alone
    for c in [p.cap.max(1), 700, 2500] {
        cache.reset(NonZeroUsize::new(c as usize).unwrap());
        let (_, n) = weight();
        if n != 0 {
            sh.fail("reset", format!("{} branches after a reset", n));
        }
        for (i, l) in links.iter().enumerate() {
            cache.put(*l, make_branch(i as u8, p.sizes[i]));
            let (w, _) = weight();
            if w > c as usize {
                sh.fail(
                    "capacity",
                    format!("at least {} bytes cached after reset to capacity {}", w, c),
                );
            }
        }
    }
    sh.state(hash64(3, &(w as u64).to_le_bytes()));
    sh.finish(r)
}

fn check_branch(sh: &Shared, id: u8, n: u16, x: &Branch<TT>) {
    let want = make_branch(id, n);
    let same = x.byte_range == want.byte_range
        && x.children.len() == want.children.len()
        && x.children
            .iter()
            .zip(want.children.iter())
            .all(|(a, b)| a.link() == b.link());
    if !same {
        sh.fail("wrong_branch", format!("link {} serves another branch", id));
    }
}

// -------------------------------------------------------------------------------- C10, C17 streams

type B = StreamBuilder<TT, Val>;
type F = Forest<TT, AnyReader>;
type X = Transaction<TT, AnyReader, AnyWriter>;

#[derive(Clone)]
pub(crate) struct Snap {
    pub(crate) stream: usize,
    pub(crate) tree: Tree<TT, Val>,
    pub(crate) expect: Arc<Vec<Option<(Key, Val)>>>,
    pub(crate) elems: Arc<Vec<Arc<Elem>>>,
    /// blocks of this snapshot
    pub(crate) needed: Arc<Vec<Link>>,
    pub(crate) shape: u64,
}

fn filtered(expect: &[Option<(Key, Val)>], q: &Q) -> Vec<Triple> {
    expect
        .iter()
        .enumerate()
        .filter_map(|(i, x)| x.as_ref().map(|(k, v)| (i as u64, *k, v.clone())))
        .filter(|(i, k, _)| q.matches(*i, k.k))
        .collect()
}

/// the writer of one stream
pub(crate) struct Writer {
    pub(crate) stream: usize,
    pub(crate) txn: X,
    pub(crate) b: B,
    pub(crate) cfg: Cfg,
    pub(crate) secrets: u8,
    pub(crate) elems: Vec<Arc<Elem>>,
    pub(crate) next_id: u64,
    pub(crate) own: Vec<Snap>,
    pub(crate) retained: bool,
}

pub(crate) struct Env {
    pub(crate) store: Store,
    pub(crate) forest: F,
    pub(crate) reader: AnyReader,
    pub(crate) cache: BranchCache<TT>,
    pub(crate) snaps: Arc<Mutex<Vec<Snap>>>,
    pub(crate) sh: Shared,
    /// faults may be active
    pub(crate) faulty: bool,
}

impl Writer {
    /// continue from a snapshot
    pub(crate) fn restore(&mut self, env: &Env, s: &Snap) {
        let l = match s.tree.link() {
            Some(l) => l,
            None => return,
        };
        let f = &env.forest;
        let (sec, c) = (secrets(self.secrets), self.cfg.real());
        match guard(|| f.load_stream_builder::<Val>(sec, c, l)) {
            Out::Ok(b) => {
                self.b = b;
                self.elems = s.elems.as_ref().clone();
                self.retained = s.expect.iter().any(|x| x.is_none());
            }
            x => env.sh.fail(
                "reopen",
                format!("stream can not be reopened: {}", x.describe()),
            ),
        }
    }
}

impl Env {
    fn new(p: &TreePlan, sh: &Shared, caches: bool) -> Self {
        let store = Store::new();
        let mem = if caches {
            p.mem.map(|(a, b)| (a as usize, b as usize))
        } else {
            None
        };
        let reader = AnyReader::new(&store, mem);
        let cache = BranchCache::new(if caches { p.cache as usize } else { 0 });
        Self {
            forest: Forest::new(reader.clone(), cache.clone()),
            reader,
            store,
            cache,
            snaps: Arc::default(),
            sh: sh.clone(),
            faulty: false,
        }
    }
    pub(crate) fn clone(&self, faulty: bool) -> Self {
        Self {
            store: self.store.clone(),
            forest: self.forest.clone(),
            reader: self.reader.clone(),
            cache: self.cache.clone(),
            snaps: self.snaps.clone(),
            sh: self.sh.clone(),
            faulty,
        }
    }
    /// on an existing store, with cold caches
    pub(crate) fn on(store: &Store, cache: u32, mem: Option<(u32, u32)>, sh: &Shared) -> Self {
        let reader = AnyReader::new(store, mem.map(|(a, b)| (a as usize, b as usize)));
        let cache = BranchCache::new(cache as usize);
        Self {
            forest: Forest::new(reader.clone(), cache.clone()),
            reader,
            store: store.clone(),
            cache,
            snaps: Arc::default(),
            sh: sh.clone(),
            faulty: false,
        }
    }
    fn writer(&self, stream: usize, p: &TreePlan) -> Writer {
        self.writer_with(stream, p.cfg, p.secrets[stream])
    }
    pub(crate) fn writer_with(&self, stream: usize, cfg: Cfg, sec: u8) -> Writer {
        Writer {
            stream,
            txn: Transaction::new(self.forest.clone(), self.reader.writer()),
            b: B::new(cfg.real(), secrets(sec)),
            cfg,
            secrets: sec,
            elems: vec![],
            next_id: stream as u64 * 1_000_000,
            own: vec![],
            retained: false,
        }
    }

    pub(crate) fn read(&self, snap: &Snap, tree: &Tree<TT, Val>, kind: Kind, q: &Q) {
        let mut want = filtered(&snap.expect, q);
        let got = elements(kind, &self.forest, tree, q);
        if kind.reverse() {
            want.reverse();
        }
        self.sh.stat("read");
        self.sh.hash(got.items.len() as u64);
        let r = if self.faulty {
            if got.err.is_some() {
                self.sh.stat("read_failed");
            }
            check_prefix(&got, &want, |x| show(x))
        } else {
            check_complete(&got, &want)
        };
        if let Err(e) = r {
            self.sh.fail(
                "read",
                format!(
                    "{:?} {:?} on a snapshot of stream {} with {} elements: {}",
                    kind,
                    q,
                    snap.stream,
                    snap.expect.len(),
                    e
                ),
            );
        }
        if kind.chunked() && !self.faulty {
            let cs = chunks(kind, &self.forest, tree, q);
            if let Err(e) = check_tiles(&cs, kind.reverse(), snap.expect.len() as u64) {
                self.sh.fail("tiles", format!("{:?}: {}", kind, e));
            }
        }
    }

    pub(crate) fn get(&self, snap: &Snap, o: u64) {
        let (f, t) = (&self.forest, &snap.tree);
        self.sh.stat("get");
        let want = snap.expect.get(o as usize).cloned().flatten();
        match guard(|| f.get(t, o)) {
            Out::Ok(x) if x == want => self.sh.hash(x.is_some() as u64),
            Out::Err(_) if self.faulty => self.sh.hash(7),
            x => self.sh.fail(
                "get",
                format!("get {} of {}: {:?}, want {:?}", o, snap.expect.len(), x, want),
            ),
        }
    }

    pub(crate) fn collect(&self, snap: &Snap, from: u64) {
        let (f, t) = (&self.forest, &snap.tree);
        self.sh.stat("collect");
        let want: Vec<_> = snap.expect.iter().skip(from as usize).cloned().collect();
        match guard(|| f.collect_from(t, from)) {
            Out::Ok(x) if x == want => self.sh.hash(x.len() as u64),
            Out::Err(_) if self.faulty => self.sh.hash(7),
            x => self.sh.fail(
                "collect",
                format!(
                    "collect from {} of {}: {}",
                    from,
                    want.len(),
                    match x {
                        Out::Ok(x) => format!("wrong, {} elements", x.len()),
                        x => x.describe(),
                    }
                ),
            ),
        }
    }

    fn pick(&self, n: u32) -> Option<Snap> {
        let s = lock(&self.snaps);
        if s.is_empty() {
            None
        } else {
            Some(s[n as usize % s.len()].clone())
        }
    }

    /// open the root again, and read
    pub(crate) fn open(&self, s: &Snap, kind: u8) {
        if let (Some(l), Some(sec)) = (s.tree.link(), s.tree.secrets()) {
            let f = &self.forest;
            match guard(|| f.load_tree::<Val>(sec.clone(), l)) {
                Out::Ok(t) => {
                    if t.count() != s.expect.len() as u64 {
                        self.sh
                            .fail("open", "reopened root has a different count".into());
                    }
                    self.sh.stat("open");
                    self.read(s, &t, KINDS[kind as usize % 7], &Q::All)
                }
                Out::Err(_) if self.faulty => {}
                x => self
                    .sh
                    .fail("open", format!("root can not be opened: {}", x.describe())),
            }
        }
    }

    fn exec(&self, w: Option<&mut Writer>, op: &TOp) {
        self.sh.note(|| serde_json::to_string(op).unwrap());
        match op {
            TOp::Write { op, .. } => {
                if let Some(w) = w {
                    self.write(w, op)
                }
            }
            TOp::Read { snap, kind, q } => {
                if let Some(s) = self.pick(*snap) {
                    self.read(&s, &s.tree, KINDS[*kind as usize % 7], q);
                }
            }
            TOp::Get { snap, offs } => {
                if let Some(s) = self.pick(*snap) {
                    self.get(&s, *offs as u64);
                }
            }
            TOp::Collect { snap, from } => {
                if let Some(s) = self.pick(*snap) {
                    self.collect(&s, *from as u64);
                }
            }
            TOp::Open { snap, kind } => {
                if let Some(s) = self.pick(*snap) {
                    self.open(&s, *kind);
                }
            }
            TOp::Reset { cap } => {
                if let Some(c) = NonZeroUsize::new(*cap as usize) {
                    self.cache.reset(c);
                    self.sh.stat("cache_reset");
                }
            }
            TOp::Offer { n } => {
                let (link, data) = {
                    let s = self.store.lock();
                    if s.order.is_empty() {
                        return;
                    }
                    let l = s.order[*n as usize % s.order.len()];
                    (l, s.blocks.get(&l).cloned())
                };
                if let Some(d) = data {
                    self.reader.offer(&link, &d);
                    self.sh.stat("offer");
                }
            }
        }
    }

    pub(crate) fn write(&self, w: &mut Writer, op: &WOp) {
        let before = w.b.link();
        let n = w.elems.len();
        let mut add = vec![];
        let mk = |w: &mut Writer, i: &Items| {
            let es = i.make(w.next_id, w.cfg.mul);
            w.next_id += i.n as u64;
            es
        };
        let list = |es: &[Arc<Elem>]| -> Vec<(Key, Val)> {
            es.iter().map(|e| (e.key, e.val.clone())).collect()
        };
        self.sh.stat("write");
        let out = match op {
            WOp::Extend(i) => {
                add = mk(w, i);
                let items = list(&add);
                let (t, b) = (&mut w.txn, &mut w.b);
                guard(|| t.extend(b, items))
            }
            WOp::Unpacked(i) => {
                add = mk(w, i);
                let items = list(&add);
                let (t, b) = (&mut w.txn, &mut w.b);
                guard(|| t.extend_unpacked(b, items))
            }
            WOp::Pack => {
                // packing has to read everything
                if w.retained {
                    return;
                }
                let (t, b) = (&mut w.txn, &mut w.b);
                guard(|| t.pack(b))
            }
            WOp::Retain(q) => {
                w.retained = true;
                let q = q.real();
                let (t, b) = (&mut w.txn, &mut w.b);
                guard(|| t.retain(b, &q))
            }
            WOp::Repair => {
                if self.faulty {
                    // a block that can not be read is pruned by repair, that is its job
                    return;
                }
                let (t, b) = (&mut w.txn, &mut w.b);
                match guard(|| t.repair(b)) {
                    Out::Ok(x) => {
                        if !x.is_empty() {
                            self.sh
                                .fail("repair", format!("repair reports {:?}", x.len()));
                        }
                        Out::Ok(())
                    }
                    Out::Err(e) => Out::Err(e),
                    Out::Panic(e) => Out::Panic(e),
                }
            }
            WOp::Rollback(i) => {
                let items = list(&mk(w, i));
                let (t, b) = (&mut w.txn, &mut w.b);
                guard(|| {
                    let mut b = b.transaction();
                    t.extend(&mut b, items)
                })
            }
            WOp::Reopen => match w.b.link() {
                None => return,
                Some(l) => {
                    let f = &self.forest;
                    let (s, c) = (secrets(w.secrets), w.cfg.real());
                    match guard(|| f.load_stream_builder::<Val>(s, c, l)) {
                        Out::Ok(b) => {
                            w.b = b;
                            Out::Ok(())
                        }
                        Out::Err(e) => Out::Err(e),
                        Out::Panic(e) => Out::Panic(e),
                    }
                }
            },
            WOp::ReopenOld(k) => {
                if w.own.is_empty() {
                    return;
                }
                let s = w.own[*k as usize % w.own.len()].clone();
                let l = match s.tree.link() {
                    None => return,
                    Some(l) => l,
                };
                let f = &self.forest;
                let (sec, c) = (secrets(w.secrets), w.cfg.real());
                match guard(|| f.load_stream_builder::<Val>(sec, c, l)) {
                    Out::Ok(b) => {
                        w.b = b;
                        w.elems = s.elems.as_ref().clone();
                        w.retained = s.expect.iter().any(|x| x.is_none());
                        self.publish(w);
                        return;
                    }
                    Out::Err(e) => Out::Err(e),
                    Out::Panic(e) => Out::Panic(e),
                }
            }
        };
        match out {
            Out::Ok(()) => {
                w.elems.extend(add);
                self.publish(w);
            }
            Out::Err(e) if self.faulty => {
                self.sh.stat("write_failed");
                self.sh.note(|| format!("failed: {}", e));
                if w.b.link() != before || w.b.count() != n as u64 {
                    self.sh
                        .foreign("failed operation changed the stream".into());
                }
            }
            x => self.sh.fail(
                "write",
                format!("{:?} on stream {}: {}", op_name(op), w.stream, x.describe()),
            ),
        }
    }

    /// record what the stream contains now, from the raw blocks
    fn publish(&self, w: &mut Writer) {
        let tree = w.b.snapshot();
        let mut shape = 0;
        let mut needed = vec![];
        let expect = match tree.as_index_ref() {
            None => vec![],
            Some(ix) => {
                let store = self.store.clone();
                let node = Walker::default().walk(
                    &|l| store.raw(l),
                    &secrets(w.secrets),
                    ix,
                    0,
                );
                shape = hash64(4, node.shape().as_bytes());
                self.sh.state(shape);
                needed = node.reachable();
                node.elems()
            }
        };
        let bad = expect.len() != w.elems.len()
            || expect.iter().zip(&w.elems).any(|(x, e)| match x {
                None => !w.retained,
                Some((k, v)) => *k != e.key || *v != e.val,
            });
        if bad {
            self.sh.fail(
                "writer_content",
                format!(
                    "stream {} has wrong content after a write ({} elements, want {})",
                    w.stream,
                    expect.len(),
                    w.elems.len()
                ),
            );
        }
        self.sh.hash(shape);
        let s = Snap {
            stream: w.stream,
            tree,
            expect: Arc::new(expect),
            elems: Arc::new(w.elems.clone()),
            needed: Arc::new(needed),
            shape,
        };
        w.own.push(s.clone());
        lock(&self.snaps).push(s);
    }
}

fn op_name(op: &WOp) -> &'static str {
    match op {
        WOp::Extend(_) => "extend",
        WOp::Unpacked(_) => "extend_unpacked",
        WOp::Pack => "pack",
        WOp::Retain(_) => "retain",
        WOp::Repair => "repair",
        WOp::Rollback(_) => "rollback",
        WOp::Reopen => "reopen",
        WOp::ReopenOld(_) => "reopen_old",
    }
}

fn run_tree(p: &TreePlan, trace: bool) -> RunResult {
    let sh = Shared::new(trace);
    let env = Env::new(p, &sh, true);
    let mut writers: Vec<Option<Writer>> = (0..2).map(|i| Some(env.writer(i, p))).collect();
    for op in &p.prologue {
        let s = match op {
            TOp::Write { stream, .. } => *stream as usize % 2,
            _ => 0,
        };
        env.exec(writers[s].as_mut(), op);
    }
    sh.note(|| "threads".into());
    let back: Arc<Mutex<Vec<Writer>>> = Arc::default();
    env.store.arm(&p.faults);
    let faulty = !p.faults.is_empty();
    let tasks: Vec<TaskFn> = p
        .threads
        .iter()
        .cloned()
        .enumerate()
        .map(|(t, ops)| {
            let env = env.clone(faulty);
            let mut w = writers.get_mut(t).and_then(|x| x.take());
            let back = back.clone();
            Box::new(move || {
                for op in ops {
                    env.exec(w.as_mut(), &op);
                    yield_now();
                }
                if let Some(w) = w {
                    lock(&back).push(w);
                }
            }) as TaskFn
        })
        .collect();
    let r = Sched::run(&p.sched, tasks);
    for f in env.store.disarm() {
        sh.stat(f);
    }
    sh.sched(&r);
    sh.hash(env.store.lock().hash);
    // everything works again: all snapshots are what they were, through the warm caches
    let snaps = lock(&env.snaps).clone();
    if lock(&sh.0).violation.is_none() {
        let mut rng = Rng::new(snaps.len() as u64);
        for s in &snaps {
            env.read(s, &s.tree, *rng.pick(&KINDS), &Q::All);
            env.collect(s, 0);
            for _ in 0..4 {
                env.get(s, rng.below(s.expect.len() as u64 + 2));
            }
        }
        // and the streams can be continued
        let mut ws = std::mem::take(&mut *lock(&back));
        ws.extend(writers.into_iter().flatten());
        ws.sort_by_key(|w| w.stream);
        for w in ws.iter_mut() {
            let mut i = random_items(&mut rng, &Profile::default());
            i.n = i.n.min(20);
            i.bad = None;
            env.write(w, &WOp::Extend(i));
            if let Some(s) = w.own.last() {
                env.read(s, &s.tree, Kind::Iter, &Q::All);
            }
        }
        // without caches and threads the same writes give the same blocks
        if !faulty && lock(&sh.0).violation.is_none() {
            twin(p, &sh, &snaps);
        }
    }
    let mut l = lock(&sh.0);
    l.nontrivial = snaps.len() > 2 && l.stats.get("read").copied().unwrap_or(0) > 0;
    drop(l);
    sh.finish(r)
}

fn twin(p: &TreePlan, sh: &Shared, snaps: &[Snap]) {
    let quiet = Shared::new(false);
    let env = Env::new(p, &quiet, false);
    let mut ws: Vec<Writer> = (0..2).map(|i| env.writer(i, p)).collect();
    let all = p
        .prologue
        .iter()
        .chain(p.threads.iter().take(2).enumerate().flat_map(|(t, ops)| {
            ops.iter().filter(move |o| match o {
                TOp::Write { stream, .. } => *stream as usize == t,
                _ => false,
            })
        }));
    for op in all {
        if let TOp::Write { stream, op } = op {
            env.write(&mut ws[*stream as usize % 2], op);
        }
    }
    if let Some((c, m)) = lock(&quiet.0).violation.take() {
        sh.foreign(format!("without caches: {}: {}", c, m));
        return;
    }
    let mine = lock(&env.snaps).clone();
    for s in 0..2 {
        let a: Vec<_> = snaps.iter().filter(|x| x.stream == s).collect();
        let b: Vec<_> = mine.iter().filter(|x| x.stream == s).collect();
        for (i, (a, b)) in a.iter().zip(&b).enumerate() {
            if a.shape != b.shape || a.tree.link() != b.tree.link() {
                sh.fail(
                    "twin",
                    format!("write {} on stream {} has a different result with caches and threads", i, s),
                );
                return;
            }
        }
    }
    sh.stat("twin_compared");
}

pub fn run(_prop: &str, plan: &ConcPlan, trace: bool) -> RunResult {
    crate::outcome::phase("threads", &["C10", "C17", "C18"]);
    match plan {
        ConcPlan::Store(p) => run_store(p, trace),
        ConcPlan::Mem(p) => run_mem(p, trace),
        ConcPlan::Branch(p) => run_branch(p, trace),
        ConcPlan::Tree(p) => run_tree(p, trace),
    }
}
