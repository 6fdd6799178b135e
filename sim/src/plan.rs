//! Histories of a single stream: what to do, and which faults to inject. Generation and shrinking.
use crate::query::Q;
use crate::rng::{mix, Rng};
use crate::store::Fault;
use crate::types::{make_val, FAT, Key, Link, Ref, Shape, Val};
use banyan::{Config, Secrets};
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    pub msb: usize,
    pub mkb: usize,
    pub mlc: usize,
    pub tls: usize,
    pub mul: usize,
    pub zl: i32,
}
impl Cfg {
    pub fn real(&self) -> Config {
        Config {
            max_summary_branches: self.msb,
            max_key_branches: self.mkb,
            max_leaf_count: self.mlc,
            target_leaf_size: self.tls,
            max_uncompressed_leaf_size: self.mul,
            zstd_level: self.zl,
        }
    }
    pub fn random(rng: &mut Rng) -> Self {
        let style = rng.below(10);
        let mut c = Self {
            msb: rng.range(2, 5) as usize,
            mkb: rng.range(1, 5) as usize,
            mlc: rng.range(1, 10) as usize,
            tls: 10000,
            mul: 16 << 20,
            zl: rng.range(0, 3) as i32,
        };
        match style {
            // leaves are limited by compressed size
            0 | 1 => {
                c.mlc = 1 << 14;
                c.tls = *rng.pick(&[1, 40, 100, 300, 1000]);
            }
            // by uncompressed size
            2 | 3 => {
                c.mlc = 1 << 14;
                c.mul = *rng.pick(&[64, 100, 200, 500, 2000]);
            }
            // everything at once
            4 => {
                c.tls = *rng.pick(&[40, 100, 300]);
                c.mul = *rng.pick(&[64, 100, 200, 500, 2000]);
            }
            // large nodes
            5 => {
                c.msb = *rng.pick(&[2, 8, 20]);
                c.mkb = *rng.pick(&[16, 32, 60]);
                c.mlc = *rng.pick(&[1, 2, 4, 40]);
            }
            _ => {}
        }
        c
    }
    /// limits that hold for trees built with either
    pub fn max(&self, o: &Cfg) -> Cfg {
        Cfg {
            msb: self.msb.max(o.msb),
            mkb: self.mkb.max(o.mkb),
            mlc: self.mlc.max(o.mlc),
            tls: self.tls.max(o.tls),
            mul: self.mul.max(o.mul),
            zl: self.zl,
        }
    }
}

pub fn secrets(n: u8) -> Secrets {
    if n == 0 {
        return Secrets::default();
    }
    let k = |x: u64| -> banyan::chacha20::Key {
        let mut a = [0u8; 32];
        let mut r = Rng::new(x);
        for c in a.chunks_mut(8) {
            c.copy_from_slice(&r.u64().to_le_bytes());
        }
        a.into()
    };
    Secrets::new(k(n as u64 * 2), k(n as u64 * 2 + 1))
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum KeyMode {
    /// keys grow slowly with the number of items
    Monotone,
    Random,
    /// long runs of the same key
    Runs,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    /// bigger than max_uncompressed_leaf_size
    TooBig,
    BadLink,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Items {
    pub n: u32,
    pub seed: u64,
    pub keys: KeyMode,
    /// 0 tiny only, 1 mixed, 2 padded random, 3 links, 4 anything up to some kB
    pub shapes: u8,
    pub bad: Option<(u32, Bad)>,
    /// number of items at the front whose keys are so large that 16 of them do not fit into an index
    #[serde(default, skip_serializing_if = "is_zero")]
    pub fat: u32,
}

fn is_zero(x: &u32) -> bool {
    *x == 0
}

pub const KEYS: u64 = 40;

#[derive(Clone, Debug, PartialEq)]
pub struct Elem {
    pub id: u64,
    pub key: Key,
    pub val: Val,
    pub links: Vec<Ref>,
    /// blob id of the link in the key
    pub key_link: Option<u64>,
    pub bad: bool,
}

impl Items {
    /// first_id: ids are unique within a history
    pub fn make(&self, first_id: u64, mul: usize) -> Vec<Arc<Elem>> {
        let mut rng = Rng::new(self.seed);
        let mut run = rng.range(0, KEYS - 1);
        (0..self.n as u64)
            .map(|i| {
                let id = first_id + i;
                let k = match self.keys {
                    KeyMode::Monotone => (id / 3).min(KEYS * 4),
                    KeyMode::Random => rng.range(0, KEYS - 1),
                    KeyMode::Runs => {
                        if rng.pct(10) {
                            run = rng.range(0, KEYS - 1);
                        }
                        run
                    }
                };
                let k = if i < self.fat as u64 { k | FAT } else { k };
                let key_link = if rng.pct(5) {
                    Some(id + (99 << 40))
                } else {
                    None
                };
                let link = key_link.map(Link::of_id);
                let mut shape = match self.shapes {
                    0 => Shape::Tiny,
                    2 => Shape::Pad {
                        len: rng.skewed(60) as u32,
                        random: true,
                    },
                    3 => Shape::Links {
                        n: rng.below(4) as u8,
                    },
                    4 => match rng.below(4) {
                        0 => Shape::Links {
                            n: rng.below(4) as u8,
                        },
                        1 => Shape::Odd,
                        _ => Shape::Pad {
                            len: rng.skewed(3000) as u32,
                            random: rng.pct(30),
                        },
                    },
                    _ => match rng.below(8) {
                        0 | 1 | 2 => Shape::Tiny,
                        3 => Shape::Pad {
                            len: rng.skewed(100) as u32,
                            random: rng.bool(),
                        },
                        4 => Shape::Links {
                            n: rng.below(4) as u8,
                        },
                        5 => Shape::Odd,
                        _ => Shape::Pad {
                            len: rng.skewed(20) as u32,
                            random: false,
                        },
                    },
                };
                let mut bad = false;
                if let Some((pos, b)) = self.bad {
                    if pos as u64 == i {
                        bad = true;
                        shape = match b {
                            Bad::BadLink => Shape::BadLink,
                            Bad::TooBig if mul < 100_000 => Shape::Pad {
                                len: mul as u32 + 1,
                                random: false,
                            },
                            Bad::TooBig => {
                                bad = false;
                                shape
                            }
                        };
                    }
                }
                let (mut val, mut links) = make_val(id, shape);
                if !bad && val.cbor.len() > mul {
                    // keep it acceptable
                    let x = make_val(id, Shape::Tiny);
                    val = x.0;
                    links = x.1;
                }
                Arc::new(Elem {
                    id,
                    key: Key { k, link },
                    val,
                    links,
                    key_link,
                    bad,
                })
            })
            .collect()
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Commit,
    Drop,
    Panic,
    Err,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Extend(Items),
    ExtendUnpacked(Items),
    Push(Items),
    Pack,
    Retain(Q),
    Repair,
    /// 0: latest root, n: an older one. Optionally with another config
    Reopen { which: u32, cfg: Option<Cfg> },
    /// the process dies, `keep` of 1000 writes since the last known durable point survive
    Crash { keep: u32 },
    Txn { steps: Vec<Step>, end: End },
    /// blocks disappear. `n` blocks picked by seed among those reachable
    Lose { seed: u64, n: u32 },
    /// delete everything not reachable from the current root and some kept roots
    Gc { seed: u64, extra: u32 },
    CacheReset { cap: u32 },
    /// the stream has a long past: its key stream is used up to this offset
    Forward { offset: u64 },
    /// a battery of reads, depending on the property
    Read { seed: u64, q: Q },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub op: Op,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
    /// after a failure, do it again without faults
    #[serde(default)]
    pub retry: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct HistPlan {
    pub cfg: Cfg,
    pub secrets: u8,
    /// capacity of the branch cache
    pub cache: u32,
    /// MemCache in front of the store: max block size, capacity
    pub mem: Option<(u32, u32)>,
    pub steps: Vec<Step>,
}

/// what kinds of histories exercise a property
#[derive(Clone, Debug, Default)]
pub struct Profile {
    pub extend: u64,
    pub unpacked: u64,
    pub push: u64,
    pub pack: u64,
    pub retain: u64,
    pub repair: u64,
    pub reopen: u64,
    pub reopen_old: u64,
    pub newcfg: u64,
    pub crash: u64,
    pub txn: u64,
    pub lose: u64,
    pub gc: u64,
    pub cache_reset: u64,
    pub read: u64,
    /// percent of mutating steps with faults
    pub faults: u64,
    pub panics: bool,
    pub crash_faults: bool,
    /// percent of batches with something bad
    pub bad: u64,
    pub shapes: Option<u8>,
    pub min_steps: u64,
    pub max_steps: u64,
    pub need_secrets: bool,
    pub mem: u64,
    pub final_read: bool,
}

pub fn profile(prop: &str) -> Profile {
    let base = Profile {
        extend: 30,
        unpacked: 14,
        push: 8,
        pack: 10,
        reopen: 6,
        min_steps: 3,
        max_steps: 12,
        ..Default::default()
    };
    match prop {
        "C01" => Profile {
            txn: 6,
            newcfg: 2,
            reopen_old: 2,
            cache_reset: 3,
            read: 12,
            mem: 20,
            final_read: true,
            ..base
        },
        "C02" => Profile {
            faults: 70,
            panics: true,
            retain: 8,
            repair: 3,
            bad: 15,
            lose: 1,
            mem: 20,
            ..base
        },
        "C03" => Profile {
            crash: 14,
            faults: 45,
            crash_faults: true,
            retain: 4,
            txn: 4,
            reopen: 12,
            mem: 10,
            bad: 3,
            ..base
        },
        "C04" => Profile {
            faults: 40,
            panics: true,
            retain: 6,
            txn: 12,
            reopen: 12,
            bad: 10,
            ..base
        },
        "C05" => Profile {
            retain: 5,
            repair: 2,
            lose: 2,
            read: 35,
            cache_reset: 3,
            mem: 20,
            final_read: true,
            ..base
        },
        "C06" => Profile {
            retain: 6,
            repair: 2,
            lose: 2,
            read: 35,
            cache_reset: 2,
            final_read: true,
            ..base
        },
        "C07" => Profile {
            retain: 4,
            read: 40,
            lose: 6,
            cache_reset: 3,
            mem: 30,
            final_read: true,
            ..base
        },
        "C11" => Profile {
            retain: 30,
            faults: 8,
            txn: 2,
            ..base
        },
        "C12" => Profile {
            repair: 18,
            lose: 16,
            retain: 5,
            faults: 5,
            mem: 15,
            cache_reset: 2,
            ..base
        },
        "C13" => Profile {
            pack: 28,
            unpacked: 25,
            retain: 6,
            faults: 6,
            newcfg: 2,
            ..base
        },
        "C14" => Profile {
            retain: 5,
            bad: 10,
            faults: 10,
            newcfg: 2,
            ..base
        },
        "C16" => Profile {
            gc: 22,
            retain: 10,
            txn: 4,
            faults: 8,
            shapes: Some(1),
            ..base
        },
        "C19" => Profile {
            txn: 45,
            retain: 5,
            faults: 25,
            panics: true,
            bad: 5,
            ..base
        },
        "C20" => Profile {
            retain: 6,
            faults: 20,
            need_secrets: true,
            read: 8,
            final_read: true,
            ..base
        },
        "C21" => Profile {
            retain: 6,
            read: 30,
            final_read: true,
            ..base
        },
        _ => base,
    }
}

pub fn random_items(rng: &mut Rng, p: &Profile) -> Items {
    let n = match rng.below(10) {
        0 => 1,
        1..=5 => rng.range(1, 12),
        6 | 7 => rng.range(5, 40),
        8 => rng.range(20, 120),
        _ => rng.range(1, 3),
    } as u32;
    let bad = if rng.pct(p.bad) {
        Some((
            rng.below(n as u64) as u32,
            if rng.bool() { Bad::TooBig } else { Bad::BadLink },
        ))
    } else {
        None
    };
    Items {
        n,
        seed: rng.u64(),
        keys: *rng.pick(&[KeyMode::Monotone, KeyMode::Random, KeyMode::Runs]),
        shapes: p.shapes.unwrap_or_else(|| rng.below(4) as u8),
        bad,
        fat: 0,
    }
}

fn random_faults(rng: &mut Rng, p: &Profile, op: &Op) -> Vec<Fault> {
    let puts_only = matches!(op, Op::Repair);
    // most operations do few store calls
    let n = |rng: &mut Rng| match rng.below(4) {
        0 => 0,
        1 => rng.below(3),
        2 => rng.below(8),
        _ => rng.below(30),
    } as u32;
    let mut res = Vec::new();
    let k = 1 + rng.below(100) / 85;
    for _ in 0..k {
        let f = if p.crash_faults && rng.pct(50) {
            if puts_only || rng.pct(80) {
                Fault::CrashPut {
                    n: n(rng),
                    landed: rng.bool(),
                }
            } else {
                Fault::CrashGet { n: n(rng) }
            }
        } else {
            match rng.below(if p.panics { 10 } else { 7 }) {
                0 | 1 => Fault::PutFail {
                    n: n(rng),
                    times: if rng.bool() { 1 } else { 1 + n(rng) },
                },
                2 => Fault::PutAckLost { n: n(rng) },
                3 => Fault::Full {
                    bytes: rng.skewed(4000) as u32,
                },
                4 | 5 | 6 if !puts_only => Fault::GetFail {
                    n: n(rng),
                    times: if rng.bool() { 1 } else { 1 + n(rng) },
                },
                7 => Fault::PutPanic { n: n(rng) },
                8 if !puts_only => Fault::GetPanic { n: n(rng) },
                9 if !puts_only => Fault::IterPanic { n: n(rng) },
                _ => Fault::PutFail { n: n(rng), times: 1 },
            }
        };
        res.push(f);
    }
    res
}

fn random_op(rng: &mut Rng, p: &Profile, depth: u32, count: &mut u64) -> Op {
    let w = [
        p.extend,
        p.unpacked,
        p.push,
        p.pack,
        p.retain,
        p.repair,
        if depth > 0 { 0 } else { p.reopen + p.reopen_old },
        if depth > 0 { 0 } else { p.crash },
        if depth > 1 { 0 } else { p.txn },
        if depth > 0 { 0 } else { p.lose },
        if depth > 0 { 0 } else { p.gc },
        p.cache_reset,
        p.read,
    ];
    match rng.weighted(&w) {
        0 => {
            let i = random_items(rng, p);
            *count += i.n as u64;
            Op::Extend(i)
        }
        1 => {
            let mut i = random_items(rng, p);
            if rng.pct(60) {
                i.n = i.n.min(3);
                if let Some((pos, _)) = &mut i.bad {
                    *pos = 0;
                }
            }
            *count += i.n as u64;
            Op::ExtendUnpacked(i)
        }
        2 => {
            let mut i = random_items(rng, p);
            i.n = 1;
            if let Some((pos, _)) = &mut i.bad {
                *pos = 0;
            }
            *count += 1;
            Op::Push(i)
        }
        3 => Op::Pack,
        4 => Op::Retain(Q::random(rng, KEYS, *count, 2)),
        5 => Op::Repair,
        6 => Op::Reopen {
            which: if rng.below(p.reopen + p.reopen_old) < p.reopen {
                0
            } else {
                rng.range(1, 5) as u32
            },
            cfg: if rng.pct(p.newcfg * 10) {
                Some(Cfg::random(rng))
            } else {
                None
            },
        },
        7 => Op::Crash {
            keep: if rng.pct(40) { 1000 } else { rng.below(1000) as u32 },
        },
        8 => {
            let n = rng.range(1, 4);
            let steps = (0..n)
                .map(|_| random_step(rng, p, depth + 1, count))
                .collect();
            let end = match rng.below(10) {
                0..=3 => End::Commit,
                4..=6 => End::Drop,
                7 => End::Panic,
                _ => End::Err,
            };
            Op::Txn { steps, end }
        }
        9 => Op::Lose {
            seed: rng.u64(),
            n: match rng.below(20) {
                // a large part of the stream
                0 | 1 => rng.range(20, 600) as u32,
                2..=9 => rng.range(1, 6) as u32,
                _ => 1,
            },
        },
        10 => Op::Gc {
            seed: rng.u64(),
            extra: rng.below(4) as u32,
        },
        11 => Op::CacheReset {
            cap: *rng.pick(&[1, 100, 1000, 5000, 1 << 20]),
        },
        _ => Op::Read {
            seed: rng.u64(),
            q: Q::random(rng, KEYS, *count, 2),
        },
    }
}

fn random_step(rng: &mut Rng, p: &Profile, depth: u32, count: &mut u64) -> Step {
    let op = random_op(rng, p, depth, count);
    let mutating = matches!(
        op,
        Op::Extend(_)
            | Op::ExtendUnpacked(_)
            | Op::Push(_)
            | Op::Pack
            | Op::Retain(_)
            | Op::Repair
    );
    let faults = if mutating && rng.pct(p.faults) {
        random_faults(rng, p, &op)
    } else {
        Vec::new()
    };
    let retry = rng.pct(70);
    Step { op, faults, retry }
}

pub fn generate(prop: &str, seed: u64) -> HistPlan {
    let mut rng = Rng::new(mix(seed, 0xb1));
    let mut p = profile(prop);
    // swarm: switch some features off in each run
    for x in [
        &mut p.unpacked,
        &mut p.push,
        &mut p.cache_reset,
        &mut p.reopen,
        &mut p.reopen_old,
        &mut p.newcfg,
    ] {
        if rng.pct(25) {
            *x = 0;
        }
    }
    if rng.pct(15) {
        p.faults = 0;
    }
    if prop != "C11" && rng.pct(40) {
        p.retain = 0;
    }
    if prop != "C12" && rng.pct(50) {
        p.lose = 0;
        p.repair = 0;
    }
    if prop != "C19" && rng.pct(40) {
        p.txn = 0;
    }
    if prop != "C13" && rng.pct(25) {
        p.pack = 0;
    }
    let n = rng.range(p.min_steps, p.max_steps);
    let mut count = 0;
    let mut steps = Vec::new();
    // something to work with
    if rng.pct(85) {
        let mut i = random_items(&mut rng, &p);
        i.bad = None;
        count += i.n as u64;
        steps.push(Step {
            op: Op::Extend(i),
            faults: vec![],
            retry: false,
        });
    }
    for _ in 0..n {
        let s = random_step(&mut rng, &p, 0, &mut count);
        steps.push(s);
    }
    if p.final_read {
        steps.push(Step {
            op: Op::Read {
                seed: rng.u64(),
                q: Q::random(&mut rng, KEYS, count, 2),
            },
            faults: vec![],
            retry: false,
        });
    }
    let mut cfg = Cfg::random(&mut rng);
    // indexes of the size of the limit
    if matches!(prop, "C01" | "C02" | "C14") && mix(seed, 0xfa7) % 120 == 0 {
        cfg.mlc = rng.range(4, 10) as usize;
        cfg.mkb = rng.range(3, 5) as usize;
        cfg.tls = 10_000;
        let mut left = rng.range(1, 3);
        steps.truncate(8);
        for s in &mut steps {
            s.faults.clear();
            if let Op::Extend(i) | Op::ExtendUnpacked(i) = &mut s.op {
                if left > 0 {
                    left -= 1;
                    i.n = rng.range(4, 24) as u32;
                    i.fat = i.n;
                    i.bad = None;
                }
            }
        }
    }
    // large leaves and wide branches
    if !matches!(prop, "C12" | "C19") && mix(seed, 0xb16) % 20 == 0 {
        let mut rng = Rng::new(mix(seed, 0xb17));
        cfg.tls = *rng.pick(&[1000, 10_000, 100_000]);
        cfg.mul = *rng.pick(&[6000, 20_000, 16 << 20, 16 << 20]);
        cfg.mlc = *rng.pick(&[100, 255, 256, 300, 1000, 1 << 14]);
        cfg.mkb = *rng.pick(&[2, 3, 32]);
        cfg.msb = *rng.pick(&[2, 8, 32]);
        let factor = rng.range(1, 6) as u32;
        for s in &mut steps {
            if let Op::Extend(i) | Op::ExtendUnpacked(i) = &mut s.op {
                if i.fat == 0 {
                    i.n = (i.n * factor).min(400);
                    if rng.bool() && p.shapes != Some(0) {
                        i.shapes = 4;
                    }
                }
            }
        }
    }
    // streams with a long past
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C13" | "C14" | "C19")
        && mix(seed, 0xf0d) % 8 == 0
    {
        let mut rng = Rng::new(mix(seed, 0xf0e));
        let base = 1u64 << *rng.pick(&[16, 24, 31, 32, 32, 32, 33, 38, 38, 40, 48, 53, 62]);
        let offset = base - rng.skewed(2000).min(base);
        let at = 1 + rng.idx(steps.len().clamp(1, 4));
        steps.insert(
            at.min(steps.len()),
            Step {
                op: Op::Forward { offset },
                faults: vec![],
                retry: false,
            },
        );
    }
    HistPlan {
        cfg,
        secrets: if p.need_secrets || rng.pct(60) {
            1 + rng.below(200) as u8
        } else {
            0
        },
        cache: *rng.pick(&[0, 0, 1, 800, 3000, 20_000, 1 << 26]),
        mem: if rng.pct(p.mem) {
            Some((
                *rng.pick(&[0, 50, 100, 1000, 100_000]),
                *rng.pick(&[0, 60, 500, 5000, 1 << 20]),
            ))
        } else {
            None
        },
        steps,
    }
}

fn op_simpler(op: &Op) -> Vec<Op> {
    fn items(i: &Items) -> Vec<Items> {
        let mut res = Vec::new();
        if i.n > 1 {
            for n in [1, i.n / 2, i.n - 1] {
                if n >= 1 && n < i.n {
                    let mut j = *i;
                    j.n = n;
                    if let Some((pos, b)) = j.bad {
                        j.bad = Some((pos.min(n - 1), b));
                    }
                    res.push(j);
                }
            }
        }
        if i.bad.is_some() {
            res.push(Items { bad: None, ..*i });
        }
        if i.fat > 0 {
            res.push(Items { fat: 0, ..*i });
            res.push(Items {
                fat: i.fat - 1,
                ..*i
            });
        }
        if i.shapes != 0 {
            res.push(Items { shapes: 0, ..*i });
        }
        if i.keys != KeyMode::Monotone {
            res.push(Items {
                keys: KeyMode::Monotone,
                ..*i
            });
        }
        res
    }
    fn query(q: &Q) -> Vec<Q> {
        match q {
            Q::And(a, b) | Q::Or(a, b) => vec![(**a).clone(), (**b).clone()],
            Q::All => vec![],
            _ => vec![Q::All],
        }
    }
    match op {
        Op::Extend(i) => items(i).into_iter().map(Op::Extend).collect(),
        Op::ExtendUnpacked(i) => items(i).into_iter().map(Op::ExtendUnpacked).collect(),
        Op::Push(i) => items(i).into_iter().map(Op::Push).collect(),
        Op::Retain(q) => query(q).into_iter().map(Op::Retain).collect(),
        Op::Read { seed, q } => query(q)
            .into_iter()
            .map(|q| Op::Read { seed: *seed, q })
            .collect(),
        Op::Reopen { which, cfg } => {
            let mut res = Vec::new();
            if *which > 0 {
                res.push(Op::Reopen {
                    which: 0,
                    cfg: *cfg,
                });
            }
            if cfg.is_some() {
                res.push(Op::Reopen {
                    which: *which,
                    cfg: None,
                });
            }
            res
        }
        Op::Lose { seed, n } if *n > 1 => vec![
            Op::Lose { seed: *seed, n: 1 },
            Op::Lose { seed: *seed, n: *n / 2 },
            Op::Lose { seed: *seed, n: *n - 1 },
        ],
        Op::Crash { keep } if *keep < 1000 => vec![Op::Crash { keep: 1000 }],
        Op::Gc { seed, extra } if *extra > 0 => vec![Op::Gc {
            seed: *seed,
            extra: 0,
        }],
        Op::Txn { steps, end } => {
            let mut res: Vec<Op> = Vec::new();
            for i in 0..steps.len() {
                let mut s = steps.clone();
                s.remove(i);
                res.push(Op::Txn {
                    steps: s,
                    end: *end,
                });
            }
            for i in 0..steps.len() {
                for s1 in step_simpler(&steps[i]) {
                    let mut s = steps.clone();
                    s[i] = s1;
                    res.push(Op::Txn {
                        steps: s,
                        end: *end,
                    });
                }
            }
            res
        }
        _ => vec![],
    }
}

fn step_simpler(s: &Step) -> Vec<Step> {
    let mut res = Vec::new();
    for i in 0..s.faults.len() {
        let mut t = s.clone();
        t.faults.remove(i);
        res.push(t);
    }
    for op in op_simpler(&s.op) {
        res.push(Step { op, ..s.clone() });
    }
    if s.retry {
        res.push(Step {
            retry: false,
            ..s.clone()
        });
    }
    res
}

/// simpler variants, most promising first
pub fn shrink(p: &HistPlan) -> Vec<HistPlan> {
    let mut res = Vec::new();
    let n = p.steps.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut from = 0;
        while from < n {
            let to = (from + size).min(n);
            let mut q = p.clone();
            q.steps.drain(from..to);
            res.push(q);
            from = to;
        }
        size /= 2;
    }
    // replace a transaction by its steps
    for i in 0..n {
        if let Op::Txn { steps, .. } = &p.steps[i].op {
            let mut q = p.clone();
            q.steps.splice(i..=i, steps.clone());
            res.push(q);
        }
    }
    for i in 0..n {
        for s in step_simpler(&p.steps[i]) {
            let mut q = p.clone();
            q.steps[i] = s;
            res.push(q);
        }
    }
    if p.mem.is_some() {
        res.push(HistPlan {
            mem: None,
            ..p.clone()
        });
    }
    if p.cache != 0 {
        res.push(HistPlan {
            cache: 0,
            ..p.clone()
        });
    }
    let d = Cfg {
        msb: 2,
        mkb: 2,
        mlc: 2,
        tls: 10000,
        mul: 16 << 20,
        zl: 1,
    };
    for f in 0..6 {
        let mut c = p.cfg;
        match f {
            0 => c.msb = d.msb,
            1 => c.mkb = d.mkb,
            2 => c.mlc = d.mlc,
            3 => c.tls = d.tls,
            4 => c.mul = d.mul,
            _ => c.zl = d.zl,
        }
        if c != p.cfg {
            res.push(HistPlan { cfg: c, ..p.clone() });
        }
    }
    res
}
