//! C22: streams in the SQLite store, with crashes and errors of the disk at any call
use crate::vfs::{self, How, Io, Mark};
use banyan::query::AllQuery;
use banyan::store::{BlockWriter, BranchCache, ReadOnlyStore};
use banyan::{Forest, StreamBuilder, Transaction};
use banyan_utils::sqlite::SqliteStore;
use banyan_utils::tag_index::{Tag, TagSet};
use banyan_utils::tags::{Key, Sha256Digest, TT};
use futures::StreamExt;
use ipfs_sqlite_block_store::{BlockStore, Config, Synchronous};
use libipld::{Block, Cid, DefaultParams};
use serde::{Deserialize, Serialize};
use simcore::engine::About;
use simcore::outcome::{guard, mixh, phase, Out, RunResult, Stop, R};
use simcore::plan::{secrets, Cfg};
use simcore::reads::{check_prefix, pull, pull_stream, Seq};
use simcore::rng::{mix, Rng};
use simcore::types::hash64;
use std::convert::TryFrom;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const DB: &str = "/sim/db";
const WAL: &str = "/sim/db-wal";

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Faults {
    /// errors of the disk: kind, and after how many calls of that kind
    pub io: Vec<(Io, u32)>,
    /// the process dies at this change of a file, of which so much is done
    pub crash: Option<(u32, u8)>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Read {
    Iter,
    IterRev,
    Stream,
    Collect,
    Get(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Extend { n: u8, seed: u64, unpacked: bool, big: bool, f: Faults },
    Pack { f: Faults },
    Read { how: Read, cold: bool, f: Faults },
    /// copy the log into the database
    Flush { f: Faults },
    /// the maintenance that a store needs from time to time. Nothing is to be removed
    Gc { f: Faults },
    /// close and open
    Reopen { f: Faults },
    Crash,
    Background { steps: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SqlPlan {
    pub cfg: Cfg,
    pub secrets: u8,
    pub cache: u32,
    pub full: bool,
    pub sector: u16,
    pub psow: bool,
    /// the background thread: 0 runs right away, 1 has to wait for its steps, else it gets them
    /// during other calls, with that probability in percent
    pub bg: u8,
    /// second connection for maintenance
    pub second: bool,
    pub seed: u64,
    pub ops: Vec<Op>,
    /// what remains after the crashes, and faults for opening again
    pub after: Vec<(How, Faults)>,
}

fn faults(r: &mut Rng, pct: u64, crash: u64, span: u64) -> Faults {
    let mut f = Faults::default();
    if r.pct(crash) {
        f.crash = Some((r.skewed(span) as u32, *r.pick(&[0, 0, 10, 50, 90, 100, 200, 200])));
    } else if r.pct(pct) {
        for _ in 0..1 + r.skewed(3) {
            let k = *r.pick(&[
                Io::Read,
                Io::Read,
                Io::Write,
                Io::Write,
                Io::ShortWrite,
                Io::Truncate,
                Io::Sync,
                Io::Sync,
                Io::Open,
                Io::Delete,
                Io::Shm,
                Io::Full,
                Io::Full,
            ]);
            f.io.push((k, r.skewed(if matches!(k, Io::Read | Io::Write | Io::Full) { span } else { 6 }) as u32));
        }
    }
    f
}

fn how(r: &mut Rng) -> How {
    match r.below(8) {
        0 => How::Kill,
        1 | 2 => How::Ordered(r.u64()),
        3 | 4 => How::Any { seed: r.u64(), pct: *r.pick(&[0, 10, 50, 90, 100]) },
        _ => How::Tail { seed: r.u64(), mode: r.below(4) as u8 },
    }
}

pub fn generate(seed: u64) -> SqlPlan {
    let mut r = Rng::new(mix(seed, 0x5917e));
    let cfg = Cfg::random(&mut r);
    let io = *r.pick(&[0, 0, 20, 50]);
    let crash = *r.pick(&[10, 25, 40]);
    let second = r.pct(60);
    let mut ops = vec![];
    for _ in 0..r.range(2, 14) {
        ops.push(match r.below(20) {
            0..=7 => Op::Extend {
                n: 1 + r.skewed(24) as u8,
                seed: r.u64(),
                unpacked: r.pct(25),
                big: r.pct(8),
                f: faults(&mut r, io, crash, 40),
            },
            8 | 9 => Op::Pack { f: faults(&mut r, io, crash, 40) },
            10..=12 => Op::Read {
                how: match r.below(5) {
                    0 => Read::Iter,
                    1 => Read::IterRev,
                    2 => Read::Stream,
                    3 => Read::Collect,
                    _ => Read::Get(r.below(60) as u16),
                },
                cold: r.bool(),
                f: faults(&mut r, io, 0, 30),
            },
            13 | 14 => Op::Flush { f: faults(&mut r, io, crash, 30) },
            15 if second => Op::Gc { f: faults(&mut r, io, crash, 30) },
            16 => Op::Reopen { f: faults(&mut r, io, crash, 60) },
            17 | 18 => Op::Crash,
            _ => Op::Background { steps: 1 + r.skewed(40) as u8 },
        });
    }
    let after = (0..r.range(1, 6))
        .map(|_| {
            (
                how(&mut r),
                if r.pct(25) { faults(&mut r, 30, 60, 40) } else { Faults::default() },
            )
        })
        .collect();
    SqlPlan {
        cfg,
        secrets: r.below(3) as u8,
        cache: *r.pick(&[0, 1 << 20]),
        full: r.bool(),
        sector: *r.pick(&[512, 4096]),
        psow: r.pct(70),
        bg: *r.pick(&[0, 0, 1, 2, 10]),
        second,
        seed: r.u64(),
        ops,
        after,
    }
}

pub fn shrink(p: &SqlPlan) -> Vec<SqlPlan> {
    let mut res = vec![];
    let n = p.ops.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut from = 0;
        while from < n {
            let to = (from + size).min(n);
            let mut q = p.clone();
            q.ops.drain(from..to);
            res.push(q);
            from = to;
        }
        size /= 2;
    }
    let smaller = |f: &Faults| -> Vec<Faults> {
        let mut res = vec![];
        if *f != Faults::default() {
            res.push(Faults::default());
        }
        for i in 0..f.io.len() {
            let mut g = f.clone();
            g.io.remove(i);
            res.push(g);
            if f.io[i].1 > 0 {
                let mut g = f.clone();
                g.io[i].1 -= 1;
                res.push(g);
            }
        }
        if let Some((a, t)) = f.crash {
            if a > 0 {
                res.push(Faults { io: f.io.clone(), crash: Some((a / 2, t)) });
                res.push(Faults { io: f.io.clone(), crash: Some((a - 1, t)) });
            }
        }
        res
    };
    for i in 0..n {
        let mut alt = vec![];
        match &p.ops[i] {
            Op::Extend { n, seed, unpacked, big, f } => {
                for m in [1, n / 2, n - 1] {
                    if m >= 1 && m < *n {
                        alt.push(Op::Extend { n: m, seed: *seed, unpacked: *unpacked, big: *big, f: f.clone() });
                    }
                }
                if *big {
                    alt.push(Op::Extend { n: *n, seed: *seed, unpacked: *unpacked, big: false, f: f.clone() });
                }
                for f in smaller(f) {
                    alt.push(Op::Extend { n: *n, seed: *seed, unpacked: *unpacked, big: *big, f });
                }
            }
            Op::Pack { f } => alt.extend(smaller(f).into_iter().map(|f| Op::Pack { f })),
            Op::Flush { f } => alt.extend(smaller(f).into_iter().map(|f| Op::Flush { f })),
            Op::Gc { f } => alt.extend(smaller(f).into_iter().map(|f| Op::Gc { f })),
            Op::Reopen { f } => alt.extend(smaller(f).into_iter().map(|f| Op::Reopen { f })),
            Op::Read { how, cold, f } => {
                alt.extend(smaller(f).into_iter().map(|f| Op::Read { how: *how, cold: *cold, f }))
            }
            _ => {}
        }
        for op in alt {
            let mut q = p.clone();
            q.ops[i] = op;
            res.push(q);
        }
    }
    for i in 0..p.after.len() {
        if p.after.len() > 1 {
            let mut q = p.clone();
            q.after.remove(i);
            res.push(q);
        }
        let mut alt = vec![];
        if p.after[i].0 != How::Kill {
            alt.push((How::Kill, p.after[i].1.clone()));
        }
        alt.extend(smaller(&p.after[i].1).into_iter().map(|f| (p.after[i].0, f)));
        for x in alt {
            let mut q = p.clone();
            q.after[i] = x;
            res.push(q);
        }
    }
    for f in [
        |q: &mut SqlPlan| q.bg = 0,
        |q: &mut SqlPlan| q.second = false,
        |q: &mut SqlPlan| q.secrets = 0,
        |q: &mut SqlPlan| q.cache = 0,
        |q: &mut SqlPlan| {
            q.psow = true;
            q.sector = 512
        },
    ] {
        let mut q = p.clone();
        f(&mut q);
        if q != *p {
            res.push(q);
        }
    }
    res
}

type Item = (u64, Key, String);
type Bs = BlockStore<DefaultParams>;
type Sql = SqliteStore<DefaultParams>;

struct Known {
    link: Sha256Digest,
    data: Vec<u8>,
    /// the store has confirmed the block when the log was this long
    ack: Option<Mark>,
}

#[derive(Default)]
struct Log {
    blocks: Vec<Known>,
    index: fnv::FnvHashMap<Sha256Digest, usize>,
    bad: Option<String>,
    puts: u64,
    acks: u64,
}

/// the writer that the transactions use: the real store, and a record of what it confirms
#[derive(Clone)]
struct Writer {
    store: Sql,
    log: Arc<Mutex<Log>>,
}

fn log(l: &Arc<Mutex<Log>>) -> std::sync::MutexGuard<'_, Log> {
    match l.lock() {
        Ok(x) => x,
        Err(x) => x.into_inner(),
    }
}

impl BlockWriter<Sha256Digest> for Writer {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Sha256Digest> {
        let link = Sha256Digest::digest(&data);
        let i = {
            let mut l = log(&self.log);
            l.puts += 1;
            let n = l.blocks.len();
            match l.index.get(&link) {
                Some(i) => *i,
                None => {
                    l.index.insert(link, n);
                    l.blocks.push(Known { link, data: data.clone(), ack: None });
                    n
                }
            }
        };
        let res = self.store.put(data);
        if let Ok(x) = &res {
            let (mark, clean) = {
                let s = vfs::state();
                (s.mark(WAL), s.fired.is_empty() && !s.dead)
            };
            let check = log(&self.log).acks % 4 == 0;
            let got = if clean && check { Some(self.store.get(x)) } else { None };
            let mut l = log(&self.log);
            l.acks += 1;
            if *x != link {
                l.bad = Some(format!("put returns {} instead of {}", x, link));
            }
            match got {
                // a read can be hit by an injected fault too
                Some(Err(e)) if vfs::state().fired.is_empty() => {
                    l.bad = Some(format!("block {} can not be read right after put has confirmed it: {:#}", link, e))
                }
                Some(Ok(d)) if *d != *l.blocks[i].data => {
                    l.bad = Some(format!("block {} has other content when read right after put", link))
                }
                _ => {}
            }
            let k = &mut l.blocks[i];
            if k.ack.is_none() {
                k.ack = Some(mark);
            }
        }
        res
    }
}

struct Root {
    link: Sha256Digest,
    items: Rc<Vec<(Key, String)>>,
}

struct World<'a> {
    p: &'a SqlPlan,
    store: Option<Sql>,
    second: Option<Bs>,
    forest: Option<Forest<TT, Sql>>,
    builder: StreamBuilder<TT, String>,
    items: Rc<Vec<(Key, String)>>,
    roots: Vec<Root>,
    log: Arc<Mutex<Log>>,
    crashes: usize,
    res: RunResult,
    trace: bool,
}

fn violation<T>(class: &str, msg: String) -> R<T> {
    Err(Stop::Violation { class: class.into(), msg })
}

fn tagset(r: &mut Rng) -> TagSet {
    std::iter::once(Tag::from(*r.pick(&["a", "b", "c"]))).collect()
}

impl<'a> World<'a> {
    fn say(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let s = f();
            self.res.trace.push(s);
        }
    }
    fn count(&mut self, k: &'static str) {
        *self.res.stats.entry(k).or_default() += 1;
    }
    fn config(&self) -> Config {
        Config::default()
            .with_size_targets(u64::MAX, u64::MAX)
            .with_pragma_synchronous(if self.p.full { Synchronous::Full } else { Synchronous::Normal })
    }
    fn arm(&mut self, f: &Faults) {
        vfs::arm(&f.io, f.crash);
    }
    /// returns whether something was injected, and whether the process has died
    fn disarm(&mut self) -> R<(bool, bool)> {
        let (fired, crashed) = vfs::disarm();
        for x in &fired {
            *self.res.stats.entry(x).or_default() += 1;
        }
        let bad = log(&self.log).bad.take();
        if let Some(x) = bad {
            return violation("put", x);
        }
        self.res.nontrivial |= !fired.is_empty();
        Ok((!fired.is_empty(), crashed))
    }

    fn close(&mut self) {
        self.forest = None;
        self.store = None;
        self.second = None;
    }

    fn open_once(&mut self, f: &Faults) -> R<Out<()>> {
        self.arm(f);
        let cfg = self.config();
        let second = self.p.second;
        let out = guard(|| {
            let bs = Bs::open(DB, cfg)?;
            Ok(bs)
        });
        let out = match out {
            Out::Ok(bs) => {
                vfs::state().bg_alive = true;
                vfs::bg_started();
                let two = if second { guard(|| Ok(Some(bs.additional_connection()?))) } else { Out::Ok(None) };
                match two {
                    Out::Ok(x) => {
                        let s = Sql::new(bs);
                        self.second = x;
                        self.forest = Some(Forest::new(s.clone(), BranchCache::new(self.p.cache as usize)));
                        self.store = Some(s);
                        match self.p.bg {
                            0 => vfs::bg_finish(),
                            1 => {}
                            n => vfs::state().interleave = n as u64,
                        }
                        Out::Ok(())
                    }
                    Out::Err(e) => Out::Err(e),
                    Out::Panic(e) => Out::Panic(e),
                }
            }
            Out::Err(e) => Out::Err(e),
            Out::Panic(e) => Out::Panic(e),
        };
        let (fault, crashed) = self.disarm()?;
        self.count("open");
        self.say(|| format!("open: {} (faults: {}, dies: {})", out.describe(), fault, crashed));
        match out {
            Out::Ok(()) if !crashed => Ok(Out::Ok(())),
            Out::Ok(()) => Ok(Out::Err("crash".into())),
            Out::Err(e) if fault => Ok(Out::Err(e)),
            Out::Err(e) => violation("open", format!("the database can not be opened: {}", e)),
            Out::Panic(e) => Err(Stop::Foreign(format!("opening the database panics: {}", e))),
        }
    }

    /// the process dies here, if it is not dead yet
    fn crash(&mut self) -> R {
        let mut todo = true;
        let mut retry = 0;
        while todo {
            phase("crash", &["C22"]);
            let (how, f) = self.p.after[(self.crashes) % self.p.after.len()].clone();
            self.crashes += 1;
            vfs::kill();
            self.close();
            vfs::bg_finish();
            let f = if retry > 2 { Faults::default() } else { f };
            retry += 1;
            let survives = vfs::crash(&how, WAL);
            self.count(match how {
                How::Kill => "fault_crash_kill",
                How::Ordered(_) => "fault_power_loss_ordered",
                How::Any { .. } => "fault_power_loss_any_sectors",
                How::Tail { .. } => "fault_log_tail_lost",
            });
            self.res.nontrivial = true;
            {
                let s = vfs::state();
                let (a, b) = (s.len(DB), s.len(WAL));
                drop(s);
                self.say(|| format!("crash {:?}: database has {} bytes, log {}", how, a, b));
            }
            for k in log(&self.log).blocks.iter_mut() {
                if let Some(m) = k.ack {
                    if !survives(m) {
                        k.ack = None;
                    }
                }
            }
            let out = self.open_once(&f)?;
            todo = !out.is_ok();
        }
        self.recover()
    }

    /// check everything in the reopened store, and go on with the stream
    fn recover(&mut self) -> R {
        phase("recover", &["C22"]);
        vfs::arm(&[], None);
        let store = self.store.clone().unwrap();
        let forest = Forest::<TT, Sql>::new(store.clone(), BranchCache::new(self.p.cache as usize));
        let mark = vfs::state().mark(WAL);
        let mut present = fnv::FnvHashSet::default();
        let mut lost = 0;
        let mut sum = 0u64;
        let lg = self.log.clone();
        let mut l = log(&lg);
        let total = l.blocks.len();
        for (i, k) in l.blocks.iter_mut().enumerate() {
            match guard(|| store.get(&k.link)) {
                Out::Ok(d) => {
                    if *d != *k.data {
                        return violation("content", format!("block {} has changed: {} bytes instead of {}", k.link, d.len(), k.data.len()));
                    }
                    present.insert(k.link);
                    mixh(&mut sum, i as u64);
                    if k.ack.is_none() {
                        k.ack = Some(mark);
                    }
                }
                Out::Err(e) => {
                    if k.ack.is_some() {
                        return violation("lost", format!("block {}, number {} of {}, was confirmed and is lost: {}", k.link, i, total, e));
                    }
                    lost += 1;
                }
                Out::Panic(e) => return violation("panic", format!("get: {}", e)),
            }
        }
        // no block without everything that it refers to
        for k in l.blocks.iter().filter(|k| present.contains(&k.link)) {
            let b = Block::<DefaultParams>::new_unchecked(Cid::from(k.link), k.data.clone());
            let mut refs: Vec<Cid> = vec![];
            if b.references(&mut refs).is_err() {
                return violation("block", format!("block {} can not be decoded", k.link));
            }
            for c in refs {
                let ok = Sha256Digest::try_from(c).map(|x| present.contains(&x)).unwrap_or(false);
                if !ok {
                    return violation("dangling", format!("after the crash, block {} is present and {}, to which it refers, is not", k.link, c));
                }
            }
        }
        let blocks = l.blocks.len();
        drop(l);
        mixh(&mut self.res.hash, sum);
        self.res.states.push(sum);
        self.say(|| format!("{} of {} blocks are left", present.len(), blocks));
        if lost > 0 {
            self.count("recovered_with_loss");
        } else {
            self.count("recovered_without_loss");
        }
        let mut alive = vec![];
        for (i, r) in self.roots.iter().enumerate() {
            if present.contains(&r.link) {
                alive.push(i);
            }
        }
        let skip = alive.len().saturating_sub(8);
        for i in alive.iter().skip(skip) {
            let r = &self.roots[*i];
            *self.res.stats.entry("root_read").or_default() += 1;
            let s = secrets(self.p.secrets);
            let want: Vec<Option<(Key, String)>> = r.items.iter().cloned().map(Some).collect();
            let f = forest.clone();
            let out = guard(|| f.collect(&f.load_tree::<String>(s, r.link)?));
            match out {
                Out::Ok(x) if x == want => {}
                Out::Ok(x) => {
                    return violation("root", format!("root {} is present and has {} elements, or other elements, instead of {}", r.link, x.len(), want.len()))
                }
                x => return violation("root", format!("root {} is present and can not be read: {}", r.link, x.describe())),
            }
        }
        // go on with the last state, or an older one
        let mut r = Rng::new(mix(self.p.seed, self.crashes as u64));
        let cfg = self.p.cfg.real();
        let s = secrets(self.p.secrets);
        let pick = match alive.len() {
            0 => None,
            n if r.pct(80) => Some(alive[n - 1]),
            n => Some(alive[r.idx(n)]),
        };
        self.forest = Some(forest.clone());
        match pick {
            Some(i) => {
                let (link, items) = (self.roots[i].link, self.roots[i].items.clone());
                match guard(|| forest.load_stream_builder(s, cfg, link)) {
                    Out::Ok(b) => {
                        self.builder = b;
                        self.items = items;
                    }
                    x => return violation("continue", format!("the stream can not be continued from {}: {}", link, x.describe())),
                }
                self.say(|| format!("going on with root {} of {}", i, alive.len()));
            }
            None => {
                self.builder = StreamBuilder::new(cfg, s);
                self.items = Rc::new(vec![]);
                self.say(|| "nothing is left, starting from scratch".into());
            }
        }
        self.check_count("recovery")?;
        Ok(())
    }

    fn check_count(&mut self, what: &str) -> R {
        if self.builder.count() != self.items.len() as u64 {
            return violation(
                "write",
                format!("after {} the stream has {} elements, not {}", what, self.builder.count(), self.items.len()),
            );
        }
        let x = self.builder.link().map(|x| x.to_string()).unwrap_or_default();
        self.res.states.push(mix(self.builder.count(), hash64(5, x.as_bytes())));
        Ok(())
    }

    fn write(&mut self, what: &str, f: &Faults, op: impl FnOnce(&mut Transaction<TT, Sql, Writer>, &mut StreamBuilder<TT, String>) -> anyhow::Result<()>, new: Vec<(Key, String)>) -> R {
        phase(if what == "pack" { "pack" } else { "extend" }, &["C22"]);
        let store = self.store.clone().unwrap();
        let mut txn = Transaction::new(self.forest.clone().unwrap(), Writer { store, log: self.log.clone() });
        let before = self.builder.count();
        self.arm(f);
        let b = &mut self.builder;
        let out = guard(|| op(&mut txn, b));
        let (fault, crashed) = self.disarm()?;
        self.count("write");
        self.say(|| format!("{}: {} (faults: {}, dies: {})", what, out.describe(), fault, crashed));
        drop(txn);
        mixh(&mut self.res.hash, out.is_ok() as u64 + 2 * crashed as u64);
        let added = new.len();
        match out {
            Out::Ok(()) => {
                let mut x = (*self.items).clone();
                x.extend(new);
                self.items = Rc::new(x);
            }
            Out::Err(_) if fault => {}
            // compressed values can be larger than a block
            Out::Err(e) if e.contains("too large") => {}
            x => return violation("write", format!("{} of {} elements to {}: {}", what, added, before, x.describe())),
        }
        self.check_count(what)?;
        if let (Some(link), true) = (self.builder.link(), self.builder.level() > 0) {
            // a root that was written before with the same content is the same block
            if !self.roots.iter().any(|r| r.link == link && r.items.len() == self.items.len()) {
                self.roots.push(Root { link, items: self.items.clone() });
            }
        }
        if crashed {
            return self.crash();
        }
        Ok(())
    }

    fn read(&mut self, how: Read, cold: bool, fs: &Faults) -> R {
        phase("read", &["C22"]);
        let forest = if cold {
            Forest::new(self.store.clone().unwrap(), BranchCache::new(self.p.cache as usize))
        } else {
            self.forest.clone().unwrap()
        };
        let tree = self.builder.snapshot();
        let want: Vec<Item> = self.items.iter().enumerate().map(|(i, (k, v))| (i as u64, k.clone(), v.clone())).collect();
        self.count("read");
        self.arm(fs);
        let (f, t) = (forest.clone(), tree.clone());
        let (got, want): (Seq<Item>, Vec<Item>) = match how {
            Read::Iter => (pull(|| Box::new(f.iter_from(&t))), want),
            Read::IterRev => (pull(|| Box::new(f.iter_filtered_reverse(&t, AllQuery))), want.into_iter().rev().collect()),
            Read::Stream => (pull_stream(move || f.stream_filtered(&t, AllQuery).boxed_local()), want),
            Read::Collect => match guard(|| forest.collect(&tree)) {
                Out::Ok(x) => {
                    let items = x.into_iter().enumerate().filter_map(|(i, x)| x.map(|(k, v)| (i as u64, k, v))).collect();
                    (Seq { items, err: None, more: false, endless: false, panic: None }, want)
                }
                Out::Err(e) => (Seq { items: vec![], err: Some(e), more: false, endless: false, panic: None }, want),
                Out::Panic(e) => (Seq { items: vec![], err: None, more: false, endless: false, panic: Some(e) }, want),
            },
            Read::Get(i) => {
                let i = i as u64;
                let out = guard(|| forest.get(&tree, i));
                let (fault, _) = self.disarm()?;
                self.say(|| format!("get {}: {} (faults: {})", i, out.is_ok(), fault));
                return match out {
                    Out::Ok(x) if x == self.items.get(i as usize).cloned() => Ok(()),
                    Out::Ok(_) => violation("read", format!("element {} is wrong", i)),
                    Out::Err(_) if fault => Ok(()),
                    x => violation("read", format!("get({}): {}", i, x.describe())),
                };
            }
        };
        let (fault, _) = self.disarm()?;
        mixh(&mut self.res.hash, got.items.len() as u64);
        self.say(|| format!("{:?}: {} elements, error {:?} (faults: {})", how, got.items.len(), got.err, fault));
        if got.err.is_some() && !fault {
            return violation("read", format!("{:?}: {}", how, got.err.unwrap()));
        }
        let show = |x: &[Item]| format!("{} elements", x.len());
        if let Err(e) = check_prefix(&got, &want, show) {
            return violation("read", format!("{:?}: {}", how, e));
        }
        Ok(())
    }

    /// work on the database that is not done through the code under test
    fn maintain(&mut self, what: &'static str, f: &Faults, op: impl FnOnce(&mut Bs) -> anyhow::Result<()>) -> R {
        if let Some(mut bs) = self.second.take() {
            phase(what, &["C22"]);
            self.arm(f);
            let out = guard(|| op(&mut bs));
            self.second = Some(bs);
            let (fault, crashed) = self.disarm()?;
            self.count(what);
            self.say(|| format!("{}: {} (faults: {}, dies: {})", what, out.describe(), fault, crashed));
            mixh(&mut self.res.hash, out.is_ok() as u64 + 2 * crashed as u64);
            if let Out::Panic(e) = out {
                return Err(Stop::Foreign(format!("{}: {}", what, e)));
            }
            if crashed {
                return self.crash();
            }
        }
        Ok(())
    }

    fn step(&mut self, op: &Op) -> R {
        match op {
            Op::Extend { n, seed, unpacked, big, f } => {
                let mut r = Rng::new(*seed);
                let from = self.items.len() as u64;
                let new: Vec<(Key, String)> = (0..*n as u64)
                    .map(|i| {
                        let t = from + i;
                        let tags = tagset(&mut r);
                        let v: String = if *big {
                            (0..r.below(3000)).map(|_| (b' ' + r.below(90) as u8) as char).collect()
                        } else {
                            "x".repeat(r.skewed(60) as usize)
                        };
                        (Key::single(t, t, tags), format!("{}:{}:{}", t, r.below(1000), v))
                    })
                    .collect();
                let items = new.clone();
                let unpacked = *unpacked;
                self.write(
                    if unpacked { "extend_unpacked" } else { "extend" },
                    f,
                    |txn, b| if unpacked { txn.extend_unpacked(b, items) } else { txn.extend(b, items) },
                    new,
                )?;
            }
            Op::Pack { f } => self.write("pack", f, |txn, b| txn.pack(b), vec![])?,
            Op::Read { how, cold, f } => self.read(*how, *cold, f)?,
            Op::Flush { f } => self.maintain("flush", f, |bs| Ok(bs.flush()?))?,
            Op::Gc { f } => self.maintain("gc", f, |bs| {
                bs.incremental_gc(10, Duration::from_secs(1000))?;
                Ok(())
            })?,
            Op::Reopen { f } => {
                phase("reopen", &["C22"]);
                vfs::bg_finish();
                self.close();
                match self.open_once(f)? {
                    Out::Ok(()) => self.recover()?,
                    _ if vfs::state().dead => self.crash()?,
                    _ => {
                        // an error, and the process tries again
                        self.close();
                        vfs::bg_finish();
                        if !self.open_once(&Faults::default())?.is_ok() {
                            return violation("open", "the database can not be opened".into());
                        }
                        self.recover()?;
                    }
                }
            }
            Op::Crash => self.crash()?,
            Op::Background { steps } => {
                vfs::arm(&[], None);
                vfs::grant(*steps as u64);
                vfs::disarm();
            }
        }
        Ok(())
    }
}

pub fn run(p: &SqlPlan, trace: bool) -> RunResult {
    // whatever is left of an earlier run
    vfs::kill();
    vfs::bg_finish();
    vfs::reset(p.seed, p.sector as i32, p.psow);
    let mut w = World {
        p,
        store: None,
        second: None,
        forest: None,
        builder: StreamBuilder::new(p.cfg.real(), secrets(p.secrets)),
        items: Rc::new(vec![]),
        roots: vec![],
        log: Default::default(),
        crashes: 0,
        res: RunResult::default(),
        trace,
    };
    let mut go = || -> R {
        phase("open", &["C22"]);
        if !w.open_once(&Faults::default())?.is_ok() {
            return violation("open", "the database can not be opened".into());
        }
        for op in &p.ops {
            w.step(op)?;
        }
        w.read(Read::Iter, true, &Faults::default())?;
        w.crash()?;
        w.read(Read::Iter, true, &Faults::default())
    };
    let r = go();
    match r {
        Ok(()) | Err(Stop::End) => {}
        Err(Stop::Violation { class, msg }) => w.res.violation = Some((class, msg)),
        Err(Stop::Foreign(x)) => w.res.foreign = Some(x),
    }
    vfs::kill();
    w.close();
    vfs::bg_finish();
    let s = vfs::state();
    mixh(&mut w.res.hash, s.hash);
    w.res.sim_time = s.micros / 1000;
    *w.res.stats.entry("background_steps").or_default() += s.bg_steps;
    drop(s);
    let l = log(&w.log);
    *w.res.stats.entry("puts").or_default() += l.puts;
    *w.res.stats.entry("puts_confirmed").or_default() += l.acks;
    drop(l);
    w.res
}

pub fn about() -> About {
    About {
        rule: "a case is a seeded history of a stream in the SQLite store, with errors of the disk and crashes at any call to the file system, and what is left on the disk after each crash; non-trivial: at least one crash or error happened",
        real: "banyan-utils SqliteStore, banyan crate, ipfs-sqlite-block-store, rusqlite and SQLite itself with its log",
        stub: "the file system below SQLite (files, locks, shared memory, time, sleep, randomness)",
        measure: "hash of the set of blocks left after every crash, and of the length and root of the stream after every write",
        assumptions: &[
            "the disk keeps what was synced; a sector of 512 bytes is written completely or not at all",
            "the lost end of the log does not include what the database file already contains changes from",
        ],
        min_runs: 400,
    }
}
