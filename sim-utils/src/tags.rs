//! C24: tag and time queries on trees of tagged elements, against a model that looks at one
//! element at a time.
use crate::store::Store;
use banyan::index::{BranchLoader, Index};
use banyan::query::{AndQuery, OffsetRangeQuery, OrQuery, Query, QueryExt};
use banyan::store::{BranchCache, MemCache, ReadOnlyStore};
use banyan::{Forest, StreamBuilder, Transaction, Tree};
use banyan_utils::tag_index::{Tag, TagSet};
use banyan_utils::tags::{DnfQuery, Key, Sha256Digest, TT};
use fnv::FnvHashSet;
use futures::{stream, StreamExt};
use serde::{Deserialize, Serialize};
use simcore::engine::About;
use simcore::outcome::{guard, mixh, phase, runaway, Out, RunResult, Stop, R};
use simcore::plan::{secrets, Cfg};
use simcore::reads::{check_prefix, pull, pull_stream, Seq};
use simcore::rng::{mix, Rng};
use simcore::types::hash64;
use std::collections::BTreeSet;
use std::sync::Arc;

pub const POOL: [&str; 24] = [
    "a", "b", "c", "ab", "abc", "aa", "", " ", "A", "fizz", "buzz", "fizzbuzz",
    "we.like.long.identifiers.because.they.seem.professional",
    "we.like.long.identifiers.because.they.seem.professionaL",
    "exactly.22.bytes.long!", "exactly.23.bytes.long!!", "\u{e9}", "e\u{301}", "\u{1F600}", "'", "0",
    "00", "\u{0}", "z",
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct E {
    pub lamport: u64,
    pub time: u64,
    pub tags: Vec<u8>,
    pub len: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Alt {
    pub lo: u64,
    pub hi: u64,
    pub tags: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Qp {
    pub alts: Vec<Alt>,
    /// combined with a range of offsets
    pub and: Option<(u64, u64)>,
    pub or: Option<(u64, u64)>,
    pub shuffle: u64,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Style {
    Iter,
    IterRev,
    Stream,
    Chunked,
    ChunkedRev,
    StreamChunked,
    StreamChunkedRev,
    Index,
    IndexRev,
    Live,
    LiveChunked,
    LiveRev,
}
const STYLES: [Style; 12] = [
    Style::Iter,
    Style::IterRev,
    Style::Stream,
    Style::Chunked,
    Style::ChunkedRev,
    Style::StreamChunked,
    Style::StreamChunkedRev,
    Style::Index,
    Style::IndexRev,
    Style::Live,
    Style::LiveChunked,
    Style::LiveRev,
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Extend { elems: Vec<E>, unpacked: bool, fail: Option<(u32, u32)> },
    Pack { fail: Option<(u32, u32)> },
    /// new process: nothing but the store survives
    Reopen,
    ResetCache,
    Retain { q: Qp },
    Query { q: Qp, style: Style, range: (u64, u64), fail: Option<(u32, u32)> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TagPlan {
    pub cfg: Cfg,
    pub secrets: u8,
    pub cache: u32,
    pub mem: Option<(u32, u32)>,
    /// elements without any tag occur
    pub untagged: bool,
    pub ops: Vec<Op>,
}

fn tag(i: u8) -> Tag {
    Tag::from(POOL[i as usize % POOL.len()])
}
fn tagset(x: &[u8]) -> TagSet {
    x.iter().map(|i| tag(*i)).collect()
}

impl E {
    fn key(&self) -> Key {
        Key::single(self.lamport, self.time, tagset(&self.tags))
    }
    fn val(&self, n: usize) -> String {
        let mut s = format!("{}:", n);
        while s.len() < self.len as usize {
            s.push((b'a' + (s.len() % 23) as u8) as char);
        }
        s
    }
}

impl Alt {
    fn key(&self) -> Key {
        if self.lo == 0 && self.hi == u64::MAX {
            Key::filter_tags(tagset(&self.tags))
        } else {
            Key::range(self.lo, self.hi, tagset(&self.tags))
        }
    }
    fn accepts(&self, e: &E) -> bool {
        self.lo <= e.time && e.time <= self.hi && e.tags.iter().all(|t| self.tags.contains(t))
    }
    /// what the summary of some elements allows to exclude
    fn may(&self, s: &[(E, usize)]) -> bool {
        let min = s.iter().map(|x| x.0.time).min().unwrap_or(0);
        let max = s.iter().map(|x| x.0.time).max().unwrap_or(0);
        max >= self.lo
            && min <= self.hi
            && s.iter().any(|e| e.0.tags.iter().any(|t| self.tags.contains(t)))
    }
}

impl Qp {
    fn accepts(&self, offset: u64, e: &E) -> bool {
        let mut r = self.alts.iter().any(|a| a.accepts(e));
        if let Some((lo, hi)) = self.and {
            r = r && lo <= offset && offset < hi;
        }
        if let Some((lo, hi)) = self.or {
            r = r || (lo <= offset && offset < hi);
        }
        r
    }
    /// for the known finding: can the node at this offset be excluded?
    /// `lenient`: also if empty ranges of offsets are not recognized as such
    fn may(&self, offset: u64, s: &[(E, usize)], lenient: bool) -> bool {
        let end = offset + s.len() as u64;
        let mut r = self.alts.iter().any(|a| a.may(s));
        if let Some((lo, hi)) = self.and {
            r = r && (lenient || lo < hi) && lo < end && offset < hi;
        }
        if let Some((lo, hi)) = self.or {
            r = r || ((lenient || lo < hi) && lo < end && offset < hi);
        }
        r
    }
    fn real(&self) -> Arc<dyn Query<TT>> {
        let mut keys: Vec<Key> = self.alts.iter().map(|a| a.key()).collect();
        if self.shuffle != 0 {
            let mut r = Rng::new(self.shuffle);
            for i in (1..keys.len()).rev() {
                keys.swap(i, r.idx(i + 1));
            }
        }
        let mut q = DnfQuery(keys).boxed();
        if let Some((lo, hi)) = self.and {
            q = AndQuery(q, OffsetRangeQuery::from(lo..hi)).boxed();
        }
        if let Some((lo, hi)) = self.or {
            q = OrQuery(q, OffsetRangeQuery::from(lo..hi)).boxed();
        }
        q
    }
}

// ---------------------------------------------------------------------------------------------

pub struct Gen {
    pub rng: Rng,
    vocab: Vec<u8>,
    active: Vec<u8>,
    clock: u64,
    lamport: u64,
    untagged: bool,
    /// everything so far
    all: Vec<E>,
    time_mode: u64,
}

impl Gen {
    /// for histories of other kinds
    pub fn new(mut rng: Rng) -> Self {
        let mut vocab = BTreeSet::new();
        for _ in 0..rng.range(1, 12) {
            vocab.insert(rng.below(POOL.len() as u64) as u8);
        }
        Gen {
            time_mode: rng.below(3),
            rng,
            vocab: vocab.into_iter().collect(),
            active: vec![],
            clock: 0,
            lamport: 0,
            untagged: false,
            all: vec![],
        }
    }
    pub fn elem(&mut self) -> E {
        if self.rng.pct(15) || self.active.is_empty() {
            let n = self.rng.range(1, 4.min(self.vocab.len() as u64)) as usize;
            self.active = (0..n).map(|_| *self.rng.pick(&self.vocab)).collect();
        }
        let n = match self.rng.below(12) {
            0 => self.rng.range(3, 9),
            1 | 2 => 3,
            3..=6 => 2,
            _ => 1,
        };
        let mut tags = BTreeSet::new();
        for _ in 0..n {
            let from = if self.rng.pct(8) { &self.vocab } else { &self.active };
            let t = *self.rng.pick(from);
            tags.insert(t);
        }
        if self.untagged && self.rng.pct(25) {
            tags.clear();
        }
        self.lamport += self.rng.below(3);
        self.clock = match self.time_mode {
            0 => self.clock.saturating_add(self.rng.below(4)),
            1 => self.rng.below(40),
            _ => match self.rng.below(8) {
                0 => 0,
                1 => u64::MAX,
                2 => u64::MAX - 1,
                3 => 1,
                _ => self.rng.skewed(u64::MAX),
            },
        };
        let e = E {
            lamport: self.lamport,
            time: self.clock,
            tags: tags.into_iter().collect(),
            len: match self.rng.below(10) {
                0 => self.rng.below(400) as u16,
                _ => self.rng.below(12) as u16,
            },
        };
        self.all.push(e.clone());
        e
    }
    fn alt(&mut self) -> Alt {
        let mut tags = BTreeSet::new();
        let r = &mut self.rng;
        match r.below(10) {
            // everything but one
            0 => {
                tags.extend(self.vocab.iter().copied());
                let t = *r.pick(&self.vocab);
                tags.remove(&t);
            }
            1 => tags.extend(self.vocab.iter().copied()),
            2 => {}
            3..=6 if !self.all.is_empty() => {
                for _ in 0..r.range(1, 3) {
                    tags.extend(r.pick(&self.all).tags.iter().copied());
                }
            }
            _ => {
                for _ in 0..r.range(1, 4) {
                    tags.insert(*r.pick(&self.vocab));
                }
            }
        }
        // tags that do not occur anywhere
        if r.pct(30) {
            for _ in 0..r.range(1, 3) {
                tags.insert(r.below(POOL.len() as u64) as u8);
            }
        }
        let (mut lo, mut hi) = (0, u64::MAX);
        if r.pct(50) && !self.all.is_empty() {
            let a = r.pick(&self.all).time;
            let b = r.pick(&self.all).time;
            lo = a.min(b);
            hi = a.max(b);
            match r.below(6) {
                0 => lo = 0,
                1 => hi = u64::MAX,
                2 => hi = lo,
                3 => lo = lo.saturating_add(1),
                _ => {}
            }
        }
        Alt { lo, hi, tags: tags.into_iter().collect() }
    }
    pub fn query(&mut self) -> Qp {
        let n = match self.rng.below(12) {
            0 => 0,
            1..=4 => 1,
            5..=7 => 2,
            8 | 9 => 3,
            _ => self.rng.range(4, 7),
        };
        let alts = (0..n).map(|_| self.alt()).collect();
        let count = self.all.len() as u64;
        let range = |r: &mut Rng| {
            let a = r.below(count + 1);
            let b = r.below(count + 3);
            Some((a.min(b), a.max(b)))
        };
        let and = if self.rng.pct(20) { range(&mut self.rng) } else { None };
        let or = if self.rng.pct(10) { range(&mut self.rng) } else { None };
        Qp {
            alts,
            and,
            or,
            shuffle: if self.rng.bool() { self.rng.u64() } else { 0 },
        }
    }
}

pub fn generate(seed: u64) -> TagPlan {
    let mut rng = Rng::new(mix(seed, 0x7a65));
    let untagged = rng.pct(10);
    let mut vocab = BTreeSet::new();
    for _ in 0..rng.range(1, 12) {
        vocab.insert(rng.below(POOL.len() as u64) as u8);
    }
    let cfg = Cfg::random(&mut rng);
    let time_mode = rng.below(3);
    let mut g = Gen {
        rng,
        vocab: vocab.into_iter().collect(),
        active: vec![],
        clock: 0,
        lamport: 0,
        untagged,
        all: vec![],
        time_mode,
    };
    let faults = g.rng.pct(40);
    let retain = !untagged && g.rng.pct(25);
    let mut retained = false;
    let mut ops = vec![];
    let max_batch = *g.rng.pick(&[5, 20, 60, 200]);
    let fail = |r: &mut Rng| {
        if faults && r.pct(20) {
            Some((r.skewed(25) as u32, 1 + r.skewed(3) as u32))
        } else {
            None
        }
    };
    for _ in 0..g.rng.range(3, 16) {
        let op = match g.rng.weighted(&[
            10,
            4,
            if retained { 0 } else { 3 },
            3,
            1,
            if retain { 1 } else { 0 },
            22,
        ]) {
            0 => {
                let n = 1 + g.rng.skewed(max_batch);
                let elems = (0..n).map(|_| g.elem()).collect();
                Op::Extend { elems, unpacked: false, fail: fail(&mut g.rng) }
            }
            1 => {
                let n = 1 + g.rng.skewed(12);
                let elems = (0..n).map(|_| g.elem()).collect();
                Op::Extend { elems, unpacked: true, fail: fail(&mut g.rng) }
            }
            2 => Op::Pack { fail: fail(&mut g.rng) },
            3 => Op::Reopen,
            4 => Op::ResetCache,
            5 => {
                retained = true;
                Op::Retain { q: g.query() }
            }
            _ => {
                let q = g.query();
                let n = g.all.len() as u64;
                let (a, b) = (g.rng.below(n + 1), g.rng.below(n + 2));
                Op::Query {
                    q,
                    style: *g.rng.pick(&STYLES),
                    range: (a.min(b), a.max(b)),
                    fail: fail(&mut g.rng),
                }
            }
        };
        ops.push(op);
    }
    // in the end ask everything
    let q = g.query();
    for style in STYLES {
        let n = g.all.len() as u64;
        ops.push(Op::Query {
            q: q.clone(),
            style,
            range: (0, n),
            fail: None,
        });
    }
    TagPlan {
        cfg,
        secrets: g.rng.below(3) as u8,
        cache: *g.rng.pick(&[0, 0, 800, 3000, 1 << 26]),
        mem: if g.rng.pct(20) { Some((1000, 5000)) } else { None },
        untagged,
        ops,
    }
}

pub fn shrink(p: &TagPlan) -> Vec<TagPlan> {
    let mut res = vec![];
    let n = p.ops.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut from = 0;
        while from < n {
            let to = (from + size).min(n);
            let mut q = p.clone();
            q.ops.drain(from..to);
            res.push(q);
            from = to;
        }
        size /= 2;
    }
    let with = |i: usize, op: Op| {
        let mut q = p.clone();
        q.ops[i] = op;
        q
    };
    for i in 0..n {
        match &p.ops[i] {
            Op::Extend { elems, unpacked, fail } => {
                let mut size = elems.len() / 2;
                while size >= 1 {
                    let mut from = 0;
                    while from < elems.len() && elems.len() > size {
                        let to = (from + size).min(elems.len());
                        let mut e = elems.clone();
                        e.drain(from..to);
                        res.push(with(i, Op::Extend { elems: e, unpacked: *unpacked, fail: *fail }));
                        from = to;
                    }
                    size /= 2;
                }
                if fail.is_some() {
                    res.push(with(i, Op::Extend { elems: elems.clone(), unpacked: *unpacked, fail: None }));
                }
                if elems.len() < 6 {
                    for (j, e) in elems.iter().enumerate() {
                        for (k, _) in e.tags.iter().enumerate() {
                            if e.tags.len() > 1 {
                                let mut x = elems.clone();
                                x[j].tags.remove(k);
                                res.push(with(i, Op::Extend { elems: x, unpacked: *unpacked, fail: *fail }));
                            }
                        }
                    }
                }
            }
            Op::Query { q, style, range, fail } => {
                let mut alt = vec![];
                for j in 0..q.alts.len() {
                    let mut x = q.clone();
                    x.alts.remove(j);
                    alt.push(x);
                    for k in 0..q.alts[j].tags.len() {
                        let mut x = q.clone();
                        x.alts[j].tags.remove(k);
                        alt.push(x);
                    }
                    if (q.alts[j].lo, q.alts[j].hi) != (0, u64::MAX) {
                        let mut x = q.clone();
                        x.alts[j].lo = 0;
                        x.alts[j].hi = u64::MAX;
                        alt.push(x);
                    }
                }
                if q.and.is_some() {
                    alt.push(Qp { and: None, ..q.clone() });
                }
                if q.or.is_some() {
                    alt.push(Qp { or: None, ..q.clone() });
                }
                if q.shuffle != 0 {
                    alt.push(Qp { shuffle: 0, ..q.clone() });
                }
                for q in alt {
                    res.push(with(i, Op::Query { q, style: *style, range: *range, fail: *fail }));
                }
                if fail.is_some() {
                    res.push(with(i, Op::Query { q: q.clone(), style: *style, range: *range, fail: None }));
                }
                if *style != Style::Iter {
                    res.push(with(i, Op::Query { q: q.clone(), style: Style::Iter, range: *range, fail: *fail }));
                }
            }
            _ => {}
        }
    }
    if p.cache != 0 {
        res.push(TagPlan { cache: 0, ..p.clone() });
    }
    if p.mem.is_some() {
        res.push(TagPlan { mem: None, ..p.clone() });
    }
    let simple = Cfg { msb: 2, mkb: 2, mlc: 2, tls: 10000, mul: 16 << 20, zl: 1 };
    if p.cfg != simple {
        res.push(TagPlan { cfg: simple, ..p.clone() });
    }
    res
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
enum Rd {
    Plain(Store),
    Mem(MemCache<Sha256Digest, Store>),
}
impl ReadOnlyStore<Sha256Digest> for Rd {
    fn get(&self, link: &Sha256Digest) -> anyhow::Result<Box<[u8]>> {
        match self {
            Rd::Plain(x) => x.get(link),
            Rd::Mem(x) => x.get(link),
        }
    }
}
type F = Forest<TT, Rd>;
type Item = (u64, Key, String);
/// link of the leaf, its offsets, offsets of the nodes above it
type Leaves = Vec<(Sha256Digest, std::ops::Range<u64>, Vec<std::ops::Range<u64>>)>;

struct World<'a> {
    p: &'a TagPlan,
    store: Store,
    cache: BranchCache<TT>,
    forest: F,
    builder: StreamBuilder<TT, String>,
    elems: Vec<E>,
    live: Vec<bool>,
    /// snapshots since the last retain
    snaps: Vec<Tree<TT, String>>,
    res: RunResult,
    trace: bool,
}

fn violation<T>(class: &str, msg: String) -> R<T> {
    Err(Stop::Violation { class: class.into(), msg })
}
fn foreign<T>(msg: String) -> R<T> {
    Err(Stop::Foreign(msg))
}

fn no_extra(_: &banyan::index::NodeInfo<TT, Rd>) {}

impl<'a> World<'a> {
    fn mk_forest(p: &TagPlan, store: &Store) -> (F, BranchCache<TT>) {
        let cache = BranchCache::new(p.cache as usize);
        let rd = match p.mem {
            Some((s, c)) => Rd::Mem(MemCache::new(store.clone(), s as usize, c as usize)),
            None => Rd::Plain(store.clone()),
        };
        (Forest::new(rd, cache.clone()), cache)
    }
    fn say(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let s = f();
            self.res.trace.push(s);
        }
    }
    fn count(&mut self, k: &'static str, n: u64) {
        *self.res.stats.entry(k).or_default() += n;
    }
    fn txn(&self) -> Transaction<TT, Rd, Store> {
        Transaction::new(self.forest.clone(), self.store.clone())
    }
    fn snap(&mut self) {
        let t = self.builder.snapshot();
        if let Some(i) = t.index() {
            let x = mix(mix(t.count(), i.level() as u64), hash64(1, &t.link().map(|l| l.to_string().into_bytes()).unwrap_or_default()));
            self.res.states.push(x);
            mixh(&mut self.res.hash, x);
        }
        self.snaps.push(t);
    }

    fn step(&mut self, op: &Op) -> R {
        self.res.sim_time += 1;
        match op {
            Op::Extend { elems, unpacked, fail } => {
                phase("extend", &["C24"]);
                let from = self.elems.len();
                let items: Vec<(Key, String)> = elems
                    .iter()
                    .enumerate()
                    .map(|(i, e)| (e.key(), e.val(from + i)))
                    .collect();
                self.store.arm(None, *fail);
                let mut txn = self.txn();
                let b = &mut self.builder;
                let out = guard(|| {
                    if *unpacked {
                        txn.extend_unpacked(b, items)
                    } else {
                        txn.extend(b, items)
                    }
                });
                let fired = self.store.disarm();
                self.say(|| format!("{:?} elements, unpacked {}: {}", elems.len(), unpacked, out.describe()));
                self.count("write", 1);
                self.count("fault_put_fail", fired);
                match out {
                    Out::Ok(()) => {
                        self.elems.extend(elems.iter().cloned());
                        self.live.resize(self.elems.len(), true);
                    }
                    Out::Err(_) if fired > 0 => {}
                    Out::Err(e) if e.contains("too large") => {}
                    x => return foreign(format!("extend: {}", x.describe())),
                }
                if self.builder.count() != self.elems.len() as u64 {
                    return foreign(format!("stream has {} elements, not {}", self.builder.count(), self.elems.len()));
                }
                self.snap();
            }
            Op::Pack { fail } => {
                phase("pack", &["C24"]);
                self.store.arm(None, *fail);
                let mut txn = self.txn();
                let b = &mut self.builder;
                let out = guard(|| txn.pack(b));
                let fired = self.store.disarm();
                self.say(|| format!("pack: {}", out.describe()));
                self.count("pack", 1);
                self.count("fault_put_fail", fired);
                match out {
                    Out::Ok(()) => {}
                    Out::Err(_) if fired > 0 => {}
                    // packing is not possible any more after retain
                    Out::Err(_) if self.live.contains(&false) => {}
                    x => return foreign(format!("pack: {}", x.describe())),
                }
                if self.builder.count() != self.elems.len() as u64 {
                    return foreign(format!("stream has {} elements, not {}", self.builder.count(), self.elems.len()));
                }
                self.snap();
            }
            Op::Reopen => {
                phase("reopen", &["C24"]);
                let link = match self.builder.link() {
                    Some(x) => x,
                    None => return Ok(()),
                };
                // a stream whose root is a bare leaf has a link, but can not be loaded
                if self.builder.level() <= 0 {
                    return Ok(());
                }
                let (f, c) = Self::mk_forest(self.p, &self.store);
                let s = secrets(self.p.secrets);
                let cfg = self.p.cfg.real();
                let out = guard(|| f.load_stream_builder(s, cfg, link));
                self.say(|| format!("reopen: {:?}", out.is_ok()));
                self.count("reopen", 1);
                match out {
                    Out::Ok(b) => {
                        self.forest = f;
                        self.cache = c;
                        self.builder = b;
                    }
                    x => return foreign(format!("reopen: {}", x.describe())),
                }
                self.snap();
            }
            Op::ResetCache => {
                self.cache.reset(std::num::NonZeroUsize::new(1.max(self.p.cache as usize)).unwrap());
                self.say(|| "cache reset".into());
            }
            Op::Retain { q } => self.retain(q)?,
            Op::Query { q, style, range, fail } => self.query(q, *style, *range, *fail)?,
        }
        Ok(())
    }

    fn want(&self, q: &Qp, range: (u64, u64)) -> Vec<Item> {
        (range.0..range.1.min(self.elems.len() as u64))
            .filter(|i| self.live[*i as usize] && q.accepts(*i, &self.elems[*i as usize]))
            .map(|i| {
                let e = &self.elems[i as usize];
                (i, e.key(), e.val(i as usize))
            })
            .collect()
    }

    fn retain(&mut self, q: &Qp) -> R {
        phase("retain", &["C24"]);
        let real = q.real();
        let mut txn = self.txn();
        let b = &mut self.builder;
        let out = guard(|| txn.retain(b, &real));
        self.say(|| format!("retain {:?}: {}", q, out.describe()));
        self.count("retain", 1);
        match out {
            Out::Ok(()) => {}
            x => return foreign(format!("retain: {}", x.describe())),
        }
        let tree = self.builder.snapshot();
        let f = self.forest.clone();
        let all = match guard(|| f.collect(&tree)) {
            Out::Ok(x) => x,
            x => return foreign(format!("reading after retain: {}", x.describe())),
        };
        if all.len() != self.elems.len() {
            return foreign(format!("{} elements after retain, not {}", all.len(), self.elems.len()));
        }
        for (i, x) in all.iter().enumerate() {
            match x {
                None => {
                    if self.live[i] && q.accepts(i as u64, &self.elems[i]) {
                        return violation(
                            "retain-lost",
                            format!("element {} ({:?}) matches the query {:?}, but retain removed it", i, self.elems[i], q),
                        );
                    }
                    self.live[i] = false;
                }
                Some((k, v)) => {
                    if !self.live[i] || *k != self.elems[i].key() || *v != self.elems[i].val(i) {
                        return foreign(format!("element {} changed in retain", i));
                    }
                }
            }
        }
        self.snaps.clear();
        self.snap();
        Ok(())
    }

    /// leaves with their ranges; and for each leaf the nodes above that are children of a branch
    fn leaves(&self, tree: &Tree<TT, String>) -> anyhow::Result<Leaves> {
        let mut res = vec![];
        fn go(
            f: &F,
            s: &banyan::Secrets,
            i: &Index<TT>,
            offset: u64,
            path: &mut Vec<std::ops::Range<u64>>,
            res: &mut Leaves,
        ) -> anyhow::Result<()> {
            match i {
                Index::Leaf(l) => {
                    if let Some(link) = l.link {
                        res.push((link, offset..offset + i.count(), path.clone()));
                    }
                }
                Index::Branch(b) => {
                    if let Some(link) = b.link {
                        let branch = BranchLoader::new(f, s, link).load_cached()?;
                        let mut o = offset;
                        for c in branch.children.iter() {
                            path.push(o..o + c.count());
                            go(f, s, c, o, path, res)?;
                            path.pop();
                            o += c.count();
                        }
                    }
                }
            }
            Ok(())
        }
        if let (Some(i), Some(s)) = (tree.index(), tree.secrets()) {
            go(&self.forest, s, i, 0, &mut vec![], &mut res)?;
        }
        Ok(res)
    }

    fn query(&mut self, q: &Qp, style: Style, range: (u64, u64), fail: Option<(u32, u32)>) -> R {
        phase(&format!("{:?}", style), &["C24"]);
        let tree = self.builder.snapshot();
        let n = tree.count();
        let want = self.want(q, (0, n));
        if !want.is_empty() && (want.len() as u64) < n {
            self.res.nontrivial = true;
        }
        self.count("query", 1);
        self.count("elements", want.len() as u64);
        let leaves = match self.leaves(&tree) {
            Ok(x) => x,
            Err(e) => return foreign(format!("walk: {}", e)),
        };
        let real = q.real();
        let f = self.forest.clone();
        self.store.arm(fail, None);
        if matches!(style, Style::Index | Style::IndexRev) {
            let t = tree.clone();
            let got: Seq<(Option<Sha256Digest>, bool)> = if style == Style::Index {
                pull(|| Box::new(f.iter_index(&t, real)))
            } else {
                pull(|| Box::new(f.iter_index_reverse(&t, real)))
            }
            .map(|i| (*i.link(), matches!(i, Index::Leaf(_))));
            let fired = self.store.disarm();
            self.count("fault_get_fail", fired);
            mixh(&mut self.res.hash, got.items.len() as u64);
            self.say(|| format!("{:?} {:?}: {} nodes, error {:?}", style, q, got.items.len(), got.err));
            if let Some(p) = got.panic {
                return if runaway(&p) { violation("endless", p) } else { violation("panic", format!("{:?} {:?}: {}", style, q, p)) };
            }
            if let Some(e) = got.err {
                return if fired > 0 { Ok(()) } else { violation("error", format!("{:?} {:?}: {}", style, q, e)) };
            }
            let links: Vec<Sha256Digest> = got.items.iter().filter(|x| x.1).filter_map(|x| x.0).collect();
            for (link, r, path) in &leaves {
                let hit = want.iter().find(|x| r.contains(&x.0));
                if let Some(x) = hit {
                    if !links.contains(link) {
                        if self.p.untagged && !self.reachable(q, path) {
                            self.known();
                            continue;
                        }
                        return violation(
                            "index",
                            format!("{:?} with {:?} does not return the leaf {:?} that contains element {} ({:?})", style, q, r, x.0, self.elems[x.0 as usize]),
                        );
                    }
                }
            }
            return Ok(());
        }
        let live_range = range.0..=range.1;
        let snaps: Vec<Tree<TT, String>> = self.snaps.clone();
        let t = tree.clone();
        let selective = matches!(style, Style::Iter | Style::IterRev | Style::Stream)
            && fail.is_none()
            && !self.p.untagged;
        let (got, want): (Seq<Item>, Vec<Item>) = match style {
            Style::Iter => (pull(|| Box::new(f.iter_filtered(&t, real))), want),
            Style::IterRev => (
                pull(|| Box::new(f.iter_filtered_reverse(&t, real))),
                want.into_iter().rev().collect(),
            ),
            Style::Stream => (pull_stream(move || f.stream_filtered(&t, real).boxed_local()), want),
            Style::Chunked | Style::ChunkedRev | Style::StreamChunked | Style::StreamChunkedRev => {
                let rev = matches!(style, Style::ChunkedRev | Style::StreamChunkedRev);
                let c = match style {
                    Style::Chunked => pull(|| Box::new(f.iter_filtered_chunked(&t, real, &no_extra))),
                    Style::ChunkedRev => pull(|| Box::new(f.iter_filtered_chunked_reverse(&t, real, &no_extra))),
                    Style::StreamChunked => pull_stream(move || f.stream_filtered_chunked(&t, real, &no_extra).boxed_local()),
                    _ => pull_stream(move || f.stream_filtered_chunked_reverse(&t, real, &no_extra).boxed_local()),
                };
                (flat(c, rev), if rev { want.into_iter().rev().collect() } else { want })
            }
            Style::Live => {
                (pull_stream(move || f.stream_trees(real, stream::iter(snaps)).boxed_local()), want)
            }
            Style::LiveChunked => {
                let c = pull_stream(move || {
                    f.stream_trees_chunked(real, stream::iter(snaps), live_range, &no_extra).boxed_local()
                });
                (flat(c, false), self.want(q, (range.0, range.1.saturating_add(1))))
            }
            Style::LiveRev => {
                let last = snaps.last().cloned().into_iter();
                let c = pull_stream(move || {
                    f.stream_trees_chunked_reverse(real, stream::iter(last), live_range, &no_extra).boxed_local()
                });
                (flat(c, true), self.want(q, (range.0, range.1.saturating_add(1))).into_iter().rev().collect())
            }
            Style::Index | Style::IndexRev => unreachable!(),
        };
        let fired = self.store.disarm();
        self.count("fault_get_fail", fired);
        for x in &got.items {
            mixh(&mut self.res.hash, x.0);
        }
        mixh(&mut self.res.hash, got.err.is_some() as u64);
        self.say(|| {
            format!(
                "{:?} {:?}: {:?}, error {:?}",
                style,
                q,
                got.items.iter().map(|x| x.0).collect::<Vec<_>>(),
                got.err
            )
        });
        let live = matches!(style, Style::Live | Style::LiveChunked | Style::LiveRev);
        if got.err.is_some() && fired == 0 {
            return violation("error", format!("{:?} with {:?}: {}", style, q, got.err.unwrap()));
        }
        if let Some(p) = &got.panic {
            return violation("panic", format!("{:?} with {:?}: {}", style, q, p));
        }
        if live && fired > 0 {
            // the answer continues with the next snapshot, how the error shows up is not the topic
            let mut pos = 0;
            for x in &got.items {
                match want[pos..].iter().position(|w| w == x) {
                    Some(k) => pos += k + 1,
                    None => return violation("elements", self.differ(&got.items, &want, q, style)),
                }
            }
            return Ok(());
        }
        let show = |x: &[Item]| format!("{:?}", x.iter().map(|x| x.0).collect::<Vec<_>>());
        if check_prefix(&got, &want, show).is_err() {
            if self.p.untagged {
                // everything that is missing has no tags and is below a branch that can be excluded;
                // older snapshots in live streams have other shapes
                let mut rest: Vec<&Item> = vec![];
                let mut pos = 0;
                let mut ok = got.panic.is_none() && !got.endless && !got.more;
                for w in &want {
                    if got.items.get(pos) == Some(w) {
                        pos += 1;
                        ok &= rest.iter().all(|x| self.hidden(q, x.0, &leaves, live));
                        rest.clear();
                    } else {
                        rest.push(w);
                    }
                }
                ok &= pos == got.items.len();
                ok &= got.err.is_some() || rest.iter().all(|x| self.hidden(q, x.0, &leaves, live));
                if ok {
                    self.known();
                    return Ok(());
                }
            }
            return violation("elements", self.differ(&got.items, &want, q, style));
        }
        if selective {
            self.selective(q, style, &tree, &want)?;
        }
        Ok(())
    }

    /// the known finding
    fn hidden(&self, q: &Qp, offset: u64, leaves: &Leaves, live: bool) -> bool {
        self.elems[offset as usize].tags.is_empty()
            && (live
                || leaves
                    .iter()
                    .find(|l| l.1.contains(&offset))
                    .map(|l| !self.reachable(q, &l.2))
                    .unwrap_or(false))
    }

    fn known(&mut self) {
        if self.res.known.is_empty() {
            self.res.known.push((
                "untagged".into(),
                "an element without tags is accepted by the query, but not returned when no other element below the same branch has one of the tags of the query".into(),
            ));
        }
    }

    /// are all nodes on the way to a leaf visited, given what summaries tell?
    fn reachable(&self, q: &Qp, path: &[std::ops::Range<u64>]) -> bool {
        path.iter().all(|r| self.may(q, r, false))
    }

    fn may(&self, q: &Qp, r: &std::ops::Range<u64>, lenient: bool) -> bool {
        let s: Vec<(E, usize)> = (r.start..r.end)
            .map(|i| (self.elems[i as usize].clone(), i as usize))
            .collect();
        q.may(r.start, &s, lenient)
    }

    /// links of branches that are not ruled out, and of leaves with accepted elements in them
    fn needed(
        &self,
        q: &Qp,
        s: &banyan::Secrets,
        i: &Index<TT>,
        offset: u64,
        res: &mut FnvHashSet<Sha256Digest>,
    ) -> anyhow::Result<()> {
        match i {
            Index::Leaf(l) => {
                if let Some(link) = l.link {
                    if (offset..offset + i.count()).any(|o| q.accepts(o, &self.elems[o as usize])) {
                        res.insert(link);
                    }
                }
            }
            Index::Branch(b) => {
                if let Some(link) = b.link {
                    res.insert(link);
                    let branch = BranchLoader::new(&self.forest, s, link).load_cached()?;
                    let mut o = offset;
                    for c in branch.children.iter() {
                        if self.may(q, &(o..o + c.count()), true) {
                            self.needed(q, s, c, o, res)?;
                        }
                        o += c.count();
                    }
                }
            }
        }
        Ok(())
    }

    /// the same query when only the needed blocks are available
    fn selective(&mut self, q: &Qp, style: Style, tree: &Tree<TT, String>, want: &[Item]) -> R {
        let mut need = FnvHashSet::default();
        if let (Some(i), Some(s)) = (tree.index(), tree.secrets()) {
            if let Err(e) = self.needed(q, s, i, 0, &mut need) {
                return foreign(format!("walk: {}", e));
            }
        }
        let n = need.len();
        let f: F = Forest::new(Rd::Plain(self.store.clone()), BranchCache::new(0));
        self.store.lock().only = Some(need);
        let (t, real) = (tree.clone(), q.real());
        let got = match style {
            Style::Iter => pull(|| Box::new(f.iter_filtered(&t, real))),
            Style::IterRev => pull(|| Box::new(f.iter_filtered_reverse(&t, real))),
            _ => pull_stream(move || f.stream_filtered(&t, real).boxed_local()),
        };
        let all = {
            let mut s = self.store.lock();
            s.only = None;
            s.blocks.len()
        };
        let fired = self.store.disarm();
        self.count("fault_unneeded_unavailable", 1);
        if fired > 0 || got.err.is_some() {
            return violation(
                "not_selective",
                format!(
                    "{:?} with {:?} reads blocks that can not contain anything it accepts ({} of {} blocks are needed): {:?}",
                    style, q, n, all, got.err
                ),
            );
        }
        if got.panic.is_some() || got.items[..] != want[..] {
            return violation("elements", self.differ(&got.items, want, q, style));
        }
        Ok(())
    }

    fn differ(&self, got: &[Item], want: &[Item], q: &Qp, style: Style) -> String {
        let missing: Vec<&Item> = want.iter().filter(|w| !got.contains(w)).take(3).collect();
        let extra: Vec<&Item> = got.iter().filter(|g| !want.contains(g)).take(3).collect();
        format!(
            "{:?} with {:?} returns {} elements, not the {} elements that it accepts; missing {:?}, wrong {:?}",
            style,
            q,
            got.len(),
            want.len(),
            missing.iter().map(|x| (x.0, self.elems.get(x.0 as usize))).collect::<Vec<_>>(),
            extra.iter().map(|x| (x.0, self.elems.get(x.0 as usize))).collect::<Vec<_>>(),
        )
    }
}

fn flat(c: Seq<banyan::FilteredChunk<Item, ()>>, rev: bool) -> Seq<Item> {
    let mut items = vec![];
    for x in c.items {
        if rev {
            items.extend(x.data.into_iter().rev());
        } else {
            items.extend(x.data);
        }
    }
    Seq {
        items,
        err: c.err,
        more: c.more,
        endless: c.endless,
        panic: c.panic,
    }
}

pub fn run(p: &TagPlan, trace: bool) -> RunResult {
    let store = Store::default();
    let (forest, cache) = World::mk_forest(p, &store);
    let mut w = World {
        p,
        store,
        cache,
        forest,
        builder: StreamBuilder::new(p.cfg.real(), secrets(p.secrets)),
        elems: vec![],
        live: vec![],
        snaps: vec![],
        res: RunResult::default(),
        trace,
    };
    for op in &p.ops {
        match w.step(op) {
            Ok(()) => {}
            Err(Stop::End) => break,
            Err(Stop::Violation { class, msg }) => {
                w.res.violation = Some((class, msg));
                break;
            }
            Err(Stop::Foreign(x)) => {
                w.res.foreign = Some(x);
                break;
            }
        }
    }
    w.res
}

pub fn about() -> About {
    About {
        rule: "a case is a seeded history of tagged elements (appended, appended unpacked, packed, reopened, partly retained, with store failures) with tag and time queries in all reading styles; non-trivial: a query accepted some but not all elements",
        real: "banyan-utils DnfQuery, Key, KeySeq, TagIndex (with their encoding), banyan crate below them with encryption, compression and caches",
        stub: "block store (in memory, with failing reads and writes), the process (reopening drops everything but the store), executor for live streams over finitely many snapshots",
        measure: "hash of number of elements, level and root link after every successful write operation",
        assumptions: &[
            "what a query accepts one by one is given by the containment of keys in banyan-utils/src/tags.rs: time within the range, and all tags of the element among the tags of the alternative",
        ],
        min_runs: 2000,
    }
}
