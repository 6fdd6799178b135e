//! C25: nodes that run different versions of the code take turns with the same stream.
//!
//! The other version is a frozen copy in /verif/old. A stream is written, packed, pruned, repaired
//! and continued by whichever version happens to run, with failures and crashes in between; after
//! every step both versions have to see the same stream.
use crate::tags::{Alt, E, Qp, POOL};
use banyan::Secrets;
use fnv::{FnvHashMap, FnvHashSet};
use serde::{Deserialize, Serialize};
use simcore::engine::About;
use simcore::outcome::{mixh, phase, Out, RunResult, Stop, R};
use simcore::plan::{secrets, Cfg};
use simcore::rng::{mix, Rng};
use simcore::types::{hash64, make_val, Key as NumKey, Link, Shape, Val};
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Extend { elems: Vec<E>, unpacked: bool },
    Pack,
    Retain { q: Qp },
    /// these reachable blocks (modulo their number) are lost, then the stream is repaired
    Repair { lost: Vec<u32> },
    Query { q: Qp },
    /// the process starts again
    Restart,
    /// continue from an older root
    Older { n: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    /// by the version under test, or by the other one
    pub new: bool,
    pub act: Act,
    /// the n-th write fails
    pub fail: Option<u32>,
    /// the process dies after the operation, only so many of its blocks are kept
    pub crash: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WirePlan {
    /// trees with tags, or with plain sequences of keys
    pub tags: bool,
    pub cfg: Cfg,
    /// configuration of the other version
    pub cfg_old: Cfg,
    pub secrets: u8,
    pub ops: Vec<Op>,
}

#[derive(Default)]
pub struct Inner {
    blocks: FnvHashMap<Vec<u8>, Arc<[u8]>>,
    /// new blocks in the order in which they were written in this operation
    log: Vec<Vec<u8>>,
    put_fail: Option<u32>,
    puts: u32,
    calls: u64,
    fired: u64,
}
#[derive(Clone, Default)]
pub struct Disk(Arc<Mutex<Inner>>);
impl Disk {
    fn lock(&self) -> MutexGuard<'_, Inner> {
        match self.0.lock() {
            Ok(x) => x,
            Err(x) => x.into_inner(),
        }
    }
    fn get(&self, k: &[u8]) -> anyhow::Result<Box<[u8]>> {
        let mut s = self.lock();
        s.calls += 1;
        if s.calls > 2_000_000 {
            drop(s);
            panic!("{}", simcore::store::RUNAWAY);
        }
        s.blocks
            .get(k)
            .map(|x| (**x).into())
            .ok_or_else(|| anyhow::anyhow!("block not found"))
    }
    fn put(&self, k: Vec<u8>, data: Vec<u8>) -> anyhow::Result<()> {
        let mut s = self.lock();
        s.calls += 1;
        if s.calls > 2_000_000 {
            drop(s);
            panic!("{}", simcore::store::RUNAWAY);
        }
        let n = s.puts;
        s.puts += 1;
        if s.put_fail == Some(n) {
            s.fired += 1;
            anyhow::bail!("injected: put failed");
        }
        if s.blocks.insert(k.clone(), data.into()).is_none() {
            s.log.push(k);
        }
        Ok(())
    }
}

/// everything about a node that both versions have to agree on
#[derive(Clone, Debug, PartialEq)]
pub struct NodeView {
    leaf: bool,
    link: Option<String>,
    sealed: bool,
    level: u32,
    count: u64,
    value_bytes: u64,
    key_bytes: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct View {
    live: Vec<bool>,
    nodes: Vec<NodeView>,
}

/// a process that runs some version
pub trait Peer {
    fn open(&mut self, link: Option<&str>, cfg: &Cfg) -> Out<()>;
    fn root(&self) -> Option<String>;
    fn level(&self) -> i32;
    fn count(&self) -> u64;
    fn extend(&mut self, elems: &[E], from: usize, unpacked: bool) -> Out<()>;
    fn pack(&mut self) -> Out<()>;
    fn retain(&mut self, q: &Qp) -> Out<()>;
    fn repair(&mut self) -> Out<usize>;
    /// a cold read of some root, which compares what it finds with the given elements
    fn read(&self, link: &str, elems: &[E]) -> Out<View>;
    fn query(&self, link: &str, q: &Qp) -> Out<Vec<u64>>;
}

fn val(n: usize, e: &E) -> Val {
    let shape = match e.lamport % 7 {
        0 => Shape::Links { n: (e.len % 4) as u8 },
        1 => Shape::Odd,
        2 => Shape::Pad { len: e.len as u32, random: true },
        3 | 4 => Shape::Pad { len: e.len as u32, random: false },
        _ => Shape::Tiny,
    };
    make_val(n as u64, shape).0
}

fn num_key(e: &E) -> NumKey {
    NumKey {
        k: e.time,
        link: if e.lamport % 3 == 0 {
            Some(Link::of_id(e.time))
        } else {
            None
        },
    }
}

macro_rules! version {
    ($m:ident, {$($b:tt)*}, {$($t:tt)*}) => {
        mod $m {
            use super::{num_key, val, Disk, NodeView, Peer, View};
            use crate::tags::{Alt, E, Qp, POOL};
            use simcore::outcome::{guard, Out};
            use simcore::plan::Cfg;
            use simcore::rng::Rng;
            use simcore::types::{Key as NumKey, Val};
            use std::{str::FromStr, sync::Arc};
            use $($b)*::index::{BranchLoader, CompactSeq, Index, Summarizable, UnitSeq, VecSeq};
            use $($b)*::query::{AndQuery, OffsetRangeQuery, OrQuery, Query, QueryExt};
            use $($b)*::store::{BlockWriter, BranchCache, ReadOnlyStore};
            use $($b)*::{Config, Forest, Secrets, StreamBuilder, Transaction, Tree, TreeTypes};
            use $($t)*::tag_index::{Tag, TagSet};
            use $($t)*::tags::{DnfQuery, Key, Sha256Digest, TT};

            impl ReadOnlyStore<Sha256Digest> for Disk {
                fn get(&self, link: &Sha256Digest) -> anyhow::Result<Box<[u8]>> {
                    Disk::get(self, &libipld::Cid::from(*link).to_bytes())
                }
            }
            impl BlockWriter<Sha256Digest> for Disk {
                fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Sha256Digest> {
                    let link = Sha256Digest::digest(&data);
                    Disk::put(self, libipld::Cid::from(link).to_bytes(), data)?;
                    Ok(link)
                }
            }

            #[derive(Debug, Clone)]
            pub struct Plain;
            impl TreeTypes for Plain {
                type Key = NumKey;
                type KeySeq = VecSeq<NumKey>;
                type Summary = ();
                type SummarySeq = UnitSeq;
                type Link = Sha256Digest;
            }

            pub trait Fam: TreeTypes<Link = Sha256Digest> {
                fn key(e: &E) -> Self::Key;
                fn query(q: &Qp) -> Arc<dyn Query<Self>>;
            }
            fn tagset(x: &[u8]) -> TagSet {
                x.iter().map(|i| Tag::from(POOL[*i as usize % POOL.len()])).collect()
            }
            fn alt_key(a: &Alt) -> Key {
                if a.lo == 0 && a.hi == u64::MAX {
                    Key::filter_tags(tagset(&a.tags))
                } else {
                    Key::range(a.lo, a.hi, tagset(&a.tags))
                }
            }
            fn offsets<T: Fam>(q: Arc<dyn Query<T>>, p: &Qp) -> Arc<dyn Query<T>> {
                let mut q = q;
                if let Some((lo, hi)) = p.and {
                    q = AndQuery(q, OffsetRangeQuery::from(lo..hi)).boxed();
                }
                if let Some((lo, hi)) = p.or {
                    q = OrQuery(q, OffsetRangeQuery::from(lo..hi)).boxed();
                }
                q
            }
            impl Fam for TT {
                fn key(e: &E) -> Key {
                    Key::single(e.lamport, e.time, tagset(&e.tags))
                }
                fn query(q: &Qp) -> Arc<dyn Query<Self>> {
                    let mut keys: Vec<Key> = q.alts.iter().map(alt_key).collect();
                    if q.shuffle != 0 {
                        let mut r = Rng::new(q.shuffle);
                        for i in (1..keys.len()).rev() {
                            keys.swap(i, r.idx(i + 1));
                        }
                    }
                    offsets(DnfQuery(keys).boxed(), q)
                }
            }
            impl Fam for Plain {
                fn key(e: &E) -> NumKey {
                    num_key(e)
                }
                fn query(q: &Qp) -> Arc<dyn Query<Self>> {
                    offsets(OffsetRangeQuery::from(0..u64::MAX).boxed(), q)
                }
            }

            pub struct P<T: Fam> {
                disk: Disk,
                secrets: Secrets,
                forest: Forest<T, Disk>,
                builder: StreamBuilder<T, Val>,
            }

            fn config(c: &Cfg) -> Config {
                Config {
                    max_summary_branches: c.msb,
                    max_key_branches: c.mkb,
                    max_leaf_count: c.mlc,
                    target_leaf_size: c.tls,
                    max_uncompressed_leaf_size: c.mul,
                    zstd_level: c.zl,
                }
            }

            pub fn start(tags: bool, disk: &Disk, secrets: &banyan::Secrets, n: u8, cfg: &Cfg) -> Box<dyn Peer> {
                let secrets = match n {
                    // from a password
                    1 => Secrets::new(
                        $($t)*::create_chacha_key("password".into()),
                        $($t)*::create_chacha_key("a password of more than thirty-two characters".into()),
                    ),
                    _ => Secrets::new(*secrets.index_key(), *secrets.value_key()),
                };
                if tags {
                    Box::new(P::<TT>::new(disk, secrets, cfg))
                } else {
                    Box::new(P::<Plain>::new(disk, secrets, cfg))
                }
            }

            impl<T: Fam> P<T> {
                fn new(disk: &Disk, secrets: Secrets, cfg: &Cfg) -> Self {
                    Self {
                        disk: disk.clone(),
                        forest: Forest::new(disk.clone(), BranchCache::new(1 << 16)),
                        builder: StreamBuilder::new(config(cfg), secrets.clone()),
                        secrets,
                    }
                }
                fn cold(&self) -> Forest<T, Disk> {
                    Forest::new(self.disk.clone(), BranchCache::new(0))
                }
                fn txn(&self) -> Transaction<T, Disk, Disk> {
                    Transaction::new(self.forest.clone(), self.disk.clone())
                }
                fn visit(
                    &self,
                    f: &Forest<T, Disk>,
                    i: &Index<T>,
                    elems: &[E],
                    nodes: &mut Vec<NodeView>,
                ) -> anyhow::Result<()> {
                    anyhow::ensure!(i.count() == elems.len() as u64, "count of a node");
                    nodes.push(NodeView {
                        leaf: matches!(i, Index::Leaf(_)),
                        link: i.link().map(|x| x.to_string()),
                        sealed: i.sealed(),
                        level: i.level(),
                        count: i.count(),
                        value_bytes: i.value_bytes(),
                        key_bytes: i.key_bytes(),
                    });
                    let seq = |elems: &[E]| elems.iter().map(T::key).collect::<T::KeySeq>();
                    match i {
                        Index::Leaf(l) => {
                            anyhow::ensure!(l.keys.to_vec() == seq(elems).to_vec(), "keys of a leaf");
                        }
                        Index::Branch(b) => {
                            if let Some(link) = b.link {
                                let branch = BranchLoader::new(f, &self.secrets, link).load()?;
                                anyhow::ensure!(
                                    branch.children.len() == b.summaries.len(),
                                    "number of summaries"
                                );
                                let mut o = 0;
                                for (n, c) in branch.children.iter().enumerate() {
                                    let to = o + c.count() as usize;
                                    anyhow::ensure!(to <= elems.len(), "count of a branch");
                                    anyhow::ensure!(
                                        b.summaries.get(n) == Some(seq(&elems[o..to]).summarize()),
                                        "summary of a branch"
                                    );
                                    self.visit(f, c, &elems[o..to], nodes)?;
                                    o = to;
                                }
                            }
                        }
                    }
                    Ok(())
                }
            }

            impl<T: Fam> Peer for P<T> {
                fn open(&mut self, link: Option<&str>, cfg: &Cfg) -> Out<()> {
                    guard(|| {
                        self.forest = Forest::new(self.disk.clone(), BranchCache::new(1 << 16));
                        self.builder = match link {
                            None => StreamBuilder::new(config(cfg), self.secrets.clone()),
                            Some(link) => {
                                let link = Sha256Digest::from_str(link)?;
                                self.forest.load_stream_builder(self.secrets.clone(), config(cfg), link)?
                            }
                        };
                        Ok(())
                    })
                }
                fn root(&self) -> Option<String> {
                    self.builder.link().map(|x| x.to_string())
                }
                fn level(&self) -> i32 {
                    self.builder.level()
                }
                fn count(&self) -> u64 {
                    self.builder.count()
                }
                fn extend(&mut self, elems: &[E], from: usize, unpacked: bool) -> Out<()> {
                    let items: Vec<(T::Key, Val)> = elems
                        .iter()
                        .enumerate()
                        .map(|(i, e)| (T::key(e), val(from + i, e)))
                        .collect();
                    let mut txn = self.txn();
                    let b = &mut self.builder;
                    guard(|| {
                        if unpacked {
                            txn.extend_unpacked(b, items)
                        } else {
                            txn.extend(b, items)
                        }
                    })
                }
                fn pack(&mut self) -> Out<()> {
                    let mut txn = self.txn();
                    let b = &mut self.builder;
                    guard(|| txn.pack(b))
                }
                fn retain(&mut self, q: &Qp) -> Out<()> {
                    let mut txn = self.txn();
                    let b = &mut self.builder;
                    guard(|| txn.retain(b, &T::query(q)))
                }
                fn repair(&mut self) -> Out<usize> {
                    let mut txn = self.txn();
                    let b = &mut self.builder;
                    guard(|| txn.repair(b).map(|x| x.len()))
                }
                fn read(&self, link: &str, elems: &[E]) -> Out<View> {
                    guard(|| {
                        let f = self.cold();
                        let tree: Tree<T, Val> =
                            f.load_tree(self.secrets.clone(), Sha256Digest::from_str(link)?)?;
                        let mut nodes = vec![];
                        let root = tree.as_index_ref().unwrap();
                        self.visit(&f, root, elems, &mut nodes)?;
                        let all = f.collect(&tree)?;
                        anyhow::ensure!(all.len() == elems.len(), "{} elements", all.len());
                        for (i, x) in all.iter().enumerate() {
                            if let Some((k, v)) = x {
                                anyhow::ensure!(*k == T::key(&elems[i]), "key of element {}", i);
                                anyhow::ensure!(*v == val(i, &elems[i]), "value of element {}", i);
                            }
                        }
                        Ok(View { live: all.iter().map(|x| x.is_some()).collect(), nodes })
                    })
                }
                fn query(&self, link: &str, q: &Qp) -> Out<Vec<u64>> {
                    guard(|| {
                        let f = self.cold();
                        let tree: Tree<T, Val> =
                            f.load_tree(self.secrets.clone(), Sha256Digest::from_str(link)?)?;
                        f.iter_filtered(&tree, T::query(q)).map(|x| x.map(|x| x.0)).collect()
                    })
                }
            }
        }
    };
}

version!(current, {banyan}, {banyan_utils});
version!(frozen, {banyan_old}, {crate::old_tags});

pub fn generate(seed: u64) -> WirePlan {
    let mut rng = Rng::new(mix(seed, 0x3172));
    let cfg = Cfg::random(&mut rng);
    let cfg_old = if rng.pct(70) { cfg } else { Cfg::random(&mut rng) };
    let tags = rng.pct(70);
    let secrets = rng.below(4) as u8;
    let mut g = crate::tags::Gen::new(rng);
    let faults = g.rng.pct(50);
    let mut ops = vec![];
    let max_batch = *g.rng.pick(&[3, 10, 40, 150]);
    let mut new = g.rng.bool();
    let switch = *g.rng.pick(&[10, 40, 80]);
    let mut purged = false;
    for _ in 0..g.rng.range(2, 14) {
        if g.rng.pct(switch) {
            new = !new;
        }
        let act = match g.rng.weighted(&[10, 5, if purged { 0 } else { 4 }, 1, 1, 3, 2, 1]) {
            0 => {
                let n = 1 + g.rng.skewed(max_batch);
                Act::Extend { elems: (0..n).map(|_| g.elem()).collect(), unpacked: false }
            }
            1 => {
                let n = 1 + g.rng.skewed(12);
                Act::Extend { elems: (0..n).map(|_| g.elem()).collect(), unpacked: true }
            }
            2 => Act::Pack,
            3 => {
                purged = true;
                Act::Retain { q: g.query() }
            }
            4 => {
                purged = true;
                let n = g.rng.range(0, 2);
                Act::Repair { lost: (0..n).map(|_| g.rng.below(1000) as u32).collect() }
            }
            5 => Act::Query { q: g.query() },
            6 => Act::Restart,
            _ => Act::Older { n: g.rng.below(100) as u32 },
        };
        let fail = if faults && g.rng.pct(20) { Some(g.rng.skewed(12) as u32) } else { None };
        let crash = if faults && g.rng.pct(20) { Some(g.rng.skewed(12) as u32) } else { None };
        ops.push(Op { new, act, fail, crash });
    }
    WirePlan { tags, cfg, cfg_old, secrets, ops }
}

pub fn shrink(p: &WirePlan) -> Vec<WirePlan> {
    let mut res = vec![];
    let n = p.ops.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut from = 0;
        while from < n {
            let to = (from + size).min(n);
            let mut q = p.clone();
            q.ops.drain(from..to);
            res.push(q);
            from = to;
        }
        size /= 2;
    }
    for i in 0..n {
        let o = &p.ops[i];
        let mut with = |x: Op| {
            let mut q = p.clone();
            q.ops[i] = x;
            res.push(q);
        };
        if o.fail.is_some() {
            with(Op { fail: None, ..o.clone() });
        }
        if o.crash.is_some() {
            with(Op { crash: None, ..o.clone() });
        }
        match &o.act {
            Act::Extend { elems, unpacked } => {
                let mut size = elems.len() / 2;
                while size >= 1 {
                    let mut from = 0;
                    while from < elems.len() {
                        let to = (from + size).min(elems.len());
                        let mut e = elems.clone();
                        e.drain(from..to);
                        with(Op { act: Act::Extend { elems: e, unpacked: *unpacked }, ..o.clone() });
                        from = to;
                    }
                    size /= 2;
                }
                if elems.len() < 5 {
                    for j in 0..elems.len() {
                        let e = &elems[j];
                        for x in [
                            E { len: 0, ..e.clone() },
                            E { lamport: 6, ..e.clone() },
                            E { time: 1, ..e.clone() },
                            E { tags: vec![0], ..e.clone() },
                        ] {
                            if x != *e {
                                let mut l = elems.clone();
                                l[j] = x;
                                with(Op { act: Act::Extend { elems: l, unpacked: *unpacked }, ..o.clone() });
                            }
                        }
                    }
                }
            }
            Act::Query { q } if !q.alts.is_empty() => {
                let none: Vec<Alt> = vec![];
                with(Op { act: Act::Query { q: Qp { alts: none, ..q.clone() } }, ..o.clone() });
            }
            _ => {}
        }
    }
    let simple = Cfg { msb: 2, mkb: 2, mlc: 2, tls: 10000, mul: 16 << 20, zl: 1 };
    for q in [
        WirePlan { tags: false, ..p.clone() },
        WirePlan { secrets: 0, ..p.clone() },
        WirePlan { cfg_old: p.cfg, ..p.clone() },
        WirePlan { cfg: simple, cfg_old: simple, ..p.clone() },
    ] {
        if q != *p {
            res.push(q);
        }
    }
    res
}

struct World<'a> {
    p: &'a WirePlan,
    disk: Disk,
    /// who writes
    new: bool,
    writer: Box<dyn Peer>,
    elems: Vec<E>,
    live: Vec<bool>,
    /// all versions that wrote some part of the stream
    wrote: (bool, bool),
    /// root, number of elements, live elements, versions that wrote it
    roots: Vec<(String, Vec<E>, Vec<bool>, (bool, bool))>,
    res: RunResult,
    trace: bool,
}

fn foreign<T>(msg: String) -> R<T> {
    Err(Stop::Foreign(msg))
}
fn violation<T>(class: &str, msg: String) -> R<T> {
    Err(Stop::Violation { class: class.into(), msg })
}
fn name(new: bool) -> &'static str {
    if new {
        "this version"
    } else {
        "the other version"
    }
}

impl<'a> World<'a> {
    fn say(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let s = f();
            self.res.trace.push(s);
        }
    }
    fn count(&mut self, k: &'static str, n: u64) {
        *self.res.stats.entry(k).or_default() += n;
    }
    fn start(p: &WirePlan, disk: &Disk, new: bool) -> Box<dyn Peer> {
        let s: Secrets = secrets(p.secrets);
        if new {
            current::start(p.tags, disk, &s, p.secrets, &p.cfg)
        } else {
            frozen::start(p.tags, disk, &s, p.secrets, &p.cfg_old)
        }
    }
    fn cfg(&self, new: bool) -> Cfg {
        if new {
            self.p.cfg
        } else {
            self.p.cfg_old
        }
    }
    /// something went wrong in one of the versions. Only if the other version was involved, this is
    /// about compatibility
    fn blame<T>(&self, class: &str, by: bool, msg: String) -> R<T> {
        let other = if by { self.wrote.1 } else { self.wrote.0 };
        if other {
            violation(class, msg)
        } else {
            foreign(msg)
        }
    }
    /// start the process again, with the given version, from the last root
    fn restart(&mut self, new: bool) -> R {
        phase("open", &["C25"]);
        let last = self.roots.last().cloned();
        self.writer = Self::start(self.p, &self.disk, new);
        self.new = new;
        match last {
            None => {
                self.elems.clear();
                self.live.clear();
                self.wrote = (false, false);
            }
            Some((link, elems, live, wrote)) => {
                self.elems = elems;
                self.live = live;
                self.wrote = wrote;
                let cfg = self.cfg(new);
                match self.writer.open(Some(&link), &cfg) {
                    Out::Ok(()) => {}
                    x => {
                        return self.blame(
                            "open",
                            new,
                            format!("{} can not open {}: {}", name(new), link, x.describe()),
                        )
                    }
                }
                if self.writer.count() != self.elems.len() as u64 {
                    return self.blame(
                        "open",
                        new,
                        format!(
                            "{} finds {} elements instead of {}",
                            name(new),
                            self.writer.count(),
                            self.elems.len()
                        ),
                    );
                }
            }
        }
        Ok(())
    }
    fn reader(&self, new: bool) -> Box<dyn Peer> {
        Self::start(self.p, &self.disk, new)
    }

    /// both versions read the current root
    fn check(&mut self, ctx: &str) -> R {
        let link = match self.writer.root() {
            Some(x) if self.writer.level() > 0 => x,
            None if self.writer.count() > 0 => {
                // everything is purged
                self.live.iter_mut().for_each(|x| *x = false);
                return Ok(());
            }
            _ => return Ok(()),
        };
        phase("read", &["C25"]);
        let own = match self.reader(self.new).read(&link, &self.elems) {
            Out::Ok(x) => x,
            x => {
                return self.blame(
                    "content",
                    self.new,
                    format!("after {}: {} reads: {}", ctx, name(self.new), x.describe()),
                )
            }
        };
        let other = match self.reader(!self.new).read(&link, &self.elems) {
            Out::Ok(x) => x,
            x => {
                return violation(
                    "content",
                    format!(
                        "after {} by {}: {} reads: {}",
                        ctx,
                        name(self.new),
                        name(!self.new),
                        x.describe()
                    ),
                )
            }
        };
        if own != other {
            let d = own.nodes.iter().zip(&other.nodes).find(|(a, b)| a != b);
            return violation(
                "structure",
                format!(
                    "after {} by {}: {} sees {} nodes, {} {}; first difference {:?}",
                    ctx,
                    name(self.new),
                    name(self.new),
                    own.nodes.len(),
                    name(!self.new),
                    other.nodes.len(),
                    d
                ),
            );
        }
        for (i, l) in own.live.iter().enumerate() {
            if *l && !self.live[i] {
                return foreign(format!("element {} is back", i));
            }
        }
        self.live = own.live;
        let h = mix(own.nodes.len() as u64, hash64(own.nodes[0].level as u64, link.as_bytes()));
        self.res.states.push(h);
        mixh(&mut self.res.hash, h);
        self.count("roots_compared", 1);
        if self.roots.last().map(|x| &x.0) != Some(&link) {
            self.roots.push((link, self.elems.clone(), self.live.clone(), self.wrote));
        }
        self.res.nontrivial |= self.wrote.0 && self.wrote.1;
        Ok(())
    }

    fn step(&mut self, op: &Op) -> R {
        self.res.sim_time += 1;
        if op.new != self.new {
            self.count("version_change", 1);
            self.restart(op.new)?;
            self.check("a change of version")?;
        }
        {
            let mut d = self.disk.lock();
            d.log.clear();
            d.puts = 0;
            d.calls = 0;
            d.fired = 0;
            d.put_fail = op.fail;
        }
        phase("write", &["C25"]);
        let mut write = true;
        let mut keep = false;
        let (what, out) = match &op.act {
            Act::Extend { elems, unpacked } => {
                let out = self.writer.extend(elems, self.elems.len(), *unpacked);
                if out.is_ok() {
                    self.elems.extend(elems.iter().cloned());
                    self.live.resize(self.elems.len(), true);
                }
                keep = true;
                ("extend", out)
            }
            Act::Pack => {
                keep = true;
                ("pack", self.writer.pack())
            }
            Act::Retain { q } => ("retain", self.writer.retain(q)),
            Act::Repair { lost } => {
                let root = self.writer.root();
                let view = match (&root, self.writer.level() > 0) {
                    (Some(l), true) => self.reader(self.new).read(l, &self.elems),
                    _ => return Ok(()),
                };
                if let Out::Ok(v) = view {
                    // the root stays
                    let links: Vec<&String> =
                        v.nodes.iter().skip(1).filter_map(|x| x.link.as_ref()).collect();
                    let mut d = self.disk.lock();
                    for n in lost {
                        if !links.is_empty() {
                            let l = links[*n as usize % links.len()];
                            let cid = l.parse::<libipld::Cid>().unwrap();
                            d.blocks.remove(&cid.to_bytes());
                        }
                    }
                }
                // older roots may use what is gone
                self.roots.clear();
                let mut out = self.writer.repair();
                if self.disk.lock().fired > 0 && !out.is_ok() {
                    self.disk.lock().put_fail = None;
                    out = self.writer.repair();
                }
                ("repair", match out {
                    Out::Ok(_) => Out::Ok(()),
                    Out::Err(e) => Out::Err(e),
                    Out::Panic(e) => Out::Panic(e),
                })
            }
            Act::Query { q } => {
                write = false;
                if let (Some(link), true) = (self.writer.root(), self.writer.level() > 0) {
                    phase("query", &["C25"]);
                    let a = self.reader(true).query(&link, q);
                    let b = self.reader(false).query(&link, q);
                    match (&a, &b) {
                        (Out::Ok(x), Out::Ok(y)) if x == y => {
                            self.count("elements", x.len() as u64)
                        }
                        (Out::Ok(x), Out::Ok(y)) => {
                            return violation(
                                "query",
                                format!("{:?}: this version finds {:?}, the other {:?}", q, x, y),
                            )
                        }
                        (Out::Ok(_), _) => return foreign(format!("query: {}", b.describe())),
                        _ => {
                            return self.blame("query", true, format!("query: {}", a.describe()))
                        }
                    }
                }
                ("query", Out::Ok(()))
            }
            Act::Restart => {
                write = false;
                let r = self.restart(op.new);
                r?;
                ("restart", Out::Ok(()))
            }
            Act::Older { n } => {
                write = false;
                if !self.roots.is_empty() {
                    let n = *n as usize % self.roots.len();
                    self.roots.truncate(n + 1);
                    self.restart(op.new)?;
                }
                ("older root", Out::Ok(()))
            }
        };
        let (fired, log) = {
            let mut d = self.disk.lock();
            d.put_fail = None;
            (d.fired, std::mem::take(&mut d.log))
        };
        self.count("fault_put_fail", fired);
        self.count(if write { "write" } else { "other" }, 1);
        mixh(&mut self.res.hash, mix(out.is_ok() as u64, log.len() as u64));
        self.say(|| format!("{} by {}: {}, {} new blocks", what, name(op.new), out.describe(), log.len()));
        match out {
            Out::Ok(()) => {
                if write && !log.is_empty() {
                    if op.new {
                        self.wrote.0 = true;
                    } else {
                        self.wrote.1 = true;
                    }
                }
            }
            Out::Err(_) if fired > 0 => {}
            Out::Err(e) if e.contains("too large") => {}
            // not possible any more
            Out::Err(_) if matches!(op.act, Act::Pack) && self.live.contains(&false) => {}
            x => return self.blame("write", op.new, format!("{} by {}: {}", what, name(op.new), x.describe())),
        }
        let before = self.live.clone();
        self.check(what)?;
        if keep && self.live != before {
            return self.blame("content", op.new, format!("elements are gone after {} by {}", what, name(op.new)));
        }
        if let (Some(n), true) = (op.crash, write && !matches!(op.act, Act::Repair { .. })) {
            // a prefix of the writes survives
            let gone: FnvHashSet<Vec<u8>> = log.iter().skip(n as usize).cloned().collect();
            if !gone.is_empty() {
                self.count("fault_crash", 1);
                self.disk.lock().blocks.retain(|k, _| !gone.contains(k));
                let root = self.roots.last().map(|x| x.0.parse::<libipld::Cid>().unwrap().to_bytes());
                if root.map(|r| gone.contains(&r)).unwrap_or(false) {
                    self.roots.pop();
                }
                self.say(|| format!("crash, {} blocks are lost", gone.len()));
                self.restart(op.new)?;
                self.check("a crash")?;
            }
        }
        Ok(())
    }
}

pub fn run(p: &WirePlan, trace: bool) -> RunResult {
    let disk = Disk::default();
    let new = p.ops.first().map(|x| x.new).unwrap_or(true);
    let mut w = World {
        p,
        writer: World::start(p, &disk, new),
        disk,
        new,
        elems: vec![],
        live: vec![],
        wrote: (false, false),
        roots: vec![],
        res: RunResult::default(),
        trace,
    };
    debug_assert!(!POOL.is_empty());
    for op in &p.ops {
        match w.step(op) {
            Ok(()) => {}
            Err(Stop::End) => break,
            Err(Stop::Violation { class, msg }) => {
                w.res.violation = Some((class, msg));
                break;
            }
            Err(Stop::Foreign(x)) => {
                w.res.foreign = Some(x);
                break;
            }
        }
    }
    w.res
}

pub fn about() -> About {
    About {
        rule: "a case is a seeded history of one stream that is written, packed, pruned, repaired, reopened and queried in turns by nodes that run this version and nodes that run a frozen copy of version 0.18.0, with failing writes and crashes; non-trivial: both versions wrote blocks of the same stream",
        real: "banyan and banyan-utils (tags) as built from /repo, and the frozen copy of the same crates in /verif/old, each with its own encryption, compression, indexes and tag indexes",
        stub: "block store (in memory, with failing writes, crashes that keep a prefix of the writes, and loss), the process",
        measure: "hash of the number of nodes, level and root link after every step",
        assumptions: &[
            "the wire format is defined by what version 0.18.0 writes and accepts; the libraries below (zstd, chacha20, cbor-data, libipld) are the same in both",
        ],
        min_runs: 2000,
    }
}
