//! Executes a history of a single stream against the real code, with a model at its side.
use crate::outcome::{guard, injected_panic, mixh, phase, runaway, Out, RunResult, Stats, Stop, R};
use crate::plan::{self, secrets, Cfg, Elem, End, HistPlan, Items, Op, Step};
use crate::query::Q;
use crate::reads::{self, Kind, Model, KINDS};
use crate::rng::{mix, Rng};
use crate::store::{AnyReader, AnyWriter, Fault, Store};
use crate::types::{Key, KeyRange, Link, Val, TT};
use crate::walk::{self, Body, Node, Walker};
use banyan::index::{CompactSeq, Index};
use banyan::store::{BlockWriter, BranchCache};
use banyan::{Forest, Secrets, StreamBuilder, Transaction, Tree};
use fnv::{FnvHashMap, FnvHashSet};
use libipld::Cid;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use std::sync::Arc;

pub type B = StreamBuilder<TT, Val>;
pub type F = Forest<TT, AnyReader>;
pub type X = Transaction<TT, AnyReader, AnyWriter>;

#[derive(Clone)]
pub struct RootRec {
    pub link: Link,
    pub model: Model,
    /// number of writes that had landed
    pub pos: usize,
    pub published: bool,
    pub cfg: Cfg,
    pub degenerate: bool,
}

pub struct World<'a> {
    pub prop: &'a str,
    pub plan: &'a HistPlan,
    pub store: Store,
    pub forest: F,
    pub txn: X,
    pub cache: BranchCache<TT>,
    pub model: Model,
    pub next_id: u64,
    pub cfg: Cfg,
    pub max_cfg: Cfg,
    pub cfg_changed: bool,
    pub sec: Secrets,
    pub roots: Vec<RootRec>,
    /// parts that are not sealed or not packed have been lost, so no more appending
    pub degenerate: bool,
    /// reachable blocks are missing
    pub lossy: bool,
    flags: BTreeSet<&'static str>,
    pub walker: Walker,
    pub stats: Stats,
    pub states: Vec<u64>,
    pub hash: u64,
    pub trace: Vec<String>,
    pub trace_on: bool,
    pub nontrivial: bool,
    /// cipher ranges of all blocks of this session
    session: BTreeMap<u64, u64>,
    /// cipher ranges of the blocks of published roots
    published: BTreeMap<u64, (u64, Link)>,
    published_links: FnvHashSet<Link>,
    elems_by_id: FnvHashMap<u64, Arc<Elem>>,
    blobs: FnvHashMap<Link, u64>,
}

/// hands out items, panics when told to
struct ItemIter {
    items: std::vec::IntoIter<Arc<Elem>>,
    n: u32,
    panic_at: Option<u32>,
}
impl Iterator for ItemIter {
    type Item = (Key, Val);
    fn next(&mut self) -> Option<(Key, Val)> {
        if self.panic_at == Some(self.n) {
            panic!("{}", crate::store::SIM_PANIC);
        }
        self.n += 1;
        self.items.next().map(|e| (e.key, e.val.clone()))
    }
}

fn injected_error(fired: &[&'static str]) -> bool {
    fired.iter().any(|f| {
        matches!(
            *f,
            "put_fail" | "put_ack_lost" | "get_fail" | "store_full" | "missing_block" | "hidden_block"
        )
    })
}

pub fn op_name(op: &Op) -> &'static str {
    match op {
        Op::Extend(_) => "extend",
        Op::ExtendUnpacked(_) => "extend_unpacked",
        Op::Push(_) => "push",
        Op::Pack => "pack",
        Op::Retain(_) => "retain",
        Op::Repair => "repair",
        Op::Reopen { .. } => "reopen",
        Op::Crash { .. } => "crash",
        Op::Txn { .. } => "txn",
        Op::Lose { .. } => "lose",
        Op::Gc { .. } => "gc",
        Op::CacheReset { .. } => "cache_reset",
        Op::Forward { .. } => "forward",
        Op::Read { .. } => "read",
    }
}

impl<'a> World<'a> {
    pub fn new(prop: &'a str, plan: &'a HistPlan, trace_on: bool) -> Self {
        let store = Store::new();
        {
            let mut s = store.lock();
            s.record_attempts = matches!(prop, "C03" | "C04" | "C14" | "C16" | "C20");
        }
        let cache = BranchCache::new(plan.cache as usize);
        let (forest, txn) = Self::mk(&store, &cache, plan);
        Self {
            prop,
            plan,
            store,
            forest,
            txn,
            cache,
            model: Model::default(),
            next_id: 0,
            cfg: plan.cfg,
            max_cfg: plan.cfg,
            cfg_changed: false,
            sec: secrets(plan.secrets),
            roots: vec![],
            degenerate: false,
            lossy: false,
            flags: BTreeSet::new(),
            walker: Walker::default(),
            stats: Stats::new(),
            states: vec![],
            hash: 0,
            trace: vec![],
            trace_on,
            nontrivial: false,
            session: BTreeMap::new(),
            published: BTreeMap::new(),
            published_links: FnvHashSet::default(),
            elems_by_id: FnvHashMap::default(),
            blobs: FnvHashMap::default(),
        }
    }

    fn mk(store: &Store, cache: &BranchCache<TT>, plan: &HistPlan) -> (F, X) {
        let reader = AnyReader::new(store, plan.mem.map(|(a, b)| (a as usize, b as usize)));
        let writer = reader.writer();
        let forest = Forest::new(reader, cache.clone());
        // both ways to get a transaction
        let txn = if plan.mem.is_some() {
            forest.transaction(|r| {
                let w = r.writer();
                (r, w)
            })
        } else {
            Transaction::new(forest.clone(), writer)
        };
        (forest, txn)
    }

    /// forest without any caches, on the same store
    pub fn cold(&self) -> F {
        Forest::new(AnyReader::new(&self.store, None), BranchCache::new(0))
    }

    pub fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }

    fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace_on {
            self.trace.push(f());
        }
    }

    pub fn fail<T>(&self, props: &[&str], class: &str, msg: String) -> R<T> {
        if props.contains(&self.prop) {
            Err(Stop::Violation {
                class: class.to_string(),
                msg,
            })
        } else {
            Err(Stop::Foreign(format!("[{}] {}", class, msg)))
        }
    }

    /// properties that promise that the stream can be used now
    fn usable(&self) -> Vec<&'static str> {
        let mut res = vec!["C01"];
        for (f, p) in [
            ("fault", "C02"),
            ("restart", "C03"),
            ("retain", "C11"),
            ("repair", "C12"),
            ("pack", "C13"),
            ("gc", "C16"),
            ("txn", "C19"),
        ] {
            if self.flags.contains(f) {
                res.push(p);
            }
        }
        res
    }
    fn usable_and(&self, p: &[&'static str]) -> Vec<&'static str> {
        let mut res = self.usable();
        res.extend(p);
        res
    }

    pub fn walk(&mut self, index: &Index<TT>) -> Node {
        let store = self.store.clone();
        let s = store.lock();
        self.walker
            .walk(&|l| s.blocks.get(l).cloned(), &self.sec, index, 0)
    }
    fn walk_b(&mut self, b: &B) -> Option<Node> {
        b.index().cloned().map(|i| self.walk(&i))
    }

    // ------------------------------------------------------------------------------------------
    // the whole history

    pub fn run(prop: &'a str, plan: &'a HistPlan, trace_on: bool) -> RunResult {
        let mut w = World::new(prop, plan, trace_on);
        let mut b = B::new(plan.cfg.real(), w.sec.clone());
        let mut stop = None;
        for (i, step) in plan.steps.iter().enumerate() {
            if w.model.len() > 600 && matches!(step.op, Op::Extend(_)) {
                continue;
            }
            if let Err(s) = w.step(&mut b, i, step) {
                stop = Some(s);
                break;
            }
        }
        if stop.is_none() {
            if let Err(s) = w.finish(&mut b) {
                stop = Some(s);
            }
        }
        let mut res = RunResult {
            stats: std::mem::take(&mut w.stats),
            states: std::mem::take(&mut w.states),
            nontrivial: w.nontrivial,
            trace: std::mem::take(&mut w.trace),
            ..Default::default()
        };
        {
            let s = w.store.lock();
            res.hash = w.hash;
            mixh(&mut res.hash, s.hash);
            mixh(&mut res.hash, s.total_gets);
            mixh(&mut res.hash, s.total_puts);
            res.sim_time = s.total_gets + s.total_puts;
            *res.stats.entry("store_gets").or_default() += s.total_gets;
            *res.stats.entry("store_puts").or_default() += s.total_puts;
        }
        match stop {
            Some(Stop::Violation { class, msg }) => {
                mixh(&mut res.hash, crate::types::hash64(1, class.as_bytes()));
                res.violation = Some((class, msg))
            }
            Some(Stop::Foreign(m)) => res.foreign = Some(m),
            _ => {}
        }
        res
    }

    fn step(&mut self, b: &mut B, i: usize, step: &Step) -> R {
        self.note(|| format!("step {}: {}", i, serde_json::to_string(step).unwrap()));
        mixh(&mut self.hash, i as u64);
        *self.stats.entry("steps").or_default() += 1;
        self.top(b, step)?;
        if self.store.dead() {
            self.recover(b, 1000, mix(i as u64, self.plan.secrets as u64))?;
        }
        let (count, link) = (b.count(), b.link());
        self.note(|| format!("  count {} root {:?}", count, link));
        mixh(&mut self.hash, count);
        mixh(&mut self.hash, link.map(|l| l.short()).unwrap_or(0));
        Ok(())
    }

    fn top(&mut self, b: &mut B, step: &Step) -> R {
        match &step.op {
            Op::Reopen { which, cfg } => self.reopen(b, *which, *cfg),
            Op::Crash { keep } => self.recover(b, *keep, *keep as u64),
            Op::Lose { seed, n } => self.lose(b, *seed, *n),
            Op::Gc { seed, extra } => self.gc(b, *seed, *extra),
            Op::Forward { offset } => self.forward(b, *offset),
            _ => self.inner(b, step, 0).map(|_| ()),
        }
    }

    /// steps that are possible within a transaction. Returns whether it succeeded
    fn inner(&mut self, b: &mut B, step: &Step, depth: u32) -> R<bool> {
        match &step.op {
            Op::Txn { steps, end } => self.transaction(b, steps, *end, depth),
            Op::CacheReset { cap } => {
                self.cache
                    .reset(std::num::NonZeroUsize::new(*cap as usize).unwrap());
                self.stat("cache_reset");
                Ok(true)
            }
            Op::Read { seed, q } => self.read(b, *seed, q).map(|_| true),
            op => {
                let mul = self.cfg.mul;
                let items = match op {
                    Op::Extend(i) | Op::ExtendUnpacked(i) | Op::Push(i) => self.make(i, mul),
                    _ => vec![],
                };
                self.mutate(b, op, &items, &step.faults, step.retry, depth)
            }
        }
    }

    fn make(&mut self, i: &Items, mul: usize) -> Vec<Arc<Elem>> {
        let res = i.make(self.next_id, mul);
        self.next_id += i.n as u64;
        for e in &res {
            self.elems_by_id.insert(e.id, e.clone());
            if self.prop == "C16" {
                for r in e.links.iter().map(|x| x.0).chain(e.key_link) {
                    let l = self.store.put_raw(&r.to_be_bytes());
                    self.blobs.insert(l, r);
                }
            }
        }
        res
    }

    // ------------------------------------------------------------------------------------------
    // operations

    fn mutate(
        &mut self,
        b: &mut B,
        op: &Op,
        items: &[Arc<Elem>],
        faults: &[Fault],
        retry: bool,
        depth: u32,
    ) -> R<bool> {
        let name = op_name(op);
        let append = matches!(op, Op::Extend(_) | Op::ExtendUnpacked(_) | Op::Push(_));
        if self.degenerate && (append || matches!(op, Op::Pack)) {
            self.stat("skipped_degenerate");
            return Ok(false);
        }
        let index0 = b.index().cloned();
        let before = format!("{:?}", index0);
        let node0 = self.walk_b(b);
        let bad = items.iter().any(|e| e.bad);
        let packed0 = node0.as_ref().map(|n| n.packed()).unwrap_or(true);
        // packing needs to read everything that is not sealed at the front
        let front_count: u64 = node0
            .as_ref()
            .map(|n| n.front().iter().map(|n| n.count()).sum())
            .unwrap_or(0);
        let unpackable = matches!(op, Op::Pack)
            && (front_count..self.model.len()).any(|i| !self.model.live[i as usize]);
        // an index that is too big to be read again must not be written
        let fat = |e: &Arc<Elem>| e.key.fat() as usize;
        let too_fat = self.model.elems.iter().map(fat).sum::<usize>()
            + items.iter().map(fat).sum::<usize>()
            > 15;
        let twin_link = if self.prop == "C02" && !self.degenerate && !self.lossy && !bad {
            index0
                .as_ref()
                .filter(|i| i.level() > 0)
                .and_then(|i| *i.link())
        } else {
            None
        };
        // C21: everything but the right edge is unavailable
        let hide = self.prop == "C21" && append && !self.lossy;
        if hide {
            let mut edge = FnvHashSet::default();
            if !matches!(op, Op::ExtendUnpacked(_)) {
                let mut n = node0.as_ref();
                while let Some(x) = n {
                    edge.extend(x.link());
                    n = x.children().last();
                }
            }
            let mut s = self.store.lock();
            s.hidden = s
                .blocks
                .keys()
                .filter(|l| !edge.contains(l))
                .copied()
                .collect();
        }
        let panic_at = faults.iter().find_map(|f| match f {
            Fault::IterPanic { n } => Some(*n),
            _ => None,
        });
        let iter = ItemIter {
            items: items.to_vec().into_iter(),
            n: 0,
            panic_at,
        };
        self.store.arm(faults);
        let at_stake = self.usable_and(match op {
            Op::Retain(_) => &["C11", "C02"],
            Op::Repair => &["C12", "C02"],
            Op::Pack => &["C13", "C02"],
            _ => &["C02"],
        });
        phase(name, &at_stake);
        let txn = &mut self.txn;
        let mut report = None;
        let out: Out<()> = guard(|| match op {
            Op::Extend(_) => txn.extend(b, iter),
            Op::Push(_) => match items.first() {
                Some(e) => {
                    if panic_at.is_some() {
                        txn.extend(b, iter)
                    } else {
                        txn.push(b, e.key, e.val.clone())
                    }
                }
                None => Ok(()),
            },
            Op::ExtendUnpacked(_) => txn.extend_unpacked(b, iter),
            Op::Pack => txn.pack(b),
            Op::Retain(q) => {
                let q = q.real();
                txn.retain(b, &q)
            }
            Op::Repair => {
                report = Some(txn.repair(b)?);
                Ok(())
            }
            _ => unreachable!(),
        });
        phase("other", &[self.prop]);
        let fired = self.store.disarm();
        if hide {
            self.store.lock().hidden.clear();
        }
        for f in &fired {
            self.stat(f);
        }
        self.stat(name);
        mixh(&mut self.hash, crate::types::hash64(7, name.as_bytes()));
        mixh(&mut self.hash, fired.len() as u64);
        let dead = self.store.dead();
        self.note(|| {
            format!(
                "{}{} {} items, faults {:?} fired {:?}: {}",
                "  ".repeat(depth as usize + 1),
                name,
                items.len(),
                faults,
                fired,
                out.describe()
            )
        });
        self.drain_attempts(depth)?;
        if dead {
            // nobody is left to look at the result
            self.flags.insert("restart");
            return Ok(false);
        }
        if let Out::Panic(p) = &out {
            if runaway(p) {
                return self.fail(
                    &self.usable_and(&["C02"]),
                    "runaway",
                    format!("{} does not come to an end: {}", name, p),
                );
            }
        }
        let failed = match &out {
            Out::Ok(()) => false,
            Out::Err(e) => {
                let props = match op {
                    Op::Retain(_) => self.usable_and(&["C11"]),
                    Op::Repair => self.usable_and(&["C12"]),
                    Op::Pack => self.usable_and(&["C13"]),
                    _ => self.usable_and(&["C21"]),
                };
                if !(bad || unpackable || too_fat || injected_error(&fired))
                    || (hide && !fired.iter().any(|f| *f != "hidden_block") && !bad)
                {
                    return self.fail(
                        &props,
                        "unexpected_error",
                        format!("{} failed on a healthy store: {}", name, e),
                    );
                }
                true
            }
            Out::Panic(p) if injected_panic(p) => true,
            Out::Panic(p) => {
                let props = match op {
                    Op::Retain(_) => self.usable_and(&["C11", "C02"]),
                    Op::Repair => self.usable_and(&["C12", "C02"]),
                    Op::Pack => self.usable_and(&["C13", "C02"]),
                    _ => self.usable_and(&["C02"]),
                };
                return self.fail(&props, "panic", format!("{} panicked: {}", name, p));
            }
        };
        if failed && too_fat {
            self.stat("index_too_large");
        }
        if failed {
            self.flags.insert("fault");
            self.nontrivial |= matches!(self.prop, "C02" | "C03" | "C04" | "C19");
            self.stat("failed_ops");
            let after = format!("{:?}", b.index());
            if after != before {
                return self.fail(
                    &["C02", "C19"],
                    "not_atomic",
                    format!(
                        "{} failed ({}), but the stream changed from {} to {}",
                        name,
                        out.describe(),
                        before,
                        after
                    ),
                );
            }
            self.check_content(b, &["C02", "C01"], &format!("failed {}", name))?;
            if retry && depth == 0 {
                self.stat("retries");
                let good: Vec<_> = items.iter().filter(|e| !e.bad).cloned().collect();
                if append && good.is_empty() {
                    return Ok(false);
                }
                let twin = twin_link.and_then(|l| self.twin(l, op, &good));
                let ok = self.mutate(b, op, &good, &[], false, depth)?;
                if ok {
                    if let Some(want) = twin {
                        let got = self.walk_b(b).map(|n| n.shape()).unwrap_or_default();
                        if got != want {
                            return self.fail(
                                &["C02"],
                                "retry_differs",
                                format!(
                                    "{} after a failed attempt produced {}, without the failed attempt it produces {}",
                                    name, got, want
                                ),
                            );
                        }
                        self.stat("twin_compared");
                    }
                }
                return Ok(ok);
            }
            return Ok(false);
        }
        if bad {
            return self.fail(
                &["C14", "C02"],
                "bad_item_accepted",
                format!("{} accepted an item that is too big or contains a broken link", name),
            );
        }
        // success
        match op {
            Op::Extend(_) | Op::ExtendUnpacked(_) | Op::Push(_) => {
                for e in items {
                    self.model.push(e);
                }
                if !packed0 {
                    self.stat("append_to_unpacked");
                }
            }
            Op::Pack => {
                self.flags.insert("pack");
                self.after_pack(b, node0.as_ref(), packed0)?;
            }
            Op::Retain(q) => {
                self.flags.insert("retain");
                self.after_retain(b, node0.as_ref(), q, packed0)?;
            }
            Op::Repair => {
                self.flags.insert("repair");
                self.after_repair(b, node0.as_ref(), report.unwrap_or_default())?;
            }
            _ => {}
        }
        let node = self.check_content(b, &[], &format!("{} of {} items", name, items.len()))?;
        if let Some(node) = &node {
            let mut h = 0;
            node.skeleton(&mut h);
            self.states.push(h);
            if self.prop == "C14" {
                self.structure(b, node)?;
            }
            if self.prop == "C13" && !self.lossy {
                let forest = self.cold();
                let tree = b.snapshot();
                match guard(|| forest.is_packed(&tree)) {
                    Out::Ok(x) if x == node.packed() => {}
                    x => {
                        return self.fail(
                            &["C13"],
                            "is_packed",
                            format!("is_packed: {:?} for {}", x, node.shape()),
                        )
                    }
                }
            }
            if matches!(op, Op::Pack) && !self.lossy {
                self.after_pack_structure(b, node)?;
            }
        }
        if let Some(link) = b.link() {
            let pos = self.store.lock().order.len();
            self.roots.push(RootRec {
                link,
                model: self.model.clone(),
                pos,
                published: depth == 0,
                cfg: self.cfg,
                degenerate: self.degenerate,
            });
            if depth == 0 {
                self.publish(node.as_ref())?;
            }
        }
        Ok(true)
    }

    /// shape of the tree that the operation produces starting from that root, without any faults
    fn twin(&mut self, link: Link, op: &Op, items: &[Arc<Elem>]) -> Option<String> {
        let store = Store::new();
        store.lock().blocks = self.store.lock().blocks.clone();
        let reader = AnyReader::new(&store, None);
        let forest: F = Forest::new(reader.clone(), BranchCache::new(0));
        let mut txn: X = Transaction::new(forest.clone(), reader.writer());
        let sec = self.sec.clone();
        let cfg = self.cfg.real();
        let iter = ItemIter {
            items: items.to_vec().into_iter(),
            n: 0,
            panic_at: None,
        };
        let out = guard(|| {
            let mut b: B = forest.load_stream_builder(sec, cfg, link)?;
            match op {
                Op::Extend(_) | Op::Push(_) => txn.extend(&mut b, iter)?,
                Op::ExtendUnpacked(_) => txn.extend_unpacked(&mut b, iter)?,
                Op::Pack => txn.pack(&mut b)?,
                Op::Retain(q) => {
                    let q = q.real();
                    txn.retain(&mut b, &q)?
                }
                Op::Repair => {
                    txn.repair(&mut b)?;
                }
                _ => unreachable!(),
            }
            Ok(b.index().cloned())
        });
        match out {
            Out::Ok(Some(i)) => {
                let s = store.lock();
                let mut w = Walker::default();
                Some(
                    w.walk(&|l| s.blocks.get(l).cloned(), &self.sec, &i, 0)
                        .shape(),
                )
            }
            _ => None,
        }
    }

    /// compares the content of the stream with the model. `more`: additional properties for which
    /// a difference is a violation
    fn check_content(&mut self, b: &B, more: &[&'static str], ctx: &str) -> R<Option<Node>> {
        let props = self.usable_and(more);
        if b.count() != self.model.len() {
            return self.fail(
                &props,
                "count",
                format!(
                    "after {}: {} elements instead of {}",
                    ctx,
                    b.count(),
                    self.model.len()
                ),
            );
        }
        let node = match self.walk_b(b) {
            Some(n) => n,
            None => return Ok(None),
        };
        let elems = node.elems();
        if elems.len() as u64 != self.model.len() {
            return self.fail(
                &props,
                "content",
                format!(
                    "after {}: the leaves contain {} elements instead of {}",
                    ctx,
                    elems.len(),
                    self.model.len()
                ),
            );
        }
        let broken = node.missing().iter().any(|n| {
            matches!(n.body, Body::Broken(_)) || (!self.lossy && matches!(n.body, Body::Missing))
        });
        if broken {
            return self.fail(
                &self.usable_and(&["C16", "C03"]),
                "unreadable",
                format!("after {}: unreadable tree {}", ctx, node.shape()),
            );
        }
        for (i, e) in elems.iter().enumerate() {
            let want = self.model.get(i as u64);
            if *e != want && !(self.lossy && e.is_none()) {
                return self.fail(
                    &props,
                    "content",
                    format!(
                        "after {}: element {} is {:?} instead of {:?}",
                        ctx, i, e, want
                    ),
                );
            }
        }
        if !self.lossy {
            let tree = b.snapshot();
            let forest = self.forest.clone();
            let got = guard(|| forest.collect(&tree));
            match got {
                Out::Ok(x) if x == self.model.expect() => {}
                Out::Ok(_) => {
                    return self.fail(&props, "content", format!("after {}: collect returns something else than what is stored", ctx))
                }
                other => {
                    return self.fail(
                        &props,
                        "unreadable",
                        format!("after {}: collect fails: {}", ctx, other.describe()),
                    )
                }
            }
        }
        self.stat("content_checks");
        Ok(Some(node))
    }

    // ------------------------------------------------------------------------------------------
    // C13

    fn after_pack(&mut self, b: &B, node0: Option<&Node>, packed0: bool) -> R {
        let node0 = match node0 {
            Some(n) => n,
            None => return Ok(()),
        };
        if self.lossy {
            return Ok(());
        }
        let node = match self.walk_b(b) {
            Some(n) => n,
            None => return self.fail(&["C13", "C01"], "content", "empty after pack".into()),
        };
        if !packed0 {
            self.nontrivial |= self.prop == "C13";
            self.stat("packed_unpacked");
        }
        let now: FnvHashSet<(Option<Link>, u64)> = node
            .all()
            .iter()
            .map(|n| (n.link(), n.offset))
            .collect();
        for f in node0.front() {
            if !now.contains(&(f.link(), f.offset)) {
                return self.fail(
                    &["C13"],
                    "not_reused",
                    format!(
                        "pack rewrote the sealed subtree at {} ({} elements, level {}): {} became {}",
                        f.offset,
                        f.count(),
                        f.level(),
                        node0.shape(),
                        node.shape()
                    ),
                );
            }
        }
        if packed0 {
            let sealed = |n: &Node| -> Vec<(Option<Link>, u64)> {
                n.all()
                    .iter()
                    .filter(|x| x.level() == 0 && x.sealed())
                    .map(|x| (x.link(), x.offset))
                    .collect()
            };
            // the last leaf can only be sealed now if it was not sealed before
            if !sealed(&node).starts_with(&sealed(node0)) {
                return self.fail(
                    &["C13"],
                    "not_reused",
                    format!(
                        "packing a packed stream changed its sealed leaves: {} became {}",
                        node0.shape(),
                        node.shape()
                    ),
                );
            }
        }
        Ok(())
    }

    fn after_pack_structure(&mut self, b: &mut B, node: &Node) -> R {
        if !node.packed() {
            return self.fail(
                &["C13"],
                "not_packed",
                format!("not packed after pack: {}", node.shape()),
            );
        }
        let forest = self.forest.clone();
        let tree = b.snapshot();
        match guard(|| forest.is_packed(&tree)) {
            Out::Ok(true) => {}
            x => {
                return self.fail(
                    &["C13"],
                    "not_packed",
                    format!("is_packed after pack: {:?} for {}", x, node.shape()),
                )
            }
        }
        if !self.cfg_changed {
            match guard(|| forest.check_invariants(b)) {
                Out::Ok(x) if x.is_empty() => {}
                x => {
                    return self.fail(
                        &["C13", "C14"],
                        "invariants",
                        format!("check_invariants after pack: {:?} for {}", x, node.shape()),
                    )
                }
            }
        }
        if let (Some(link), "C13") = (b.link(), self.prop) {
            let forest = self.cold();
            let sec = self.sec.clone();
            let out = guard(|| {
                let t: Tree<TT, Val> = forest.load_tree(sec, link)?;
                forest.collect(&t)
            });
            match out {
                Out::Ok(x) if x == self.model.expect() => {}
                x => {
                    return self.fail(
                        &["C13"],
                        "not_reopenable",
                        format!(
                            "packed stream can not be opened by its root: {} ({})",
                            x.describe(),
                            node.shape()
                        ),
                    )
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------------------------------
    // C11

    fn after_retain(&mut self, b: &B, node0: Option<&Node>, q: &Q, packed0: bool) -> R {
        let node0 = match node0 {
            Some(n) => n,
            None => return Ok(()),
        };
        let node = match self.walk_b(b) {
            Some(n) => n,
            None => return self.fail(&["C11"], "lost", "stream is empty after retain".into()),
        };
        if node.count() != node0.count() {
            return self.fail(&["C11"], "count", "retain changed the number of elements".into());
        }
        // where was every element
        let mut unsealed = vec![false; self.model.elems.len()];
        node0.visit(&mut |n| {
            if n.level() == 0 && !n.sealed() {
                for i in n.offset..n.offset + n.count() {
                    unsealed[i as usize] = true;
                }
            }
        });
        // purged according to the structure
        let mut purged = vec![false; self.model.elems.len()];
        let mut bad_offset = false;
        node.visit(&mut |n| {
            if matches!(n.body, Body::Purged) {
                for i in n.offset..n.offset + n.count() {
                    match purged.get_mut(i as usize) {
                        Some(x) => *x = true,
                        None => bad_offset = true,
                    }
                }
            }
        });
        if bad_offset {
            return self.fail(&["C11"], "count", "offsets changed in retain".into());
        }
        let mut dropped = 0;
        for i in 0..self.model.elems.len() {
            let was = self.model.live[i];
            let m = q.matches(i as u64, self.model.elems[i].key.k);
            if was && purged[i] {
                dropped += 1;
                if m {
                    return self.fail(
                        &["C11"],
                        "lost",
                        format!("element {} matches {:?}, but was pruned: {} became {}", i, q, node0.shape(), node.shape()),
                    );
                }
                if unsealed[i] {
                    return self.fail(
                        &["C11"],
                        "lost",
                        format!("element {} is in an unsealed leaf, but was pruned by {:?}: {} became {}", i, q, node0.shape(), node.shape()),
                    );
                }
            }
            if !was && !purged[i] && !self.lossy {
                return self.fail(
                    &["C11"],
                    "resurrected",
                    format!("element {} was pruned, and is back", i),
                );
            }
            self.model.live[i] = !purged[i];
        }
        if dropped > 0 {
            self.stat("retain_dropped");
            self.nontrivial |= self.prop == "C11";
        }
        if packed0 && !self.lossy {
            let reach: FnvHashSet<Link> = node.reachable().into_iter().collect();
            for n in node0.all() {
                if let (Index::Leaf(l), Some(link), true) = (&n.index, n.link(), n.sealed()) {
                    if !q.leaf_bits(n.offset, l).iter().any(|x| *x) {
                        let kept = (n.offset..n.offset + n.count()).any(|i| !purged[i as usize]);
                        if kept || reach.contains(&link) {
                            return self.fail(
                                &["C11"],
                                "not_freed",
                                format!(
                                    "sealed leaf at {} has no element matching {:?}, but is still there: {} became {}",
                                    n.offset, q, node0.shape(), node.shape()
                                ),
                            );
                        }
                    }
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------------------------------
    // C12

    fn after_repair(&mut self, b: &mut B, node0: Option<&Node>, report: Vec<String>) -> R {
        let node0 = match node0 {
            Some(n) => n,
            None => return Ok(()),
        };
        let missing = node0.missing();
        if missing.is_empty() {
            if !report.is_empty() {
                return self.fail(
                    &["C12"],
                    "healthy",
                    format!("repair of a healthy stream reports {:?}", report),
                );
            }
            if b.link() != node0.link() {
                return self.fail(&["C12"], "healthy", "repair of a healthy stream changed it".into());
            }
            return Ok(());
        }
        self.stat("repaired");
        self.nontrivial |= self.prop == "C12";
        if report.len() < missing.len() {
            return self.fail(
                &["C12"],
                "report",
                format!(
                    "{} unreachable parts, but the report is {:?}",
                    missing.len(),
                    report
                ),
            );
        }
        let front: Vec<Range<u64>> = node0
            .front()
            .iter()
            .map(|n| n.offset..n.offset + n.count())
            .collect();
        for m in &missing {
            let inside = front
                .iter()
                .any(|r| r.start <= m.offset && m.offset + m.count() <= r.end);
            if !inside || !m.sealed() {
                self.degenerate = true;
            }
        }
        let live = node0.live();
        for i in 0..self.model.live.len() {
            self.model.live[i] = self.model.live[i] && live[i];
        }
        self.lossy = false;
        // again: nothing to do
        let link = b.link();
        let txn = &mut self.txn;
        match guard(|| txn.repair(b)) {
            Out::Ok(r) if r.is_empty() && b.link() == link => {}
            x => {
                return self.fail(
                    &["C12"],
                    "not_idempotent",
                    format!("repairing again: {:?}, root {:?} -> {:?}", x, link, b.link()),
                )
            }
        }
        // everything is readable, in every way
        if self.prop == "C12" {
            let tree = b.snapshot();
            let cold = self.cold();
            for k in [Kind::Iter, Kind::IterRev, Kind::Chunked] {
                let got = reads::elements(k, &cold, &tree, &Q::All);
                let mut want = self.model.filtered(&Q::All);
                if k.reverse() {
                    want.reverse();
                }
                if let Err(e) = reads::check_complete(&got, &want) {
                    return self.fail(&["C12"], "content", format!("{:?} after repair: {}", k, e));
                }
            }
        }
        Ok(())
    }

    fn lose(&mut self, b: &B, seed: u64, n: u32) -> R {
        let node = match self.walk_b(b) {
            Some(n) => n,
            None => return Ok(()),
        };
        let mut rng = Rng::new(seed);
        let all: Vec<(Link, u32)> = node
            .all()
            .iter()
            .filter(|n| matches!(n.body, Body::Branch(_) | Body::Leaf(_)))
            .filter_map(|n| n.link().map(|l| (l, n.level())))
            .collect();
        if all.is_empty() {
            return Ok(());
        }
        for _ in 0..n {
            let (link, level) = all[rng.idx(all.len())];
            if n >= 20 && level > 0 {
                continue;
            }
            // losing the root is boring
            if level == node.level() && rng.pct(80) && all.len() > 1 {
                continue;
            }
            if self.store.lock().blocks.remove(&link).is_some() {
                self.stat("blocks_lost");
                self.lossy = true;
            }
        }
        if self.plan.mem.is_some() {
            // the MemCache is a store in its own right and would still have them
            let (f, x) = Self::mk(&self.store, &self.cache, self.plan);
            self.forest = f;
            self.txn = x;
        }
        Ok(())
    }

    // ------------------------------------------------------------------------------------------
    // C03: reopen and crash

    fn fresh(&mut self) {
        self.store.lock().dead = false;
        self.cache = BranchCache::new(self.plan.cache as usize);
        let (f, x) = Self::mk(&self.store, &self.cache, self.plan);
        self.forest = f;
        self.txn = x;
        self.session.clear();
    }

    fn open(&mut self, b: &mut B, rec: &RootRec, cfg: Cfg, props: &[&'static str]) -> R {
        let forest = self.forest.clone();
        let sec = self.sec.clone();
        match guard(|| forest.load_stream_builder::<Val>(sec, cfg.real(), rec.link)) {
            Out::Ok(x) => *b = x,
            x => {
                if self.lossy {
                    return Ok(());
                }
                return self.fail(
                    props,
                    "reopen",
                    format!("root {} can not be opened: {:?}", rec.link, x.describe()),
                );
            }
        }
        self.model = rec.model.clone();
        self.degenerate = rec.degenerate;
        self.max_cfg = self.max_cfg.max(&cfg);
        if cfg != self.cfg {
            self.cfg_changed = true;
        }
        self.cfg = cfg;
        self.flags.insert("restart");
        Ok(())
    }

    fn reopen(&mut self, b: &mut B, which: u32, cfg: Option<Cfg>) -> R {
        let link = match b.link() {
            Some(l) => l,
            None => return Ok(()),
        };
        let rec = if which == 0 {
            RootRec {
                link,
                model: self.model.clone(),
                pos: 0,
                published: true,
                cfg: self.cfg,
                degenerate: self.degenerate,
            }
        } else {
            let n = self.roots.len();
            if n == 0 || self.lossy {
                return Ok(());
            }
            self.roots[n - 1 - (which as usize - 1) % n].clone()
        };
        let old = b.index().cloned();
        self.fresh();
        self.stat("reopen");
        let lossy = self.lossy;
        let mut cfg = cfg.unwrap_or(self.cfg);
        // what is in the stream must still be acceptable, or it can not be packed any more
        cfg.mul = cfg.mul.max(self.max_cfg.mul);
        self.open(b, &rec, cfg, &["C03", "C01", "C13"])?;
        self.nontrivial |= self.prop == "C03";
        if lossy {
            return Ok(());
        }
        self.check_content(b, &["C03", "C01"], "reopening")?;
        // the reopened builder is in the same state as the one that was never closed
        if which == 0 && !self.cfg_changed && !self.degenerate {
            // pruning leaves the sizes of the ancestors as they were
            let pruned = self.flags.contains("retain") || self.flags.contains("repair");
            let view = |i: &Option<Index<TT>>| {
                i.as_ref().map(|i| {
                    (
                        i.level(),
                        i.count(),
                        i.sealed(),
                        *i.link(),
                        if pruned { 0 } else { i.key_bytes() },
                        if pruned { 0 } else { i.value_bytes() },
                        match i {
                            Index::Branch(b) => b.summaries.as_ref().to_vec(),
                            _ => vec![],
                        },
                    )
                })
            };
            let now = b.index().cloned();
            if view(&old) != view(&now) {
                return self.fail(
                    &["C03"],
                    "reopen_state",
                    format!("reopening changed the root from {:?} to {:?}", old, now),
                );
            }
        }
        Ok(())
    }

    /// a root block as it would be if the stream had used up its key stream up to an offset
    fn forward(&mut self, b: &mut B, offset: u64) -> R {
        let link = match b.link() {
            Some(l) if !self.lossy => l,
            _ => return Ok(()),
        };
        let data = match self.store.raw(&link) {
            Some(d) => d,
            None => return Ok(()),
        };
        let nonce = crate::types::nonce();
        let block = banyan::store::ZstdDagCborSeq::decrypt(&data, self.sec.index_key(), &nonce)
            .and_then(|(seq, range)| {
                if range.start >= offset {
                    return Ok(None);
                }
                Ok(Some(seq.encrypt(self.sec.index_key(), &nonce, offset)?))
            });
        let block = match block {
            Ok(Some(x)) => x,
            _ => return Ok(()),
        };
        let link = self.store.put_raw(&block);
        let pos = {
            let mut s = self.store.lock();
            s.order.push(link);
            s.order.len()
        };
        let rec = RootRec {
            link,
            model: self.model.clone(),
            pos,
            published: true,
            cfg: self.cfg,
            degenerate: self.degenerate,
        };
        self.stat("forward");
        self.fresh();
        self.open(b, &rec, self.cfg, &["C01", "C03", "C04"])?;
        let node = self.check_content(b, &["C03", "C01"], "a long past")?;
        self.publish(node.as_ref())?;
        self.roots.push(rec);
        Ok(())
    }

    /// the process died. A new one starts with the blocks that survived
    fn recover(&mut self, b: &mut B, keep: u32, seed: u64) -> R {
        self.stat("crashes");
        self.nontrivial |= self.prop == "C03";
        let mut rng = Rng::new(mix(seed, 0xc4a5));
        self.drain_attempts(0)?;
        let keep = if self.prop == "C04" { 1000 } else { keep };
        let total = self.store.lock().order.len();
        let k = if keep >= 1000 {
            total
        } else {
            // lose some of the recent writes
            let back = (1000 - keep as usize) * total.min(60) / 1000;
            total - back.min(total)
        };
        {
            let mut s = self.store.lock();
            let survivors: FnvHashSet<Link> = s.order[..k].iter().copied().collect();
            s.order.truncate(k);
            let blobs = &self.blobs;
            s.blocks
                .retain(|l, _| survivors.contains(l) || blobs.contains_key(l));
        }
        self.roots.retain(|r| r.pos <= k);
        self.fresh();
        self.note(|| format!("  crash: {} of {} writes survive", k, total));
        // every root that made it can be opened
        let n = self.roots.len();
        for i in 0..n.min(3) {
            let i = if i == 0 { n - 1 } else { rng.idx(n) };
            let rec = self.roots[i].clone();
            self.verify_root(&rec)?;
        }
        match self.roots.iter().rev().find(|r| r.published).cloned() {
            Some(rec) => {
                self.open(b, &rec, rec.cfg, &["C03"])?;
                self.check_content(b, &["C03"], "restart")?;
            }
            None => {
                *b = B::new(self.cfg.real(), self.sec.clone());
                self.model = Model::default();
                self.degenerate = false;
                self.flags.insert("restart");
                self.published.clear();
                self.published_links.clear();
            }
        }
        Ok(())
    }

    fn verify_root(&mut self, rec: &RootRec) -> R {
        // exactly the blocks that had been written when the root was returned
        let view = Store::new();
        {
            let s = self.store.lock();
            let mut v = view.lock();
            for l in &s.order[..rec.pos] {
                if let Some(x) = s.blocks.get(l) {
                    v.blocks.insert(*l, x.clone());
                }
            }
        }
        let forest: F = Forest::new(AnyReader::new(&view, None), BranchCache::new(0));
        let sec = self.sec.clone();
        let link = rec.link;
        let out = guard(|| {
            let t: Tree<TT, Val> = forest.load_tree(sec, link)?;
            forest.collect(&t)
        });
        self.stat("roots_verified");
        match out {
            Out::Ok(x) if x == rec.model.expect() => Ok(()),
            Out::Ok(_) => self.fail(
                &["C03"],
                "root_content",
                format!("root {} has different content after a restart", link),
            ),
            x => self.fail(
                &["C03"],
                "root_unreadable",
                format!(
                    "root {} was returned after {} writes, but can not be read from these: {}",
                    link,
                    rec.pos,
                    x.describe()
                ),
            ),
        }
    }

    // ------------------------------------------------------------------------------------------
    // C04, C03, C16, C20: all blocks that are handed to the store

    fn drain_attempts(&mut self, _depth: u32) -> R {
        let attempted = std::mem::take(&mut self.store.lock().attempted);
        for (link, data) in attempted {
            let (range, cids) = match walk::outer(&data) {
                Ok(x) => x,
                Err(e) => {
                    return self.fail(
                        &["C16", "C04", "C20"],
                        "format",
                        format!("block {} can not be decoded without keys: {}", link, e),
                    )
                }
            };
            match self.prop {
                "C04" => {
                    let clash = self
                        .session
                        .range(..range.end)
                        .next_back()
                        .filter(|(_, end)| **end > range.start)
                        .map(|(s, e)| *s..*e);
                    if let Some(c) = clash {
                        return self.fail(
                            &["C04"],
                            "session_overlap",
                            format!(
                                "block {} uses key stream {:?}, which overlaps with {:?} used before in this session",
                                link, range, c
                            ),
                        );
                    }
                    // and that is really the part that it is encrypted with
                    if !walk::encrypted_at(&self.sec, &data, range.start) {
                        return self.fail(
                            &["C04"],
                            "other_range",
                            format!("block {} is not encrypted with key stream {:?}", link, range),
                        );
                    }
                    self.session.insert(range.start, range.end);
                    self.stat("blocks_checked");
                }
                "C03" => {
                    if let Some(children) = walk::probe_branch(&self.sec, &data) {
                        for c in &children {
                            if let Some(l) = c.link() {
                                if !self.store.lock().blocks.contains_key(l) {
                                    return self.fail(
                                        &["C03"],
                                        "parent_before_child",
                                        format!("block {} was written before its child {}", link, l),
                                    );
                                }
                            }
                        }
                        self.stat("blocks_checked");
                    }
                }
                "C16" => self.visible_links(&link, &data, cids)?,
                "C20" => self.block_keys(&link, &data)?,
                _ => {}
            }
        }
        Ok(())
    }

    fn visible_links(&mut self, link: &Link, data: &[u8], cids: Vec<Cid>) -> R {
        let visible: BTreeSet<Cid> = cids.into_iter().collect();
        let mut want = BTreeSet::new();
        if let Some(children) = walk::probe_branch(&self.sec, data) {
            for c in &children {
                want.extend(c.link().map(|l| l.cid()));
                if let Index::Leaf(l) = c {
                    want.extend(l.keys.to_vec().iter().filter_map(|k| k.link).map(|l| l.cid()));
                }
            }
        } else {
            let vals = match walk::decode_leaf(&self.sec, data) {
                Ok(x) => x,
                Err(e) => {
                    return self.fail(&["C16"], "format", format!("block {}: {}", link, e));
                }
            };
            for v in &vals {
                match self.elems_by_id.get(&v.id) {
                    Some(e) => want.extend(e.links.iter().map(|r| r.cid())),
                    None => return self.fail(&["C16"], "format", "unknown value".into()),
                }
            }
        }
        self.stat("blocks_checked");
        if visible != want {
            return self.fail(
                &["C16"],
                "visible_links",
                format!(
                    "block {} shows the links {:?}, but its content has {:?}",
                    link, visible, want
                ),
            );
        }
        Ok(())
    }

    fn block_keys(&mut self, link: &Link, data: &[u8]) -> R {
        let i = self.sec.index_key();
        let v = self.sec.value_key();
        let as_is_branch = walk::probe_branch(&Secrets::new(*i, *i), data).is_some();
        let as_is_leaf = walk::probe_leaf(&Secrets::new(*i, *i), data).is_some();
        let vs_branch = walk::probe_branch(&Secrets::new(*v, *v), data).is_some();
        let vs_leaf = walk::probe_leaf(&Secrets::new(*v, *v), data).is_some();
        self.stat("blocks_checked");
        // exactly one key opens a block, and it must be the right one
        let is_branch = as_is_branch;
        let is_leaf = vs_leaf && !vs_branch;
        if is_branch && !vs_leaf && !vs_branch || is_leaf && !as_is_leaf && !as_is_branch {
            // a key nobody has does not open it
            let zero = Secrets::default();
            if walk::probe_leaf(&zero, data).is_some() || walk::probe_branch(&zero, data).is_some() {
                return self.fail(&["C20"], "no_key", format!("block {} is not encrypted", link));
            }
            return Ok(());
        }
        self.fail(
            &["C20"],
            "wrong_key",
            format!(
                "block {}: index key opens it: {}/{}, value key opens it: {}/{} (as branch/as leaf)",
                link, as_is_branch, as_is_leaf, vs_branch, vs_leaf
            ),
        )
    }

    /// a root became visible to the outside
    fn publish(&mut self, node: Option<&Node>) -> R {
        if self.prop != "C04" {
            return Ok(());
        }
        let node = match node {
            Some(n) => n,
            None => return Ok(()),
        };
        for link in node.reachable() {
            if !self.published_links.insert(link) {
                continue;
            }
            let data = match self.store.raw(&link) {
                Some(d) => d,
                None => continue,
            };
            if let Ok((range, _)) = walk::outer(&data) {
                let clash = self
                    .published
                    .range(..range.end)
                    .next_back()
                    .filter(|(_, (end, _))| *end > range.start)
                    .map(|(s, (e, l))| (*s..*e, *l));
                if let Some((r, l)) = clash {
                    return self.fail(
                        &["C04"],
                        "published_overlap",
                        format!(
                            "block {} uses key stream {:?}, block {} of a published root uses {:?}",
                            link, range, l, r
                        ),
                    );
                }
                self.published.insert(range.start, (range.end, link));
            }
        }
        self.stat("published_checked");
        Ok(())
    }

    // ------------------------------------------------------------------------------------------
    // C16

    fn gc(&mut self, b: &B, seed: u64, extra: u32) -> R {
        if self.lossy {
            return Ok(());
        }
        let mut rng = Rng::new(seed);
        let mut keep: Vec<RootRec> = Vec::new();
        for _ in 0..extra {
            if !self.roots.is_empty() {
                let i = rng.idx(self.roots.len());
                keep.push(self.roots[i].clone());
            }
        }
        let mut todo: Vec<Link> = keep.iter().map(|r| r.link).collect();
        todo.extend(b.link());
        // what a collector without any keys finds
        let mut found: FnvHashSet<Link> = FnvHashSet::default();
        while let Some(l) = todo.pop() {
            if !found.insert(l) || self.blobs.contains_key(&l) {
                continue;
            }
            if let Some(data) = self.store.raw(&l) {
                match walk::outer(&data) {
                    Ok((_, cids)) => {
                        todo.extend(cids.iter().filter_map(|c| Link::from_any_cid(c).ok()))
                    }
                    Err(e) => return self.fail(&["C16"], "format", e.to_string()),
                }
            }
        }
        // what is really needed
        let mut needed: FnvHashSet<Link> = FnvHashSet::default();
        let mut nodes: Vec<Node> = self.walk_b(b).into_iter().collect();
        for r in &keep {
            let forest = self.cold();
            let sec = self.sec.clone();
            let link = r.link;
            if let Out::Ok(t) = guard(|| forest.load_tree::<Val>(sec, link)) {
                if let Some(i) = t.index().cloned() {
                    nodes.push(self.walk(&i));
                }
            }
        }
        for node in &nodes {
            node.visit(&mut |n| match &n.body {
                Body::Branch(cs) => {
                    needed.extend(n.link());
                    for c in cs {
                        needed.extend(c.keys().iter().filter_map(|k| k.link));
                    }
                }
                Body::Leaf(vs) => {
                    needed.extend(n.link());
                    for v in vs {
                        if let Some(e) = self.elems_by_id.get(&v.id) {
                            needed.extend(e.links.iter().map(|r| r.link()));
                        }
                    }
                }
                _ => {}
            });
        }
        let (before, after) = {
            let mut s = self.store.lock();
            let before = s.blocks.len();
            s.blocks.retain(|l, _| found.contains(l));
            (before, s.blocks.len())
        };
        self.stat("gc");
        self.flags.insert("gc");
        if after < before {
            self.stat("gc_deleted_something");
            self.nontrivial |= self.prop == "C16";
        }
        for l in &needed {
            if self.store.raw(l).is_none() {
                return self.fail(
                    &["C16"],
                    "gc_unsafe",
                    format!("block {} is needed, but can not be reached by visible links", l),
                );
            }
        }
        let over = self
            .store
            .lock()
            .blocks
            .keys()
            .find(|l| !needed.contains(*l))
            .copied();
        if let Some(l) = over {
            return self.fail(
                &["C16"],
                "gc_incomplete",
                format!(
                    "block {} is not part of any kept root, but still reachable by visible links",
                    l
                ),
            );
        }
        let kept: FnvHashSet<Link> = keep.iter().map(|r| r.link).chain(b.link()).collect();
        self.roots.retain(|r| kept.contains(&r.link));
        for r in keep {
            let forest = self.cold();
            let sec = self.sec.clone();
            let out = guard(|| {
                let t: Tree<TT, Val> = forest.load_tree(sec, r.link)?;
                forest.collect(&t)
            });
            match out {
                Out::Ok(x) if x == r.model.expect() => {}
                x => {
                    return self.fail(
                        &["C16"],
                        "gc_unsafe",
                        format!("kept root {} after collection: {}", r.link, x.describe()),
                    )
                }
            }
        }
        let cold = self.cold();
        let tree = b.snapshot();
        match guard(|| cold.collect(&tree)) {
            Out::Ok(x) if x == self.model.expect() => Ok(()),
            x => self.fail(
                &["C16"],
                "gc_unsafe",
                format!("current root after collection: {}", x.describe()),
            ),
        }
    }

    // ------------------------------------------------------------------------------------------
    // C19

    fn transaction(&mut self, b: &mut B, steps: &[Step], end: End, depth: u32) -> R<bool> {
        let before = format!("{:?}", b.index());
        let model = self.model.clone();
        let degenerate = self.degenerate;
        let lossy = self.lossy;
        let nroots = self.roots.len();
        self.stat("txn");
        // a violation inside has to get out
        let mut inner: R<bool> = Ok(true);
        let out = guard(|| -> anyhow::Result<()> {
            let mut t = b.transaction();
            for s in steps {
                match self.inner(&mut t, s, depth + 1) {
                    Ok(true) => {}
                    Ok(false) => {
                        if end == End::Err || self.store.dead() {
                            // as with the ? operator
                            inner = Ok(false);
                            anyhow::bail!("step failed");
                        }
                    }
                    Err(stop) => {
                        inner = Err(stop);
                        anyhow::bail!("stop");
                    }
                }
            }
            match end {
                End::Commit => {
                    t.commit();
                    Ok(())
                }
                End::Drop | End::Err => {
                    inner = Ok(false);
                    drop(t);
                    anyhow::bail!("not committed")
                }
                End::Panic => {
                    inner = Ok(false);
                    panic!("{}", crate::store::SIM_PANIC)
                }
            }
        });
        let committed = out.is_ok();
        inner?;
        if let Out::Panic(p) = &out {
            if !injected_panic(p) {
                return self.fail(&["C19"], "panic", format!("transaction panicked: {}", p));
            }
        }
        if self.store.dead() {
            return Ok(false);
        }
        self.flags.insert("txn");
        if committed {
            self.stat("txn_committed");
            self.check_content(b, &["C19"], "commit")?;
            if depth == 0 {
                let node = self.walk_b(b);
                for r in &mut self.roots[nroots..] {
                    if Some(r.link) == b.link() {
                        r.published = true;
                    }
                }
                self.publish(node.as_ref())?;
            }
        } else {
            self.stat("txn_rolled_back");
            self.model = model;
            self.degenerate = degenerate;
            self.lossy = lossy;
            let after = format!("{:?}", b.index());
            if after != before {
                return self.fail(
                    &["C19"],
                    "not_rolled_back",
                    format!(
                        "transaction was not committed, but the stream changed from {} to {}",
                        before, after
                    ),
                );
            }
            self.check_content(b, &["C19"], "rollback")?;
        }
        self.nontrivial |= self.prop == "C19" && !steps.is_empty();
        Ok(committed)
    }

    // ------------------------------------------------------------------------------------------
    // C14

    fn structure(&mut self, b: &B, node: &Node) -> R {
        let c = self.max_cfg;
        let mut problem = None;
        let changed = self.cfg_changed;
        let cfg = self.cfg;
        // pruning and repairing leave the sizes as they were
        let pruned = self.flags.contains("retain") || self.flags.contains("repair");
        let store = self.store.clone();
        let block = |n: &Node| n.link().and_then(|l| store.raw(&l));
        node.visit(&mut |n| {
            let mut bad = |m: String| {
                problem.get_or_insert(m);
            };
            match (&n.index, &n.body) {
                (Index::Leaf(l), Body::Leaf(vs)) => {
                    if l.keys.0.len() != vs.len() {
                        bad(format!("leaf with {} keys and {} values", l.keys.0.len(), vs.len()));
                    }
                    if vs.is_empty() {
                        bad("empty leaf".into());
                    }
                    if vs.len() > c.mlc {
                        bad(format!("leaf with {} > {} values", vs.len(), c.mlc));
                    }
                    if Node::size_in_leaf(vs) > c.mul {
                        bad(format!(
                            "leaf with {} > {} uncompressed bytes",
                            Node::size_in_leaf(vs),
                            c.mul
                        ));
                    }
                    if let Some((range, _)) = block(n).and_then(|d| walk::outer(&d).ok()) {
                        let size = range.end - range.start;
                        if l.value_bytes != size {
                            bad(format!("leaf with value_bytes {} instead of {}", l.value_bytes, size));
                        }
                    }
                    if !l.sealed && !changed {
                        if vs.len() >= cfg.mlc {
                            bad(format!("leaf with {} values is not sealed", vs.len()));
                        }
                        if l.value_bytes >= cfg.tls as u64 {
                            bad(format!("leaf with {} bytes is not sealed", l.value_bytes));
                        }
                    }
                    if l.sealed
                        && !changed
                        && vs.len() < cfg.mlc
                        && l.value_bytes < cfg.tls as u64
                        && cfg.mul > 100_000
                    {
                        bad(format!(
                            "leaf with {} values and {} bytes is sealed",
                            vs.len(),
                            l.value_bytes
                        ));
                    }
                }
                (Index::Branch(br), Body::Branch(cs)) => {
                    let max = if n.level() == 1 { c.mkb } else { c.msb };
                    if cs.len() > max {
                        bad(format!(
                            "branch of level {} with {} > {} children",
                            n.level(),
                            cs.len(),
                            max
                        ));
                    }
                    if cs.iter().any(|x| x.level() >= n.level()) {
                        bad("child is not below its parent".into());
                    }
                    if cs.iter().map(|x| x.level()).max().map(|x| x + 1) != Some(n.level()) {
                        bad(format!("branch has level {} but its children {:?}", n.level(), cs.iter().map(|x| x.level()).collect::<Vec<_>>()));
                    }
                    if br.sealed && cs.iter().any(|x| x.level() + 1 != n.level() || !x.sealed()) {
                        bad("child of sealed branch is not sealed or not one level below".into());
                    }
                    if !changed {
                        let max = if n.level() == 1 { cfg.mkb } else { cfg.msb };
                        let full = cs.len() >= max
                            && cs.iter().all(|x| x.sealed() && x.level() + 1 == n.level());
                        if br.sealed != full {
                            bad(format!("branch with {} of {} children: sealed is {}", cs.len(), max, br.sealed));
                        }
                    }
                    if br.count != cs.iter().map(|x| x.count()).sum::<u64>() {
                        bad(format!("branch count {} does not agree with its children", br.count));
                    }
                    let vb = cs.iter().map(|x| x.index.value_bytes()).sum::<u64>();
                    if br.value_bytes != vb {
                        bad(format!("branch with value_bytes {} instead of {}", br.value_bytes, vb));
                    }
                    if let (Some(d), false) = (block(n), pruned) {
                        let kb = cs.iter().map(|x| x.index.key_bytes()).sum::<u64>() + d.len() as u64;
                        if br.key_bytes != kb {
                            bad(format!("branch with key_bytes {} instead of {}", br.key_bytes, kb));
                        }
                    }
                    let sums: Vec<KeyRange> = cs.iter().map(|x| own_summary(&x.index)).collect();
                    if br.summaries.as_ref() != sums {
                        bad(format!(
                            "summaries {:?} instead of {:?}",
                            br.summaries.as_ref(),
                            sums
                        ));
                    }
                }
                (Index::Branch(br), _) => {
                    // purged
                    if br.summaries.as_ref().is_empty() {
                        bad("branch without summaries".into());
                    }
                }
                _ => {}
            }
        });
        self.stat("structure_checks");
        self.nontrivial |= self.prop == "C14" && node.level() > 1;
        if let Some(m) = problem {
            return self.fail(
                &["C14"],
                "structure",
                format!("{} in {} ({:?})", m, node.shape(), self.cfg),
            );
        }
        if !self.lossy && !changed {
            let forest = self.cold();
            match guard(|| forest.check_invariants(b)) {
                Out::Ok(x) if x.is_empty() => {}
                x => {
                    return self.fail(
                        &["C14"],
                        "invariants",
                        format!("check_invariants: {:?} for {}", x, node.shape()),
                    )
                }
            }
        }
        if !self.lossy {
            let forest = self.cold();
            let tree = b.snapshot();
            if let Err(e) = introspect(&forest, &tree, b, node) {
                return self.fail(
                    &["C14"],
                    "introspection",
                    format!("{} for {}", e, node.shape()),
                );
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------------------------------
    // reading

    fn tree(&mut self, b: &B, rng: &mut Rng) -> (F, Tree<TT, Val>) {
        let forest = if rng.bool() {
            self.forest.clone()
        } else {
            self.cold()
        };
        let tree = match b.link() {
            Some(link) if rng.pct(40) && b.level() > 0 && !self.lossy => {
                let sec = self.sec.clone();
                match guard(|| forest.load_tree(sec, link)) {
                    Out::Ok(t) => t,
                    _ => b.snapshot(),
                }
            }
            _ => b.snapshot(),
        };
        (forest, tree)
    }

    fn read(&mut self, b: &B, seed: u64, q: &Q) -> R {
        let mut rng = Rng::new(seed);
        self.stat("read");
        match self.prop {
            "C07" => self.read_faulty(b, &mut rng, q),
            _ if self.lossy => Ok(()),
            "C05" => self.read_filtered(b, &mut rng, q),
            "C06" => self.read_chunks(b, &mut rng, q),
            "C20" => self.read_keys(b, &mut rng, q),
            "C21" => self.read_needed(b, &mut rng, q),
            _ => self.read_all(b, &mut rng),
        }
    }

    fn read_all(&mut self, b: &B, rng: &mut Rng) -> R {
        let (forest, tree) = self.tree(b, rng);
        let props = self.usable_and(&["C01"]);
        let n = self.model.len();
        if tree.count() != n {
            return self.fail(&props, "count", format!("{} instead of {}", tree.count(), n));
        }
        let mut offsets = vec![0, n / 2, n.saturating_sub(1), n, n + 5, u64::MAX];
        for _ in 0..6 {
            offsets.push(rng.below(n + 1));
        }
        for o in offsets {
            match guard(|| forest.get(&tree, o)) {
                Out::Ok(x) if x == self.model.get(o) => {}
                x => {
                    return self.fail(
                        &props,
                        "get",
                        format!("get({}) is {:?} instead of {:?}", o, x, self.model.get(o)),
                    )
                }
            }
            let want: Vec<_> = (o.min(n)..n).map(|i| self.model.get(i)).collect();
            match guard(|| forest.collect_from(&tree, o)) {
                Out::Ok(x) if x == want => {}
                Out::Ok(x) => {
                    return self.fail(
                        &props,
                        "collect_from",
                        format!(
                            "collect_from({}) of {}: {} elements instead of {} or different",
                            o,
                            n,
                            x.len(),
                            want.len()
                        ),
                    )
                }
                x => {
                    return self.fail(
                        &props,
                        "collect_from",
                        format!("collect_from({}): {}", o, x.describe()),
                    )
                }
            }
        }
        let want = self.model.filtered(&Q::All);
        let mut rev = want.clone();
        rev.reverse();
        for k in KINDS {
            let got = reads::elements(k, &forest, &tree, &Q::All);
            let w = if k.reverse() { &rev } else { &want };
            if let Err(e) = reads::check_complete(&got, w) {
                return self.fail(&props, "sequence", format!("{:?}: {}", k, e));
            }
        }
        match guard(|| forest.left_roots(&tree)) {
            Out::Ok(roots) => {
                let mut last = 0;
                for (i, r) in roots.iter().enumerate() {
                    let c = r.count();
                    let m = self.model.truncate(c);
                    let got = guard(|| forest.collect(r));
                    let whole = i + 1 == roots.len();
                    match got {
                        Out::Ok(x) if x == m.expect() && c >= last && (!whole || c == n) => {}
                        x => {
                            return self.fail(
                                &props,
                                "left_roots",
                                format!(
                                    "left root {} with {} elements is not a prefix of the stream: {}",
                                    i,
                                    c,
                                    x.describe()
                                ),
                            )
                        }
                    }
                    last = c;
                }
                if n > 0 && roots.is_empty() {
                    return self.fail(&props, "left_roots", "no left roots".into());
                }
            }
            x => return self.fail(&props, "left_roots", x.describe()),
        }
        self.nontrivial |= tree.level() > 1;
        Ok(())
    }

    fn queries(&self, rng: &mut Rng, q: &Q) -> Vec<Q> {
        let keys = self
            .model
            .elems
            .iter()
            .map(|e| e.key.k)
            .max()
            .unwrap_or(plan::KEYS);
        let mut res = vec![q.clone()];
        for _ in 0..3 {
            res.push(Q::random(rng, keys + 1, self.model.len(), 2));
        }
        res
    }

    fn read_filtered(&mut self, b: &B, rng: &mut Rng, q: &Q) -> R {
        let node = self.walk_b(b);
        for q in self.queries(rng, q) {
            let (forest, tree) = self.tree(b, rng);
            let want = self.model.filtered(&q);
            let mut rev = want.clone();
            rev.reverse();
            if !want.is_empty() && want.len() < self.model.elems.len() {
                self.nontrivial |= self.prop == "C05";
                self.stat("selective_queries");
            }
            mixh(&mut self.hash, want.len() as u64);
            for k in KINDS {
                let got = reads::elements(k, &forest, &tree, &q);
                let w = if k.reverse() { &rev } else { &want };
                if let Err(e) = reads::check_complete(&got, w) {
                    return self.fail(
                        &["C05"],
                        "filtered",
                        format!("{:?} with {:?}: {}", k, q, e),
                    );
                }
            }
            if let Some(node) = &node {
                for rev in [false, true] {
                    let got = reads::index_seq(&forest, &tree, &q, rev);
                    if let Some(e) = got.err.as_ref().or(got.panic.as_ref()) {
                        return self.fail(&["C05"], "index", format!("iter_index: {}", e));
                    }
                    if got.endless {
                        return self.fail(&["C05"], "index", "iter_index does not end".into());
                    }
                    let want = reads::index_expected(node, &q, rev);
                    // everything expected is there, in order; nothing twice
                    let mut it = got.items.iter();
                    let missing = want.iter().find(|w| !it.any(|g| g == *w));
                    if let Some(m) = missing {
                        return self.fail(
                            &["C05"],
                            "index",
                            format!(
                                "iter_index (reverse: {}) with {:?} does not visit {:?} in order: {:?}",
                                rev, q, m, got.items
                            ),
                        );
                    }
                    if got.items.len() > node.all().len() {
                        return self.fail(
                            &["C05"],
                            "index",
                            "iter_index visits nodes more than once".into(),
                        );
                    }
                }
            }
        }
        Ok(())
    }

    fn read_chunks(&mut self, b: &B, rng: &mut Rng, q: &Q) -> R {
        let mut qs = self.queries(rng, q);
        qs.push(Q::All);
        for q in qs {
            let (forest, tree) = self.tree(b, rng);
            for k in KINDS.into_iter().filter(|k| k.chunked()) {
                let got = reads::chunks(k, &forest, &tree, &q);
                if let Some(e) = &got.err {
                    return self.fail(
                        &["C06"],
                        "chunk_error",
                        format!("{:?} with {:?}: {}", k, q, e),
                    );
                }
                if got.items.len() > 2 {
                    self.nontrivial |= self.prop == "C06";
                }
                mixh(&mut self.hash, got.items.len() as u64);
                if let Err(e) = reads::check_tiles(&got, k.reverse(), self.model.len()) {
                    return self.fail(&["C06"], "tiles", format!("{:?} with {:?}: {}", k, q, e));
                }
                for c in &got.items {
                    let want: Vec<_> = (c.range.start..c.range.end)
                        .filter_map(|i| self.model.get(i).map(|(k, v)| (i, k, v)))
                        .filter(|(i, k, _)| q.matches(*i, k.k))
                        .collect();
                    if want.len() as u64 == c.range.end - c.range.start && c.data != want {
                        return self.fail(
                            &["C06"],
                            "chunk_data",
                            format!(
                                "{:?} with {:?}: nothing is filtered from chunk {:?}, but it has {}",
                                k,
                                q,
                                c.range,
                                reads::show(&c.data)
                            ),
                        );
                    }
                    for (o, k1, v) in &c.data {
                        if self.model.get(*o) != Some((*k1, v.clone())) {
                            return self.fail(
                                &["C06"],
                                "chunk_data",
                                format!("{:?} with {:?}: wrong element at {}", k, q, o),
                            );
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn read_faulty(&mut self, b: &B, rng: &mut Rng, q: &Q) -> R {
        let n = self.model.len();
        for round in 0..5u32 {
            let (forest, tree) = self.tree(b, rng);
            let q = if round == 0 {
                q.clone()
            } else {
                Q::random(rng, plan::KEYS, n, 2)
            };
            // either the nth read fails, or certain blocks are not available
            let hide = rng.bool();
            let mut faults = vec![];
            if hide {
                let node = self.walk_b(b);
                let links = node.map(|n| n.reachable()).unwrap_or_default();
                let mut s = self.store.lock();
                if !links.is_empty() {
                    for _ in 0..rng.range(1, 3) {
                        s.hidden.insert(links[rng.idx(links.len())]);
                    }
                }
            } else {
                faults.push(Fault::GetFail {
                    n: rng.skewed(20) as u32,
                    times: if rng.bool() { 1 } else { u32::MAX },
                });
            }
            let which = rng.below(12);
            for attempt in 0..2 {
                // the second time everything is fine again
                self.store.arm(if attempt == 0 { &faults } else { &[] });
                let checked = match which {
                    0 | 1 => {
                        let o = rng.below(n + 2);
                        match guard(|| forest.get(&tree, o)) {
                            Out::Ok(x) if x == self.model.get(o) => Ok(false),
                            Out::Ok(x) => Err(format!(
                                "get({}) is {:?} instead of {:?}",
                                o,
                                x,
                                self.model.get(o)
                            )),
                            Out::Err(_) => Ok(true),
                            x => Err(format!("get({}): {}", o, x.describe())),
                        }
                    }
                    2 => {
                        let o = rng.below(n + 2);
                        let want: Vec<_> = (o.min(n)..n).map(|i| self.model.get(i)).collect();
                        match guard(|| forest.collect_from(&tree, o)) {
                            Out::Ok(x) if x == want => Ok(false),
                            Out::Ok(x) => Err(format!(
                                "collect_from({}) of {} returned {} elements, or wrong ones",
                                o,
                                n,
                                x.len()
                            )),
                            Out::Err(_) => Ok(true),
                            x => Err(format!("collect_from({}): {}", o, x.describe())),
                        }
                    }
                    3 => {
                        // index iteration: compare with the answer on a healthy store
                        let reverse = rng.bool();
                        if self.lossy {
                            let s = reads::index_seq(&forest, &tree, &q, reverse);
                            if let Some(p) = s.panic {
                                Err(format!("iter_index: panic {}", p))
                            } else if s.more || s.endless {
                                Err("iter_index does not end after the first error".into())
                            } else {
                                Ok(s.err.is_some())
                            }
                        } else {
                            let s = reads::index_seq(&forest, &tree, &q, reverse);
                            let fired = self.store.disarm();
                            let hidden = std::mem::take(&mut self.store.lock().hidden);
                            let want =
                                reads::index_seq(&self.cold(), &tree, &q, reverse).items;
                            self.store.lock().hidden = hidden;
                            self.store.arm(&[]);
                            self.store.lock().fired = fired;
                            reads::check_prefix(&s, &want, |x| format!("{:?}", x))
                                .map(|_| s.err.is_some())
                                .map_err(|e| format!("iter_index: {}", e))
                        }
                    }
                    4 => {
                        let what = rng.below(8);
                        let got = structural(what, &forest, &tree, b);
                        let fired = self.store.disarm();
                        let hidden = std::mem::take(&mut self.store.lock().hidden);
                        // the answer of a healthy store. Lost blocks stay lost
                        let want = structural(what, &self.cold(), &tree, b);
                        self.store.lock().hidden = hidden;
                        self.store.arm(&[]);
                        self.store.lock().fired = fired;
                        match (got, want) {
                            (Out::Ok(a), Out::Ok(b)) if a == b => Ok(false),
                            // it came from a cache
                            (Out::Ok(_), Out::Err(_)) if self.lossy => Ok(false),
                            (Out::Err(_), _) => Ok(true),
                            (a, b) => Err(format!(
                                "structural question {} has answer {} instead of {}",
                                what,
                                a.describe(),
                                b.describe()
                            )),
                        }
                    }
                    _ => {
                        let k = KINDS[which as usize - 5];
                        let mut want = self.model.filtered(&q);
                        if k.reverse() {
                            want.reverse();
                        }
                        let r = if k.chunked() {
                            let cs = reads::chunks(k, &forest, &tree, &q);
                            reads::check_tiles(&cs, k.reverse(), n)
                        } else {
                            Ok(())
                        };
                        // the counter of the faults starts again
                        let fired = self.store.disarm();
                        self.store.arm(if attempt == 0 { &faults } else { &[] });
                        self.store.lock().fired = fired;
                        let got = reads::elements(k, &forest, &tree, &q);
                        r.and_then(|_| reads::check_prefix(&got, &want, reads::show))
                            .map(|_| got.err.is_some())
                            .map_err(|e| format!("{:?} with {:?}: {}", k, q, e))
                    }
                };
                let fired = self.store.disarm();
                for f in &fired {
                    self.stat(f);
                }
                match checked {
                    Err(e) => {
                        self.store.lock().hidden.clear();
                        return self.fail(
                            &["C07"],
                            "dishonest",
                            format!("{} (attempt {}, faults fired {:?})", e, attempt, fired),
                        );
                    }
                    Ok(true) => {
                        self.nontrivial |= self.prop == "C07";
                        self.stat("reads_failed");
                        if fired.is_empty() {
                            self.store.lock().hidden.clear();
                            return self.fail(
                                &["C07"],
                                "spurious_error",
                                format!("read {} failed, but every block was delivered", which),
                            );
                        }
                    }
                    Ok(false) => self.stat("reads_ok"),
                }
                mixh(&mut self.hash, fired.len() as u64);
                self.store.lock().hidden.clear();
            }
        }
        Ok(())
    }

    fn read_keys(&mut self, b: &B, rng: &mut Rng, q: &Q) -> R {
        let link = match b.link() {
            Some(l) if b.level() > 0 => l,
            _ => return Ok(()),
        };
        let n = self.model.len();
        let other = secrets(self.plan.secrets.wrapping_add(1).max(1));
        // also with caches that others have filled
        let forest = if rng.bool() {
            self.forest.clone()
        } else {
            self.cold()
        };
        // index key only
        let sec = Secrets::new(*self.sec.index_key(), *other.value_key());
        let tree: Tree<TT, Val> = match guard(|| forest.load_tree(sec, link)) {
            Out::Ok(t) => t,
            x => {
                return self.fail(
                    &["C20"],
                    "index_key",
                    format!("can not be opened with the index key: {}", x.describe()),
                )
            }
        };
        if tree.count() != n {
            return self.fail(&["C20"], "index_key", "wrong count with the index key".into());
        }
        let right = b.snapshot();
        let (a, c) = (
            reads::index_seq(&forest, &tree, q, false),
            reads::index_seq(&forest, &right, q, false),
        );
        if a.items != c.items || a.err.is_some() || a.panic.is_some() {
            return self.fail(
                &["C20"],
                "index_key",
                format!("index can not be read with the index key: {:?}", a.err),
            );
        }
        // decoding with a wrong key is slow, so take a sample
        for _ in 0..2 {
            let o = rng.below(n + 1);
            let r = guard(|| forest.get(&tree, o));
            match (&r, self.model.get(o)) {
                (Out::Ok(None), None) => {}
                (Out::Err(_), Some(_)) => self.stat("denied"),
                _ => {
                    return self.fail(
                        &["C20"],
                        "value_key",
                        format!("get({}) without the value key: {}", o, r.describe()),
                    )
                }
            }
        }
        self.nontrivial |= true;
        let any = self.model.live.iter().any(|x| *x);
        let r = guard(|| forest.collect(&tree));
        match &r {
            Out::Err(_) if any => {}
            Out::Ok(_) if !any => {}
            _ => {
                return self.fail(
                    &["C20"],
                    "value_key",
                    format!("collect without the value key: {}", r.describe()),
                )
            }
        }
        for _ in 0..2 {
            let k = *rng.pick(&KINDS);
            let want = self.model.filtered(q);
            let got = reads::elements(k, &forest, &tree, q);
            if !got.items.is_empty()
                || got.panic.is_some()
                || got.err.is_some() != !want.is_empty()
            {
                return self.fail(
                    &["C20"],
                    "value_key",
                    format!(
                        "{:?} with {:?} without the value key returned {} of {} elements, error {:?} panic {:?}",
                        k, q, got.items.len(), want.len(), got.err, got.panic
                    ),
                );
            }
        }
        // no index key
        for sec in [
            other.clone(),
            Secrets::new(*other.index_key(), *self.sec.value_key()),
            Secrets::new(*self.sec.value_key(), *self.sec.value_key()),
            Secrets::default(),
        ] {
            if rng.pct(50) {
                continue;
            }
            let r = guard(|| forest.load_tree::<Val>(sec.clone(), link));
            if !matches!(r, Out::Err(_)) {
                return self.fail(
                    &["C20"],
                    "no_index_key",
                    format!("opening without the index key: {}", r.describe()),
                );
            }
            let cfg = self.cfg.real();
            let r = guard(|| forest.load_stream_builder::<Val>(sec, cfg, link).map(|_| ()));
            if !matches!(r, Out::Err(_)) {
                return self.fail(
                    &["C20"],
                    "no_index_key",
                    format!("opening a builder without the index key: {}", r.describe()),
                );
            }
        }
        // both keys
        let sec = self.sec.clone();
        let r = guard(|| {
            let t: Tree<TT, Val> = forest.load_tree(sec, link)?;
            forest.collect(&t)
        });
        match r {
            Out::Ok(x) if x == self.model.expect() => Ok(()),
            x => self.fail(
                &["C20"],
                "both_keys",
                format!("reading with both keys: {}", x.describe()),
            ),
        }
    }

    fn read_needed(&mut self, b: &B, rng: &mut Rng, q: &Q) -> R {
        let node = match self.walk_b(b) {
            Some(n) => n,
            None => return Ok(()),
        };
        let n = self.model.len();
        let tree = b.snapshot();
        let all: FnvHashSet<Link> = node.reachable().into_iter().collect();
        for q in self.queries(rng, q) {
            let mut need = Vec::new();
            let which = rng.below(10);
            let o = rng.below(n + 1);
            match which {
                0 | 1 => reads::needed_range(&node, &(o..o.saturating_add(1)), &mut need),
                2 => reads::needed_range(&node, &(o..u64::MAX), &mut need),
                _ => reads::needed(&node, &q, &mut need),
            }
            let need: FnvHashSet<Link> = need.into_iter().collect();
            let hidden: FnvHashSet<Link> = all.difference(&need).copied().collect();
            if !hidden.is_empty() && !need.is_empty() {
                self.nontrivial |= self.prop == "C21";
                self.stat("partial_availability");
            }
            // half of the time gone for good, the rest of the time just fetched needlessly
            self.store.lock().hidden = hidden;
            self.store.arm(&[]);
            let forest = self.cold();
            let res = match which {
                0 | 1 => match guard(|| forest.get(&tree, o)) {
                    Out::Ok(x) if x == self.model.get(o) => Ok(()),
                    x => Err(format!("get({}): {}", o, x.describe())),
                },
                2 => {
                    let want: Vec<_> = (o.min(n)..n).map(|i| self.model.get(i)).collect();
                    match guard(|| forest.collect_from(&tree, o)) {
                        Out::Ok(x) if x == want => Ok(()),
                        x => Err(format!("collect_from({}): {}", o, x.describe())),
                    }
                }
                _ => {
                    let k = KINDS[which as usize - 3];
                    let mut want = self.model.filtered(&q);
                    if k.reverse() {
                        want.reverse();
                    }
                    let got = reads::elements(k, &forest, &tree, &q);
                    reads::check_complete(&got, &want)
                        .map_err(|e| format!("{:?} with {:?}: {}", k, q, e))
                }
            };
            let fired = self.store.disarm();
            self.store.lock().hidden.clear();
            mixh(&mut self.hash, fired.len() as u64);
            let res = if !fired.is_empty() && res.is_ok() {
                Err(format!("{:?} with {:?} touched a block it does not need", which, q))
            } else {
                res
            };
            if let Err(e) = res {
                return self.fail(
                    &["C21"],
                    "needs_too_much",
                    format!(
                        "{} although only {} of {} blocks were unavailable, none of them needed: {}",
                        e,
                        all.len() - need.len(),
                        all.len(),
                        node.shape()
                    ),
                );
            }
        }
        // a live stream over one snapshot
        let mut need = Vec::new();
        let q2 = Q::And(Box::new(q.clone()), Box::new(Q::Off(2, 0, 0)));
        reads::needed(&node, &q2, &mut need);
        let need: FnvHashSet<Link> = need.into_iter().collect();
        self.store.lock().hidden = all.difference(&need).copied().collect();
        let forest = self.cold();
        let want = self.model.filtered(q);
        let query = q.real();
        let got = reads::pull_stream(move || {
            use futures::StreamExt;
            forest
                .stream_trees(query, futures::stream::iter(vec![tree]))
                .boxed_local()
        });
        self.store.lock().hidden.clear();
        if let Err(e) = reads::check_complete(&got, &want) {
            return self.fail(
                &["C21"],
                "needs_too_much",
                format!("stream_trees with {:?}: {}", q, e),
            );
        }
        Ok(())
    }

    // ------------------------------------------------------------------------------------------

    fn finish(&mut self, b: &mut B) -> R {
        if self.lossy {
            return Ok(());
        }
        match self.prop {
            "C03" => {
                let mut done = FnvHashSet::default();
                for i in 0..self.roots.len() {
                    let rec = self.roots[i].clone();
                    if done.insert(rec.link) && done.len() <= 20 {
                        self.verify_root(&rec)?;
                    }
                }
            }
            "C02" | "C11" | "C12" | "C13" | "C19" => {
                // still usable
                if !self.degenerate {
                    let items = Items {
                        n: 3,
                        seed: 5,
                        keys: plan::KeyMode::Monotone,
                        shapes: 0,
                        bad: None,
                        fat: 0,
                    };
                    let mul = self.cfg.mul;
                    let e = self.make(&items, mul);
                    self.mutate(b, &Op::Extend(items), &e, &[], false, 0)?;
                }
                let mut rng = Rng::new(1);
                let (forest, tree) = self.tree(b, &mut rng);
                let want = self.model.filtered(&Q::All);
                let got = reads::elements(Kind::Iter, &forest, &tree, &Q::All);
                if let Err(e) = reads::check_complete(&got, &want) {
                    return self.fail(&self.usable(), "content", format!("at the end: {}", e));
                }
            }
            _ => {}
        }
        Ok(())
    }
}

fn own_summary(i: &Index<TT>) -> KeyRange {
    match i {
        Index::Leaf(l) => KeyRange(
            l.keys.0.iter().map(|k| k.k).min().unwrap_or(u64::MAX),
            l.keys.0.iter().map(|k| k.k).max().unwrap_or(0),
        ),
        Index::Branch(b) => KeyRange(
            b.summaries.as_ref().iter().map(|k| k.0).min().unwrap_or(u64::MAX),
            b.summaries.as_ref().iter().map(|k| k.1).max().unwrap_or(0),
        ),
    }
}

/// for use by writers that are not banyan
pub fn put_all(w: &mut AnyWriter, blocks: &[Vec<u8>]) -> anyhow::Result<Vec<Link>> {
    blocks.iter().map(|b| w.put(b.clone())).collect()
}

/// questions about the structure of a tree
fn structural(what: u64, forest: &F, tree: &Tree<TT, Val>, b: &B) -> Out<String> {
    match what {
        0 | 1 => guard(|| {
            forest
                .left_roots(tree)
                .map(|x| x.iter().map(|x| format!("{:?} ", x.link())).collect())
        }),
        2 => guard(|| {
            forest
                .roots(b)
                .map(|x| x.iter().map(|x| format!("{:?} ", x.link())).collect())
        }),
        3 => guard(|| forest.is_packed(tree).map(|x| x.to_string())),
        4 | 5 => guard(|| forest.check_invariants(b).map(|x| format!("{:?}", x))),
        6 => guard(|| {
            if tree.is_empty() {
                return Ok(String::new());
            }
            forest
                .dump_graph(tree, |(_, n)| n.to_string())
                .map(|x| format!("{:?}", x))
        }),
        _ => guard(|| match (tree.link(), tree.level() > 0) {
            (Some(l), true) => {
                let secrets = tree.secrets().unwrap().clone();
                forest
                    .load_tree::<Val>(secrets, l)
                    .map(|x| format!("{} {:?}", x.count(), x.link()))
            }
            _ => Ok(String::new()),
        }),
    }
}

/// what the library tells about the structure has to be what is there
fn introspect(forest: &F, tree: &Tree<TT, Val>, b: &B, node: &Node) -> Result<(), String> {
    match guard(|| forest.is_packed(tree)) {
        Out::Ok(x) if x == node.packed() => {}
        x => return Err(format!("is_packed: {:?}", x)),
    }
    match guard(|| forest.roots(b)) {
        Out::Ok(roots) => {
            // sealed subtrees in order, not inside of each other, of descending level
            let all = node.all();
            let mut pos = 0;
            let mut level = u32::MAX;
            for r in &roots {
                let found = all[pos..].iter().position(|n| {
                    n.link() == *r.link() && n.level() == r.level() && n.count() == r.count()
                });
                let i = match found {
                    Some(i) => pos + i,
                    None => return Err(format!("roots: {:?} is not where it should be", r.link())),
                };
                if !all[i].sealed() || r.level() > level {
                    return Err(format!("roots: level {} after {}", r.level(), level));
                }
                level = r.level();
                pos = i + all[i].all().len();
            }
            let front = node.front();
            if roots.len() < front.len() {
                return Err(format!("only {} roots", roots.len()));
            }
            for (r, n) in roots.iter().zip(front) {
                if *r.link() != n.link() || r.count() != n.count() {
                    return Err("roots do not start with the sealed front".into());
                }
            }
        }
        x => return Err(format!("roots: {}", x.describe())),
    }
    let kind = |(_, n): (usize, &banyan::index::NodeInfo<TT, _>)| match n {
        banyan::index::NodeInfo::Branch(i, _) => (true, false, i.level, i.count),
        banyan::index::NodeInfo::PurgedBranch(i) => (true, true, i.level, i.count),
        banyan::index::NodeInfo::Leaf(i, _) => (false, false, 0, i.keys().count() as u64),
        banyan::index::NodeInfo::PurgedLeaf(i) => (false, true, 0, i.keys().count() as u64),
    };
    match guard(|| forest.dump_graph(tree, kind)) {
        Out::Ok((edges, nodes)) => {
            let all = node.all();
            let want: Vec<_> = all
                .iter()
                .map(|n| {
                    let leaf = matches!(n.index, Index::Leaf(_));
                    (!leaf, n.link().is_none(), n.level(), n.count())
                })
                .collect();
            if nodes.keys().copied().collect::<Vec<_>>() != (0..all.len()).collect::<Vec<_>>()
                || nodes.values().copied().collect::<Vec<_>>() != want
            {
                return Err(format!("dump_graph: {:?} instead of {:?}", nodes, want));
            }
            fn expect(n: &Node, id: usize, res: &mut Vec<(usize, usize)>) -> usize {
                let mut next = id + 1;
                for c in n.children() {
                    res.push((id, next));
                    next = expect(c, next, res);
                }
                next
            }
            let mut want = vec![];
            expect(node, 0, &mut want);
            let mut edges = edges;
            edges.sort_unstable();
            want.sort_unstable();
            if edges != want {
                return Err(format!("dump_graph: edges {:?} instead of {:?}", edges, want));
            }
        }
        x => return Err(format!("dump_graph: {}", x.describe())),
    }
    Ok(())
}
