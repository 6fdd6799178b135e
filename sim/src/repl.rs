//! C15: replication without keys. A writer node and replicas that only know what is visible in
//! blocks, in simulated time over a simulated network that loses, duplicates, delays, reorders and
//! partitions; nodes crash and restart with what was durable.
use crate::conc::{lock, Env, Shared, Snap, WOp, Writer};
use crate::outcome::{guard, phase, Out, RunResult};
use crate::plan::{random_items, secrets, Cfg, Items, Profile, KEYS};
use crate::query::Q;
use crate::reads::{Kind, KINDS};
use crate::rng::{mix, Rng};
use crate::store::{AnyReader, Store};
use crate::types::{hash64, Link, Val, TT};
use crate::walk::outer;
use banyan::store::BranchCache;
use banyan::Forest;
use fnv::FnvHashSet;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Write(WOp),
    /// nobody hears from the nodes with a bit set in the mask but those
    Partition { mask: u8, ms: u32 },
    /// the node dies, and comes back. `keep` of 1000 writes that were not synced survive
    Crash { node: u8, keep: u32, down: u32 },
    /// delete what is not reachable from the newest `keep` roots
    Gc { node: u8, keep: u8 },
    /// somebody with keys reads on a node
    Read { node: u8, snap: u32, kind: u8, q: Q },
    Get { node: u8, snap: u32, offs: u32 },
    Collect { node: u8, snap: u32, from: u32 },
    Open { node: u8, snap: u32, kind: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReplPlan {
    pub cfg: Cfg,
    pub secrets: u8,
    pub replicas: u8,
    /// replica n only talks to n-1
    pub chain: bool,
    pub loss: u8,
    pub dup: u8,
    pub delay: (u32, u32),
    /// tick length per node
    pub tick: Vec<u32>,
    pub batch: u8,
    /// order in which missing blocks are asked for
    pub newest_first: bool,
    pub cache: u32,
    pub mem: Option<(u32, u32)>,
    pub net_seed: u64,
    /// time in ms, what happens
    pub events: Vec<(u32, Ev)>,
}

fn write_op(rng: &mut Rng, count: &mut u64) -> WOp {
    let prof = Profile::default();
    let mut items = |rng: &mut Rng, max: u32| {
        let mut i = random_items(rng, &prof);
        i.n = i.n.min(max);
        i.bad = None;
        *count += i.n as u64;
        i
    };
    match rng.below(20) {
        0..=7 => WOp::Extend(items(rng, 60)),
        8..=11 => WOp::Unpacked(items(rng, 12)),
        12 | 13 => WOp::Pack,
        14 | 15 => WOp::Retain(Q::random(rng, KEYS, *count, 1)),
        16 => WOp::Repair,
        17 => WOp::Rollback(items(rng, 30)),
        _ => WOp::Reopen,
    }
}

pub fn generate(_prop: &str, seed: u64) -> ReplPlan {
    let mut rng = Rng::new(mix(seed, 0x4e71));
    let replicas = rng.range(1, 3) as u8;
    let n = rng.range(3, 25);
    let mut t = 0;
    let mut count = 0;
    let mut events = vec![];
    let gap = *rng.pick(&[5, 50, 300]);
    let calm = rng.pct(20);
    for i in 0..n {
        t += rng.below(gap * 2) as u32;
        let node = |rng: &mut Rng| rng.below(replicas as u64 + 1) as u8;
        let snap = rng.below(1000) as u32;
        let ev = match rng.below(20) {
            _ if i == 0 => Ev::Write(write_op(&mut rng, &mut count)),
            0..=6 => Ev::Write(write_op(&mut rng, &mut count)),
            7 | 8 => Ev::Partition {
                mask: rng.range(1, 14) as u8,
                ms: rng.below(gap * 6) as u32,
            },
            9 | 10 | 11 => Ev::Crash {
                node: node(&mut rng),
                keep: rng.below(1001) as u32,
                down: rng.below(gap * 4) as u32,
            },
            12 | 13 => Ev::Gc {
                node: node(&mut rng),
                keep: rng.range(1, 3) as u8,
            },
            14 | 15 => Ev::Read {
                node: node(&mut rng),
                snap,
                kind: rng.below(7) as u8,
                q: if rng.bool() {
                    Q::All
                } else {
                    Q::random(&mut rng, KEYS, count, 1)
                },
            },
            16 => Ev::Get {
                node: node(&mut rng),
                snap,
                offs: rng.below(count + 2) as u32,
            },
            17 => Ev::Collect {
                node: node(&mut rng),
                snap,
                from: rng.below(count + 2) as u32,
            },
            _ => Ev::Open {
                node: node(&mut rng),
                snap,
                kind: rng.below(7) as u8,
            },
        };
        events.push((t, ev));
    }
    let lo = rng.range(1, 30) as u32;
    ReplPlan {
        cfg: Cfg::random(&mut rng),
        secrets: rng.below(3) as u8,
        replicas,
        chain: rng.pct(40),
        loss: if calm { 0 } else { *rng.pick(&[0, 5, 20, 50]) },
        dup: if calm { 0 } else { *rng.pick(&[0, 10, 30]) },
        delay: (lo, lo + rng.skewed(200) as u32),
        tick: (0..=replicas).map(|_| *rng.pick(&[10, 20, 50, 200])).collect(),
        batch: *rng.pick(&[1, 3, 10, 100]),
        newest_first: rng.bool(),
        cache: *rng.pick(&[0, 1000, 1 << 26]),
        mem: if rng.pct(25) { Some((1000, 5000)) } else { None },
        net_seed: rng.u64(),
        events,
    }
}

pub fn shrink(p: &ReplPlan) -> Vec<ReplPlan> {
    let mut out = vec![];
    let n = p.events.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut from = 0;
        while from < n {
            let mut q = p.clone();
            q.events.drain(from..(from + size).min(n));
            out.push(q);
            from += size;
        }
        size /= 2;
    }
    for i in 0..n {
        let mut alts = vec![];
        match &p.events[i].1 {
            Ev::Write(w) => {
                let mut items = |x: &Items, f: &dyn Fn(Items) -> WOp| {
                    for n in [1, x.n / 2, x.n.saturating_sub(1)] {
                        if n >= 1 && n < x.n {
                            alts.push(Ev::Write(f(Items { n, ..*x })));
                        }
                    }
                    if x.shapes != 0 {
                        alts.push(Ev::Write(f(Items { shapes: 0, ..*x })));
                    }
                };
                match w {
                    WOp::Extend(x) => items(x, &WOp::Extend),
                    WOp::Unpacked(x) => items(x, &WOp::Unpacked),
                    WOp::Rollback(x) => items(x, &WOp::Rollback),
                    _ => {}
                }
            }
            Ev::Read { node, snap, kind, q } if *q != Q::All => alts.push(Ev::Read {
                node: *node,
                snap: *snap,
                kind: *kind,
                q: Q::All,
            }),
            _ => {}
        }
        for a in alts {
            let mut q = p.clone();
            q.events[i].1 = a;
            out.push(q);
        }
    }
    let mut alt = |f: &dyn Fn(&mut ReplPlan) -> bool| {
        let mut q = p.clone();
        if f(&mut q) {
            out.push(q);
        }
    };
    alt(&|q| std::mem::replace(&mut q.loss, 0) != 0);
    alt(&|q| std::mem::replace(&mut q.dup, 0) != 0);
    alt(&|q| std::mem::replace(&mut q.chain, false));
    alt(&|q| std::mem::replace(&mut q.cache, 0) != 0);
    alt(&|q| q.mem.take().is_some());
    alt(&|q| std::mem::replace(&mut q.delay, (1, 1)) != (1, 1));
    alt(&|q| std::mem::replace(&mut q.batch, 100) != 100);
    alt(&|q| {
        let c = q.replicas > 1;
        q.replicas = 1;
        c
    });
    alt(&|q| {
        let c = q.tick.iter().any(|x| *x != 10);
        q.tick.iter_mut().for_each(|x| *x = 10);
        c
    });
    let simple = Cfg {
        msb: 2,
        mkb: 2,
        mlc: 2,
        tls: 10000,
        mul: 16 << 20,
        zl: 1,
    };
    alt(&|q| std::mem::replace(&mut q.cfg, simple) != simple);
    out
}

// ----------------------------------------------------------------------------------------------

#[derive(Clone)]
enum Msg {
    Announce(u64, Link),
    Want(Vec<Link>),
    Blocks(Vec<(Link, Arc<[u8]>)>),
}

enum What {
    Plan(usize),
    Tick(usize, u32),
    Deliver(usize, usize, Msg),
    Up(usize),
}

struct Node {
    store: Store,
    env: Env,
    up: bool,
    /// restarts
    life: u32,
    /// newest root known
    target: Option<(u64, Link)>,
    /// on disk
    durable_target: Option<(u64, Link)>,
    synced: usize,
    /// roots completely here: (generation, root)
    complete: BTreeMap<u64, Link>,
    ticks: u64,
}

struct Net<'a> {
    p: &'a ReplPlan,
    rng: Rng,
    now: u64,
    seq: u64,
    queue: BinaryHeap<Reverse<(u64, u64, usize)>>,
    what: BTreeMap<u64, What>,
    nodes: Vec<Node>,
    /// node mask, until
    partitions: Vec<(u8, u64)>,
    calm: bool,
    sh: Shared,
    snaps: Vec<Snap>,
    w: Writer,
    blobs: FnvHashSet<Link>,
    done_plan: usize,
}

impl<'a> Net<'a> {
    fn at(&mut self, t: u64, w: What) {
        self.seq += 1;
        self.queue.push(Reverse((t, self.seq, 0)));
        self.what.insert(self.seq, w);
    }
    fn connected(&self, a: usize, b: usize) -> bool {
        if self.p.chain && (a as i64 - b as i64).abs() != 1 {
            return false;
        }
        if self.calm {
            return true;
        }
        !self
            .partitions
            .iter()
            .any(|(m, until)| *until > self.now && (m >> a & 1) != (m >> b & 1))
    }
    fn peer(&mut self, a: usize) -> Option<usize> {
        let n = self.nodes.len();
        let ps: Vec<usize> = (0..n)
            .filter(|b| *b != a && (!self.p.chain || (a as i64 - *b as i64).abs() == 1))
            .collect();
        if ps.is_empty() {
            None
        } else {
            Some(ps[self.rng.idx(ps.len())])
        }
    }
    fn send(&mut self, from: usize, to: usize, m: Msg) {
        self.sh.stat("messages_sent");
        if !self.connected(from, to) {
            self.sh.stat("message_partitioned");
            return;
        }
        let mut copies = 1;
        if !self.calm {
            if self.rng.pct(self.p.loss as u64) {
                self.sh.stat("message_lost");
                return;
            }
            if self.rng.pct(self.p.dup as u64) {
                self.sh.stat("message_duplicated");
                copies = 2;
            }
        }
        for _ in 0..copies {
            let d = self.rng.range(self.p.delay.0 as u64, self.p.delay.1 as u64);
            self.at(self.now + d, What::Deliver(from, to, m.clone()));
        }
    }

    /// blocks that are known to be needed, but not here; and everything that is
    fn follow(store: &Store, roots: &[Link]) -> (Vec<Link>, FnvHashSet<Link>) {
        let mut seen = FnvHashSet::default();
        let mut missing = vec![];
        let mut todo: Vec<Link> = roots.to_vec();
        while let Some(l) = todo.pop() {
            if !seen.insert(l) {
                continue;
            }
            match store.raw(&l) {
                None => missing.push(l),
                Some(data) => {
                    if let Ok((_, cids)) = outer(&data) {
                        todo.extend(cids.iter().rev().filter_map(|c| Link::from_any_cid(c).ok()));
                    }
                }
            }
        }
        (missing, seen)
    }

    fn insert(&mut self, n: usize, link: Link, data: Arc<[u8]>) {
        let mut s = self.nodes[n].store.lock();
        if !s.blocks.contains_key(&link) {
            s.order.push(link);
            s.blocks.insert(link, data);
        }
    }

    fn tick(&mut self, n: usize) {
        self.nodes[n].ticks += 1;
        if n == 0 {
            if let Some((g, l)) = self.nodes[0].target {
                for b in 1..self.nodes.len() {
                    if self.nodes.len() == 2 || self.rng.pct(70) {
                        self.send(0, b, Msg::Announce(g, l));
                    }
                }
            }
            return;
        }
        if self.nodes[n].ticks % 3 == 0 {
            self.fsync(n);
        }
        let (g, root) = match self.nodes[n].target {
            Some(x) => x,
            None => return,
        };
        if self.rng.pct(30) {
            if let Some(b) = self.peer(n) {
                self.send(n, b, Msg::Announce(g, root));
            }
        }
        let (mut missing, _) = Self::follow(&self.nodes[n].store, &[root]);
        if missing.is_empty() {
            if !self.nodes[n].complete.contains_key(&g) {
                self.sh.stat("root_replicated");
                self.nodes[n].complete.insert(g, root);
                self.verify(n, g, root);
            }
            return;
        }
        self.nodes[n].complete.remove(&g);
        if self.p.newest_first {
            missing.reverse();
        }
        missing.truncate(self.p.batch as usize);
        if let Some(b) = self.peer(n) {
            self.send(n, b, Msg::Want(missing));
        }
    }

    fn fsync(&mut self, n: usize) {
        let len = self.nodes[n].store.lock().order.len();
        let x = &mut self.nodes[n];
        x.synced = len;
        x.durable_target = x.target;
    }

    /// the node thinks that it has everything
    fn verify(&mut self, n: usize, g: u64, root: Link) {
        let snap = match self.snaps.get(g as usize) {
            Some(s) => s.clone(),
            None => return,
        };
        let lacking: Vec<Link> = {
            let s = self.nodes[n].store.lock();
            snap.needed
                .iter()
                .filter(|l| !s.blocks.contains_key(*l))
                .copied()
                .collect()
        };
        if !lacking.is_empty() {
            self.sh.fail(
                "incomplete",
                format!(
                    "node {} followed all visible links of root {} ({} elements), but lacks {} of {} blocks",
                    n,
                    root,
                    snap.expect.len(),
                    lacking.len(),
                    snap.needed.len()
                ),
            );
            return;
        }
        // somebody with keys comes along
        let cold: Forest<TT, AnyReader> =
            Forest::new(AnyReader::new(&self.nodes[n].store, None), BranchCache::new(0));
        let sec = secrets(self.p.secrets);
        match guard(|| cold.load_tree::<Val>(sec, root)) {
            Out::Ok(t) => match guard(|| cold.collect(&t)) {
                Out::Ok(xs) if xs == *snap.expect => {}
                Out::Ok(xs) => self.sh.fail(
                    "content",
                    format!(
                        "replica of root {} has {} elements, original {}",
                        root,
                        xs.len(),
                        snap.expect.len()
                    ),
                ),
                x => self.sh.fail(
                    "unreadable",
                    format!("complete replica of root {} can not be read: {}", root, x.describe()),
                ),
            },
            x => self.sh.fail(
                "unreadable",
                format!("complete replica of root {} can not be opened: {}", root, x.describe()),
            ),
        }
        self.sh.stat("replica_verified");
    }

    fn crash(&mut self, n: usize, keep: u32, down: u32) {
        if !self.nodes[n].up {
            return;
        }
        self.sh.stat("crash");
        let up = self.now + down as u64 + 1;
        if n == 0 {
            // the store of the writer is durable, and it knows its last published root
            self.nodes[0].env = Env::on(&self.nodes[0].store, self.p.cache, self.p.mem, &self.sh);
            let env = &self.nodes[0].env;
            let old = &self.w;
            let mut w = env.writer_with(0, self.p.cfg, self.p.secrets);
            w.next_id = old.next_id;
            if let Some(s) = self.snaps.last() {
                w.restore(env, s);
            }
            self.w = w;
        } else {
            let node = &mut self.nodes[n];
            {
                let mut s = node.store.lock();
                let len = s.order.len();
                let synced = node.synced.min(len);
                let end = synced + (len - synced) * keep as usize / 1000;
                let kept: BTreeSet<Link> = s.order[..end].iter().copied().collect();
                let lost: Vec<Link> = s.order[end..].to_vec();
                for l in lost {
                    if !kept.contains(&l) {
                        s.blocks.remove(&l);
                    }
                }
                s.order.truncate(end);
                node.synced = end;
            }
            node.target = node.durable_target;
            node.complete.clear();
            node.env = Env::on(&node.store, self.p.cache, self.p.mem, &self.sh);
        }
        self.nodes[n].up = false;
        self.nodes[n].life += 1;
        self.at(up, What::Up(n));
    }

    fn gc(&mut self, n: usize, keep: u8) {
        let mut roots: Vec<Link> = vec![];
        if n == 0 {
            let k = self.snaps.len().saturating_sub(keep as usize);
            roots.extend(self.snaps[k..].iter().filter_map(|s| s.tree.link()));
        } else {
            roots.extend(self.nodes[n].target.map(|x| x.1));
            roots.extend(self.nodes[n].durable_target.map(|x| x.1));
            roots.extend(self.nodes[n].complete.values().rev().take(keep as usize));
        }
        let (_, seen) = Self::follow(&self.nodes[n].store, &roots);
        let blobs = &self.blobs;
        let removed = {
            let mut s = self.nodes[n].store.lock();
            let before = s.blocks.len();
            s.blocks
                .retain(|l, _| seen.contains(l) || (n == 0 && blobs.contains(l)));
            let blocks = s.blocks.keys().copied().collect::<FnvHashSet<_>>();
            let synced = self.nodes[n].synced.min(s.order.len());
            let tail = s.order.split_off(synced);
            s.order.retain(|l| blocks.contains(l));
            let synced = s.order.len();
            s.order.extend(tail.into_iter().filter(|l| blocks.contains(l)));
            (before - s.blocks.len(), synced)
        };
        self.nodes[n].synced = removed.1;
        let kept: BTreeSet<Link> = roots.into_iter().collect();
        self.nodes[n].complete.retain(|_, l| kept.contains(l));
        self.sh.stat("gc");
        if removed.0 > 0 {
            self.sh.stat("gc_removed_something");
        }
        // what the writer kept must be fine
        if n == 0 {
            if let Some(s) = self.snaps.last().cloned() {
                let env = &self.nodes[0].env;
                env.read(&s, &s.tree, Kind::Iter, &Q::All);
            }
        }
    }

    fn plan_event(&mut self, i: usize) {
        let ev = self.p.events[i].1.clone();
        self.sh
            .note(|| format!("{} ms: {}", self.now, serde_json::to_string(&ev).unwrap()));
        let nn = self.nodes.len();
        match ev {
            Ev::Write(op) => {
                if !self.nodes[0].up {
                    return;
                }
                let before = self.w.own.len();
                let env = &self.nodes[0].env;
                env.write(&mut self.w, &op);
                // what values refer to is there as well
                let mut refs = vec![];
                for s in &self.w.own[before.min(self.w.own.len())..] {
                    let from = self.snaps.last().map(|x| x.elems.len()).unwrap_or(0);
                    for e in s.elems.iter().skip(from.min(s.elems.len())) {
                        refs.extend(e.links.iter().map(|x| x.0).chain(e.key_link));
                    }
                }
                for r in refs {
                    let l = self.nodes[0].store.put_raw(&r.to_be_bytes());
                    self.blobs.insert(l);
                }
                let new: Vec<Snap> = self.w.own.split_off(before);
                for s in new {
                    self.w.own.push(s.clone());
                    if let Some(l) = s.tree.link() {
                        self.snaps.push(s);
                        self.nodes[0].target = Some((self.snaps.len() as u64 - 1, l));
                    }
                }
                self.tick(0);
            }
            Ev::Partition { mask, ms } => {
                self.sh.stat("partition");
                self.partitions.push((mask, self.now + ms as u64));
            }
            Ev::Crash { node, keep, down } => self.crash(node as usize % nn, keep, down),
            Ev::Gc { node, keep } => self.gc(node as usize % nn, keep),
            Ev::Read { node, snap, kind, q } => self.on(node, snap, |env, s| {
                env.read(s, &s.tree, KINDS[kind as usize % 7], &q)
            }),
            Ev::Get { node, snap, offs } => {
                self.on(node, snap, |env, s| env.get(s, offs as u64))
            }
            Ev::Collect { node, snap, from } => {
                self.on(node, snap, |env, s| env.collect(s, from as u64))
            }
            Ev::Open { node, snap, kind } => self.on(node, snap, |env, s| env.open(s, kind)),
        }
    }

    fn on(&mut self, node: u8, snap: u32, f: impl FnOnce(&Env, &Snap)) {
        let n = node as usize % self.nodes.len();
        if self.snaps.is_empty() || !self.nodes[n].up {
            return;
        }
        // mostly the root the node is interested in
        let i = match self.nodes[n].target {
            Some((g, _)) if snap % 2 == 0 => g as usize,
            _ => snap as usize % self.snaps.len(),
        };
        let s = self.snaps[i].clone();
        let mut env = self.nodes[n].env.clone(true);
        env.faulty = true;
        f(&env, &s);
        self.sh.stat("read_on_node");
    }

    fn step(&mut self) -> bool {
        let (t, id) = match self.queue.pop() {
            Some(Reverse((t, id, _))) => (t, id),
            None => return false,
        };
        self.now = t;
        let w = match self.what.remove(&id) {
            Some(w) => w,
            None => return true,
        };
        self.sh.hash(t << 8 | id & 255);
        match w {
            What::Plan(i) => {
                self.plan_event(i);
                self.done_plan += 1;
            }
            What::Tick(n, life) => {
                if self.nodes[n].up && self.nodes[n].life == life {
                    self.tick(n);
                    let d = self.p.tick.get(n).copied().unwrap_or(10).max(1) as u64;
                    self.at(self.now + d, What::Tick(n, life));
                }
            }
            What::Up(n) => {
                self.nodes[n].up = true;
                let life = self.nodes[n].life;
                self.at(self.now + 1, What::Tick(n, life));
            }
            What::Deliver(from, to, m) => {
                if !self.nodes[to].up {
                    self.sh.stat("message_to_dead_node");
                    return true;
                }
                self.sh.stat("messages_delivered");
                match m {
                    Msg::Announce(g, l) => {
                        let newer = self.nodes[to].target.map(|x| x.0 < g).unwrap_or(true);
                        if newer && to != 0 {
                            self.nodes[to].target = Some((g, l));
                            self.sh.state(hash64(9, &[to as u8, g as u8]));
                        }
                    }
                    Msg::Want(ls) => {
                        let xs: Vec<_> = ls
                            .iter()
                            .filter_map(|l| self.nodes[to].store.raw(l).map(|d| (*l, d)))
                            .collect();
                        if !xs.is_empty() {
                            self.send(to, from, Msg::Blocks(xs));
                        }
                    }
                    Msg::Blocks(bs) => {
                        for (l, d) in bs {
                            if Link::digest(&d) == l {
                                self.insert(to, l, d);
                            }
                        }
                    }
                }
            }
        }
        true
    }

    fn converged(&self) -> bool {
        let (g, _) = match self.nodes[0].target {
            Some(x) => x,
            None => return true,
        };
        self.nodes[1..].iter().all(|n| n.complete.contains_key(&g))
    }

    fn state(&self) {
        let mut b = vec![];
        for n in &self.nodes {
            b.push(n.up as u8);
            b.push(n.target.map(|x| x.0 as u8 + 1).unwrap_or(0));
            b.push(n.complete.len() as u8);
            b.extend((n.store.lock().blocks.len() as u16).to_le_bytes());
        }
        self.sh.state(hash64(8, &b));
    }
}

pub fn run(_prop: &str, p: &ReplPlan, trace: bool) -> RunResult {
    phase("replication", &["C15"]);
    let sh = Shared::new(trace);
    let nodes: Vec<Node> = (0..=p.replicas as usize)
        .map(|_| {
            let store = Store::new();
            Node {
                env: Env::on(&store, p.cache, p.mem, &sh),
                store,
                up: true,
                life: 0,
                target: None,
                durable_target: None,
                synced: 0,
                complete: BTreeMap::new(),
                ticks: 0,
            }
        })
        .collect();
    let w = nodes[0].env.writer_with(0, p.cfg, p.secrets);
    let mut net = Net {
        p,
        rng: Rng::new(p.net_seed),
        now: 0,
        seq: 0,
        queue: BinaryHeap::new(),
        what: BTreeMap::new(),
        nodes,
        partitions: vec![],
        calm: false,
        sh: sh.clone(),
        snaps: vec![],
        w,
        blobs: FnvHashSet::default(),
        done_plan: 0,
    };
    for (i, (t, _)) in p.events.iter().enumerate() {
        net.at(*t as u64, What::Plan(i));
    }
    for n in 0..net.nodes.len() {
        net.at(1 + n as u64, What::Tick(n, 0));
    }
    let bad = |sh: &Shared| lock(&sh.0).violation.is_some() || lock(&sh.0).foreign.is_some();
    let mut steps = 0u64;
    while net.done_plan < p.events.len() && steps < 200_000 && !bad(&sh) {
        net.step();
        steps += 1;
        if steps % 16 == 0 {
            net.state();
        }
    }
    let t_heal = net.now;
    if !bad(&sh) {
        // everything works from now on
        net.calm = true;
        sh.note(|| format!("{} ms: no more faults", net.now));
        let blocks = net.nodes[0].store.lock().blocks.len() as u64 + 20;
        let tick = p.tick.iter().copied().max().unwrap_or(10) as u64;
        let rtt = 2 * p.delay.1 as u64 + 2 * tick;
        // each round asks for a batch, from the right neighbour at least every few rounds
        let limit = net.now
            + rtt * 40 * p.replicas as u64 * (blocks / p.batch.max(1) as u64 + 30)
            + 5_000;
        while !net.converged() && net.now < limit && !bad(&sh) {
            net.step();
            steps += 1;
        }
        if !bad(&sh) && !net.converged() {
            sh.fail(
                "not_converged",
                format!(
                    "{} ms after all faults stopped a replica is still not complete",
                    net.now - t_heal
                ),
            );
        }
    }
    // somebody with keys uses the replica from now on
    if !bad(&sh) {
        if let Some(s) = net.snaps.last().cloned() {
            let mut rng = Rng::new(p.net_seed ^ 1);
            for n in 1..net.nodes.len() {
                let env = &net.nodes[n].env;
                for k in KINDS {
                    env.read(&s, &s.tree, k, &Q::random(&mut rng, KEYS, s.expect.len() as u64, 1));
                }
                env.open(&s, n as u8);
                let mut w = env.writer_with(0, p.cfg, p.secrets);
                w.next_id = 5_000_000;
                w.restore(env, &s);
                let mut i = random_items(&mut rng, &Profile::default());
                i.n = i.n.min(20);
                i.bad = None;
                env.write(&mut w, &WOp::Extend(i));
                if let Some(s) = w.own.last() {
                    env.read(s, &s.tree, Kind::Iter, &Q::All);
                }
            }
        }
    }
    let faults = {
        let l = lock(&sh.0);
        ["message_lost", "message_partitioned", "crash", "gc_removed_something", "message_duplicated"]
            .iter()
            .any(|k| l.stats.contains_key(k))
    };
    for n in &net.nodes {
        sh.hash(n.store.lock().blocks.len() as u64);
    }
    let now = net.now;
    {
        let mut l = lock(&sh.0);
        l.nontrivial = faults && l.stats.contains_key("replica_verified");
    }
    let mut r = sh.finish_plain();
    r.sim_time = now;
    r
}
