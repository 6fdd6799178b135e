//! C08, C09: live streams. One writer, a channel of snapshots, a consumer and the tasks that the code
//! under test spawns, all polled by a simulated executor that decides who runs and what fails.
use crate::outcome::{guard, injected_panic, mixh, phase, Out, RunResult, Stats, Stop, R};
use crate::plan::{random_items, secrets, Cfg, Elem, Items, Profile, KEYS};
use crate::query::Q;
use crate::rng::{mix, Rng};
use crate::store::{AnyReader, AnyWriter, Fault, Store};
use crate::types::{hash64, Link, Val, TT};
use banyan::index::NodeInfo;
use banyan::store::BranchCache;
use banyan::{FilteredChunk, Forest, StreamBuilder, Transaction, Tree};
use futures::executor::ThreadPool;
use futures::future::BoxFuture;
use futures::stream::BoxStream;
use futures::task::{waker, ArcWake};
use futures::{Stream, StreamExt};
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum LiveKind {
    /// stream_trees
    Flat,
    /// stream_trees_chunked
    Chunked,
    /// stream_trees_chunked_threaded
    Threaded,
    /// stream_trees_chunked_reverse
    Reverse,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Extend(Items),
    Unpacked(Items),
    Pack,
    Retain(Q),
    /// append, and roll back
    Rollback(Items),
    /// the writer restarts
    Reopen,
    /// hand the current snapshot to the consumer
    Notify,
    /// hand an empty tree to the consumer
    NotifyEmpty,
    /// hand a snapshot to the consumer that it has got before, or an older one
    NotifyOld { seed: u64 },
    /// run `n` times whoever wants to run, chosen by seed
    Run { n: u8, seed: u64 },
    /// poll the consumer and the tasks even if nobody woke them
    Spurious,
    /// from now on: fetch number n and some that follow fail
    Fail { n: u32, times: u32 },
    /// blocks are not available
    Hide { seed: u64, n: u32 },
    /// new blocks do not reach the reader
    Lag,
    /// everything works again
    Heal,
    /// heal, notify, run until nothing happens any more: everything must have been delivered
    Settle { seed: u64 },
    /// the consumer goes away and comes back, continuing after what it got
    Cancel,
    CacheReset,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LivePlan {
    pub cfg: Cfg,
    pub secrets: u8,
    pub cache: u32,
    pub mem: Option<(u32, u32)>,
    pub kind: LiveKind,
    pub q: Q,
    pub start: u64,
    /// inclusive
    pub end: u64,
    pub acts: Vec<Act>,
}

pub fn generate(prop: &str, seed: u64) -> LivePlan {
    let mut rng = Rng::new(mix(seed, 0x11fe));
    let p = Profile::default();
    let kind = if prop == "C09" {
        LiveKind::Reverse
    } else {
        *rng.pick(&[LiveKind::Flat, LiveKind::Chunked, LiveKind::Chunked, LiveKind::Threaded])
    };
    let n = rng.range(4, 30);
    let faults = rng.pct(75);
    let retain = if rng.pct(15) { 3 } else { 0 };
    let cancel = if rng.pct(25) { 2 } else { 0 };
    let settle = if rng.pct(60) { 4 } else { 0 };
    // the reverse stream needs trees that grow
    let old = if kind != LiveKind::Reverse && rng.pct(30) { 6 } else { 0 };
    let mut count = 0;
    let mut acts = vec![];
    if kind == LiveKind::Reverse || rng.pct(50) {
        let i = random_items(&mut rng, &p);
        count += i.n as u64;
        acts.push(Act::Extend(i));
    }
    for _ in 0..n {
        let f = |x: u64| if faults { x } else { 0 };
        let a = match rng.weighted(&[
            12, 5, 3, retain, 3, 2, 22, 2, 40, 4, f(14), f(8), f(2), f(5), settle, cancel, 1, old,
        ]) {
            0 => {
                let i = random_items(&mut rng, &p);
                count += i.n as u64;
                Act::Extend(i)
            }
            1 => {
                let mut i = random_items(&mut rng, &p);
                i.n = i.n.min(6);
                count += i.n as u64;
                Act::Unpacked(i)
            }
            2 => Act::Pack,
            3 => Act::Retain(Q::random(&mut rng, KEYS, count, 1)),
            4 => Act::Rollback(random_items(&mut rng, &p)),
            5 => Act::Reopen,
            6 => Act::Notify,
            7 => Act::NotifyEmpty,
            8 => Act::Run {
                n: 1 + rng.skewed(40) as u8,
                seed: rng.u64(),
            },
            9 => Act::Spurious,
            10 => Act::Fail {
                n: rng.skewed(30) as u32,
                times: if rng.bool() { 1 } else { 1 + rng.skewed(30) as u32 },
            },
            11 => Act::Hide {
                seed: rng.u64(),
                n: rng.range(1, 4) as u32,
            },
            12 => Act::Lag,
            13 => Act::Heal,
            14 => Act::Settle { seed: rng.u64() },
            15 => Act::Cancel,
            16 => Act::CacheReset,
            _ => Act::NotifyOld { seed: rng.u64() },
        };
        acts.push(a);
    }
    let (start, end) = match rng.below(6) {
        0 | 1 => (0, u64::MAX),
        2 => (rng.range(0, count), u64::MAX),
        3 => (0, rng.range(0, count + 2)),
        _ => {
            let a = rng.range(0, count);
            (a, a + rng.range(0, count + 2))
        }
    };
    let (start, end) = if kind == LiveKind::Flat {
        (0, u64::MAX)
    } else {
        (start, end)
    };
    LivePlan {
        cfg: Cfg::random(&mut rng),
        secrets: rng.below(3) as u8,
        cache: *rng.pick(&[0, 0, 1, 800, 3000, 1 << 26]),
        mem: if rng.pct(15) { Some((1000, 5000)) } else { None },
        kind,
        q: if rng.pct(35) {
            Q::All
        } else {
            Q::random(&mut rng, KEYS, count, 2)
        },
        start,
        end,
        acts,
    }
}

pub fn shrink(p: &LivePlan) -> Vec<LivePlan> {
    let mut res = vec![];
    let n = p.acts.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut from = 0;
        while from < n {
            let to = (from + size).min(n);
            let mut q = p.clone();
            q.acts.drain(from..to);
            res.push(q);
            from = to;
        }
        size /= 2;
    }
    for i in 0..n {
        let mut alt = vec![];
        match &p.acts[i] {
            Act::Extend(x) => {
                for n in [1, x.n / 2, x.n.saturating_sub(1)] {
                    if n >= 1 && n < x.n {
                        alt.push(Act::Extend(Items { n, ..*x }));
                    }
                }
                if x.shapes != 0 {
                    alt.push(Act::Extend(Items { shapes: 0, ..*x }));
                }
            }
            Act::Unpacked(x) if x.n > 1 => alt.push(Act::Unpacked(Items { n: x.n - 1, ..*x })),
            Act::Run { n, seed } if *n > 1 => {
                alt.push(Act::Run { n: 1, seed: *seed });
                alt.push(Act::Run {
                    n: n - 1,
                    seed: *seed,
                });
            }
            Act::Fail { n, times } if *times > 1 => alt.push(Act::Fail { n: *n, times: 1 }),
            Act::Hide { seed, n } if *n > 1 => alt.push(Act::Hide { seed: *seed, n: 1 }),
            _ => {}
        }
        for a in alt {
            let mut q = p.clone();
            q.acts[i] = a;
            res.push(q);
        }
    }
    if p.q != Q::All {
        res.push(LivePlan {
            q: Q::All,
            ..p.clone()
        });
    }
    if let Q::And(a, b) | Q::Or(a, b) = &p.q {
        for x in [a, b] {
            res.push(LivePlan {
                q: (**x).clone(),
                ..p.clone()
            });
        }
    }
    if p.mem.is_some() {
        res.push(LivePlan {
            mem: None,
            ..p.clone()
        });
    }
    if p.cache != 0 {
        res.push(LivePlan {
            cache: 0,
            ..p.clone()
        });
    }
    if p.end != u64::MAX {
        res.push(LivePlan {
            end: u64::MAX,
            ..p.clone()
        });
    }
    if p.start != 0 {
        res.push(LivePlan {
            start: 0,
            ..p.clone()
        });
    }
    let simple = Cfg {
        msb: 2,
        mkb: 2,
        mlc: 2,
        tls: 10000,
        mul: 16 << 20,
        zl: 1,
    };
    if p.cfg != simple {
        res.push(LivePlan {
            cfg: simple,
            ..p.clone()
        });
    }
    res
}

// ----------------------------------------------------------------------------------------------

struct Flag(AtomicBool);
impl ArcWake for Flag {
    fn wake_by_ref(x: &Arc<Self>) {
        x.0.store(true, Ordering::SeqCst);
    }
}

#[derive(Default)]
struct Chan {
    queue: VecDeque<Tree<TT, Val>>,
    waker: Option<Waker>,
    closed: bool,
}
#[derive(Clone, Default)]
struct Trees(Arc<Mutex<Chan>>);
impl Trees {
    fn send(&self, t: Tree<TT, Val>) {
        let mut c = self.0.lock().unwrap();
        c.queue.push_back(t);
        if let Some(w) = c.waker.take() {
            w.wake();
        }
    }
    fn close(&self) {
        let mut c = self.0.lock().unwrap();
        c.closed = true;
        if let Some(w) = c.waker.take() {
            w.wake();
        }
    }
}
impl Stream for Trees {
    type Item = Tree<TT, Val>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut c = self.0.lock().unwrap();
        match c.queue.pop_front() {
            Some(t) => Poll::Ready(Some(t)),
            None if c.closed => Poll::Ready(None),
            None => {
                c.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

/// tasks spawned by the code under test
#[derive(Default)]
struct Spawned(Mutex<Vec<BoxFuture<'static, ()>>>);
struct SpawnHooks(Arc<Spawned>);
impl banyan::sim::Hooks for SpawnHooks {
    fn before_lock(&self) {}
    fn lock_contended(&self) {
        panic!("SIM-DEADLOCK")
    }
    fn spawn(&self, task: BoxFuture<'static, ()>) -> Option<BoxFuture<'static, ()>> {
        self.0 .0.lock().unwrap().push(task);
        None
    }
}

struct Uninstall;
impl Drop for Uninstall {
    fn drop(&mut self) {
        banyan::sim::install(None);
    }
}

fn pool() -> ThreadPool {
    static POOL: OnceLock<ThreadPool> = OnceLock::new();
    POOL.get_or_init(|| {
        ThreadPool::builder()
            .pool_size(1)
            .create()
            .expect("thread pool")
    })
    .clone()
}

type B = StreamBuilder<TT, Val>;
type F = Forest<TT, AnyReader>;
type X = Transaction<TT, AnyReader, AnyWriter>;
type Chunk = FilteredChunk<(u64, crate::types::Key, Val), u64>;
type Items1 = BoxStream<'static, anyhow::Result<Chunk>>;

fn extra<Y>(info: &NodeInfo<TT, Y>) -> u64 {
    match info {
        NodeInfo::Branch(x, _) | NodeInfo::PurgedBranch(x) => x.count,
        NodeInfo::Leaf(x, _) | NodeInfo::PurgedLeaf(x) => x.keys.0.len() as u64,
    }
}

struct Task {
    fut: Option<BoxFuture<'static, ()>>,
    flag: Arc<Flag>,
}

struct Live<'a> {
    prop: &'a str,
    plan: &'a LivePlan,
    store: Store,
    /// what the reader sees
    view: Store,
    synced: usize,
    lag: bool,
    txn: X,
    wforest: F,
    b: B,
    rforest: F,
    cache: BranchCache<TT>,
    elems: Vec<Arc<Elem>>,
    live: Vec<bool>,
    /// was alive in some snapshot that has been sent
    next_id: u64,
    // consumer
    trees: Trees,
    history: Vec<Tree<TT, Val>>,
    stream: Option<Items1>,
    sflag: Arc<Flag>,
    done: bool,
    got: Vec<bool>,
    last: Option<u64>,
    /// where a new subscription would start (forward), or end (reverse)
    resume: u64,
    /// reverse: the start has been reached
    over: bool,
    first_count: Option<u64>,
    sent: u64,
    spawned: Arc<Spawned>,
    tasks: Vec<Task>,
    /// last snapshot was sent while everything was fine
    steps: u64,
    stats: Stats,
    states: Vec<u64>,
    hash: u64,
    trace: Vec<String>,
    trace_on: bool,
    fault_hit: bool,
    delivered: u64,
}

impl<'a> Live<'a> {
    fn new(prop: &'a str, plan: &'a LivePlan, trace_on: bool) -> Self {
        let store = Store::new();
        let view = Store::new();
        let wreader = AnyReader::new(&store, None);
        let wforest = Forest::new(wreader.clone(), BranchCache::new(1 << 20));
        let txn = Transaction::new(wforest.clone(), wreader.writer());
        let cache = BranchCache::new(plan.cache as usize);
        let rforest = Forest::new(
            AnyReader::new(&view, plan.mem.map(|(a, b)| (a as usize, b as usize))),
            cache.clone(),
        );
        let mut res = Self {
            prop,
            plan,
            store,
            view,
            synced: 0,
            lag: false,
            txn,
            wforest,
            b: B::new(plan.cfg.real(), secrets(plan.secrets)),
            rforest,
            cache,
            elems: vec![],
            live: vec![],
            next_id: 0,
            trees: Trees::default(),
            history: vec![],
            stream: None,
            sflag: Arc::new(Flag(AtomicBool::new(true))),
            done: false,
            got: vec![],
            last: None,
            resume: if plan.kind == LiveKind::Reverse {
                plan.end
            } else {
                plan.start
            },
            over: false,
            first_count: None,
            sent: 0,
            spawned: Arc::new(Spawned::default()),
            tasks: vec![],
            steps: 0,
            stats: Stats::new(),
            states: vec![],
            hash: 0,
            trace: vec![],
            trace_on,
            fault_hit: false,
            delivered: 0,
        };
        res.subscribe();
        res
    }

    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }
    fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace_on {
            self.trace.push(f());
        }
    }
    fn fail<T>(&self, class: &str, msg: String) -> R<T> {
        Err(Stop::Violation {
            class: class.into(),
            msg,
        })
    }

    fn subscribe(&mut self) {
        self.trees = Trees::default();
        self.tasks.clear();
        self.spawned.0.lock().unwrap().clear();
        self.sflag = Arc::new(Flag(AtomicBool::new(true)));
        self.done = false;
        self.first_count = None;
        let (start, end) = match self.plan.kind {
            LiveKind::Reverse => (self.plan.start, self.resume),
            _ => (self.resume, self.plan.end),
        };
        let f = &self.rforest;
        let q = self.plan.q.real();
        let t = self.trees.clone();
        let stream = match self.plan.kind {
            LiveKind::Flat => f
                .stream_trees(q, t)
                .map(|x| {
                    x.map(|x| FilteredChunk {
                        range: x.0..x.0 + 1,
                        extra: 1,
                        data: vec![x],
                    })
                })
                .boxed(),
            LiveKind::Chunked => f
                .stream_trees_chunked(q, t, start..=end, &extra::<AnyReader>)
                .boxed(),
            LiveKind::Threaded => f
                .stream_trees_chunked_threaded(q, t, start..=end, &extra::<AnyReader>, pool())
                .boxed(),
            LiveKind::Reverse => f
                .stream_trees_chunked_reverse(q, t, start..=end, &extra::<AnyReader>)
                .boxed(),
        };
        self.stream = Some(stream);
    }

    fn sync(&mut self) {
        if self.lag {
            return;
        }
        let s = self.store.lock();
        let mut v = self.view.lock();
        for l in &s.order[self.synced..] {
            if let Some(x) = s.blocks.get(l) {
                v.blocks.insert(*l, x.clone());
            }
        }
        self.synced = s.order.len();
    }

    fn matches(&self, i: u64) -> bool {
        i >= self.plan.start
            && i <= self.plan.end
            && self.plan.q.matches(i, self.elems[i as usize].key.k)
    }

    fn chunk(&mut self, c: Chunk) -> R {
        let rev = self.plan.kind == LiveKind::Reverse;
        mixh(&mut self.hash, c.range.start);
        mixh(&mut self.hash, c.range.end << 1);
        self.note(|| {
            format!(
                "  chunk {:?} with offsets {:?}",
                c.range,
                c.data.iter().map(|x| x.0).collect::<Vec<_>>()
            )
        });
        let mut prev: Option<u64> = None;
        for (o, k, v) in &c.data {
            if !c.range.contains(o) {
                return self.fail("chunk", format!("offset {} in chunk {:?}", o, c.range));
            }
            if prev.map(|p| p >= *o).unwrap_or(false) {
                return self.fail("order", format!("data of chunk {:?} is not ascending", c.range));
            }
            prev = Some(*o);
            let e = match self.elems.get(*o as usize) {
                Some(e) => e,
                None => return self.fail("content", format!("offset {} does not exist", o)),
            };
            if e.key != *k || e.val != *v {
                return self.fail("content", format!("wrong element at offset {}: {:?}", o, v));
            }
            if !self.matches(*o) {
                return self.fail(
                    "not_matching",
                    format!("offset {} is delivered, but does not match or is out of range", o),
                );
            }
            if self.got[*o as usize] {
                return self.fail("twice", format!("offset {} is delivered twice", o));
            }
            self.got[*o as usize] = true;
            self.delivered += 1;
        }
        let (lo, hi) = match (c.data.first(), c.data.last()) {
            (Some(a), Some(b)) => (a.0, b.0),
            _ => {
                self.bump(&c);
                return Ok(());
            }
        };
        match self.last {
            Some(l) if !rev && lo <= l => {
                return self.fail("order", format!("offset {} after {}", lo, l))
            }
            Some(l) if rev && hi >= l => {
                return self.fail("order", format!("offset {} after {} (reverse)", hi, l))
            }
            _ => {}
        }
        self.last = Some(if rev { lo } else { hi });
        self.bump(&c);
        Ok(())
    }

    /// where to continue after a cancellation
    fn bump(&mut self, c: &Chunk) {
        if self.plan.kind == LiveKind::Reverse {
            if c.range.start <= self.plan.start {
                self.over = true;
            } else if c.range.start <= self.resume {
                self.resume = c.range.start - 1;
            }
        } else {
            self.resume = self.resume.max(c.range.end);
        }
    }

    fn adopt(&mut self) {
        let new: Vec<_> = self.spawned.0.lock().unwrap().drain(..).collect();
        for fut in new {
            self.stat("tasks_spawned");
            self.tasks.push(Task {
                fut: Some(fut),
                flag: Arc::new(Flag(AtomicBool::new(true))),
            });
        }
    }

    /// poll the consumer. Returns whether something happened
    fn poll_consumer(&mut self) -> R<bool> {
        if self.done {
            return Ok(false);
        }
        self.steps += 1;
        self.stat("consumer_polls");
        self.sflag.0.store(false, Ordering::SeqCst);
        let w = waker(self.sflag.clone());
        let mut cx = Context::from_waker(&w);
        let stream = self.stream.as_mut().unwrap();
        phase("live stream", &[self.prop]);
        let out = guard(|| Ok(stream.poll_next_unpin(&mut cx)));
        self.adopt();
        match out {
            Out::Ok(Poll::Ready(Some(Ok(c)))) => {
                self.sflag.0.store(true, Ordering::SeqCst);
                self.chunk(c)?;
                Ok(true)
            }
            Out::Ok(Poll::Ready(Some(Err(e)))) => {
                self.note(|| format!("  error {}", e));
                // nothing says how errors are reported, only what must still be delivered
                self.stat("errors_seen");
                self.sflag.0.store(true, Ordering::SeqCst);
                Ok(true)
            }
            Out::Ok(Poll::Ready(None)) => {
                self.note(|| "  end of stream".into());
                self.done = true;
                Ok(true)
            }
            Out::Ok(Poll::Pending) => Ok(false),
            Out::Err(e) => self.fail("error", e),
            Out::Panic(p) if injected_panic(&p) => Ok(false),
            Out::Panic(p) => self.fail("panic", format!("live stream panicked: {}", p)),
        }
    }

    fn poll_task(&mut self, i: usize) -> R {
        self.steps += 1;
        self.stat("task_polls");
        let t = &mut self.tasks[i];
        t.flag.0.store(false, Ordering::SeqCst);
        let w = waker(t.flag.clone());
        let mut cx = Context::from_waker(&w);
        if let Some(fut) = &mut t.fut {
            phase("spawned task", &[self.prop]);
            let out = guard(|| Ok(fut.as_mut().poll(&mut cx)));
            match out {
                Out::Ok(Poll::Ready(())) => t.fut = None,
                Out::Ok(Poll::Pending) => {}
                Out::Panic(p) if injected_panic(&p) => t.fut = None,
                x => {
                    let m = x.describe();
                    return self.fail("panic", format!("spawned task: {}", m));
                }
            }
        }
        Ok(())
    }

    /// the consumer drops the stream, nothing must keep running
    fn abandon(&mut self) -> R {
        self.stream = None;
        for i in 0..self.tasks.len() {
            if self.tasks[i].fut.is_none() {
                continue;
            }
            self.stat("tasks_abandoned");
            if !self.tasks[i].flag.0.load(Ordering::SeqCst) {
                return self.fail(
                    "task_leak",
                    "a spawned task still waits although nobody listens to it any more".into(),
                );
            }
            for _ in 0..3 {
                self.poll_task(i)?;
            }
            if self.tasks[i].fut.is_some() {
                return self.fail(
                    "task_leak",
                    "a spawned task goes on although nobody listens to it any more".into(),
                );
            }
        }
        Ok(())
    }

    /// who wants to run: 0 is the consumer
    fn ready(&self) -> Vec<usize> {
        let mut r = vec![];
        if !self.done && self.sflag.0.load(Ordering::SeqCst) {
            r.push(0);
        }
        for (i, t) in self.tasks.iter().enumerate() {
            if t.fut.is_some() && t.flag.0.load(Ordering::SeqCst) {
                r.push(i + 1);
            }
        }
        r
    }

    fn run_some(&mut self, n: u64, rng: &mut Rng) -> R<bool> {
        for _ in 0..n {
            let r = self.ready();
            if r.is_empty() {
                return Ok(true);
            }
            let i = *rng.pick(&r);
            mixh(&mut self.hash, i as u64);
            if i == 0 {
                self.poll_consumer()?;
            } else {
                self.poll_task(i - 1)?;
            }
        }
        Ok(self.ready().is_empty())
    }

    fn heal(&mut self) {
        self.lag = false;
        self.sync();
        let mut v = self.view.lock();
        v.faults.clear();
        v.hidden.clear();
    }

    fn notify(&mut self) {
        let t = self.b.snapshot();
        if t.count() > 0 && self.first_count.is_none() {
            self.first_count = Some(t.count());
        }
        self.sent += 1;
        self.stat("notify");
        self.history.push(t.clone());
        self.trees.send(t);
    }

    /// faults have stopped and a covering snapshot is delivered: within a bounded number of steps
    /// everything has to be there
    fn settle(&mut self, seed: u64, last: bool) -> R {
        let mut rng = Rng::new(seed);
        self.stat("settle");
        // what is in the queue may still fail to be read, later ones not
        self.heal();
        self.notify();
        let bound = 200 + 20 * self.elems.len() as u64 * (2 + self.sent);
        if !self.run_some(bound, &mut rng)? {
            return self.fail(
                "no_progress",
                format!("still busy after {} polls without any faults", bound),
            );
        }
        let n = self.elems.len() as u64;
        let rev = self.plan.kind == LiveKind::Reverse;
        let upto = if rev {
            self.first_count.unwrap_or(n)
        } else {
            n
        };
        for i in 0..upto {
            if self.matches(i) && self.live[i as usize] && !self.got[i as usize] {
                // after a cancellation we may be done with that part
                if rev && i > self.resume && self.stats.contains_key("cancel") {
                    continue;
                }
                return self.fail(
                    "lost",
                    format!(
                        "offset {} matches, but has not been delivered when nothing is left to do ({} elements, range {}..={})",
                        i, n, self.plan.start, self.plan.end
                    ),
                );
            }
        }
        let must_end = match self.plan.kind {
            LiveKind::Chunked => self.plan.end < n,
            LiveKind::Reverse => n > 0,
            _ => false,
        };
        if must_end && !self.done {
            return self.fail(
                "no_end",
                format!(
                    "range {}..={} of {} elements has been delivered, but the stream goes on",
                    self.plan.start, self.plan.end, n
                ),
            );
        }
        if last {
            self.trees.close();
            self.run_some(bound, &mut rng)?;
            if !self.done {
                return self.fail(
                    "no_end",
                    "there will be no more trees, but the stream does not end".into(),
                );
            }
            if self.tasks.iter().any(|t| t.fut.is_some()) {
                return self.fail("task_leak", "a spawned task never ends".into());
            }
        } else if self.done && !rev && !must_end {
            return self.fail("early_end", "the stream ended early".into());
        }
        Ok(())
    }

    fn make(&mut self, i: &Items) -> Vec<Arc<Elem>> {
        let mut i = *i;
        i.bad = None;
        let res = i.make(self.next_id, self.plan.cfg.mul);
        self.next_id += i.n as u64;
        res
    }

    fn act(&mut self, a: &Act) -> R {
        self.note(|| serde_json::to_string(a).unwrap());
        let foreign = |x: Out<()>| match x {
            Out::Ok(()) => Ok(()),
            x => Err(Stop::Foreign(format!("writer: {}", x.describe()))),
        };
        match a {
            Act::Extend(i) | Act::Unpacked(i) => {
                if self.elems.len() > 300 {
                    return Ok(());
                }
                let es = self.make(i);
                let items: Vec<_> = es.iter().map(|e| (e.key, e.val.clone())).collect();
                let (txn, b) = (&mut self.txn, &mut self.b);
                foreign(guard(|| match a {
                    Act::Extend(_) => txn.extend(b, items),
                    _ => txn.extend_unpacked(b, items),
                }))?;
                for e in es {
                    self.elems.push(e);
                    self.live.push(true);
                    self.got.push(false);
                }
                self.stat("write");
            }
            Act::Pack => {
                // pack has to read everything that is not sealed
                if self.live.iter().all(|x| *x) {
                    let (txn, b) = (&mut self.txn, &mut self.b);
                    foreign(guard(|| txn.pack(b)))?;
                }
            }
            Act::Retain(q) => {
                let q = q.real();
                let (txn, b) = (&mut self.txn, &mut self.b);
                foreign(guard(|| txn.retain(b, &q)))?;
                let tree = self.b.snapshot();
                let f = self.wforest.clone();
                match guard(|| f.collect(&tree)) {
                    Out::Ok(xs) => {
                        for (i, x) in xs.iter().enumerate() {
                            self.live[i] = x.is_some();
                        }
                    }
                    x => return Err(Stop::Foreign(format!("writer: {}", x.describe()))),
                }
                self.stat("retain");
            }
            Act::Rollback(i) => {
                let es = self.make(i);
                let items: Vec<_> = es.iter().map(|e| (e.key, e.val.clone())).collect();
                let (txn, b) = (&mut self.txn, &mut self.b);
                foreign(guard(|| {
                    let mut t = b.transaction();
                    txn.extend(&mut t, items)
                }))?;
                if self.b.count() != self.elems.len() as u64 {
                    return Err(Stop::Foreign("rollback did not work".into()));
                }
            }
            Act::Reopen => {
                if let Some(l) = self.b.link() {
                    let f = self.wforest.clone();
                    let (s, c) = (secrets(self.plan.secrets), self.plan.cfg.real());
                    match guard(|| f.load_stream_builder(s, c, l)) {
                        Out::Ok(b) => self.b = b,
                        x => {
                            return Err(Stop::Foreign(format!("reopen: {:?}", x.describe())));
                        }
                    }
                }
            }
            Act::Notify => self.notify(),
            Act::NotifyEmpty => {
                let b = B::new(self.plan.cfg.real(), secrets(self.plan.secrets));
                self.trees.send(b.snapshot());
            }
            Act::NotifyOld { seed } => {
                if !self.history.is_empty() {
                    let i = *seed as usize % self.history.len();
                    self.stat("notify_older");
                    self.sent += 1;
                    self.trees.send(self.history[i].clone());
                }
            }
            Act::Run { n, seed } => {
                let mut rng = Rng::new(*seed);
                self.run_some(*n as u64, &mut rng)?;
            }
            Act::Spurious => {
                self.stat("spurious_polls");
                self.poll_consumer()?;
                for i in 0..self.tasks.len() {
                    if self.tasks[i].fut.is_some() {
                        self.poll_task(i)?;
                    }
                }
            }
            Act::Fail { n, times } => {
                let fired = {
                    let mut v = self.view.lock();
                    v.op_gets = 0;
                    v.faults = vec![Fault::GetFail {
                        n: *n,
                        times: *times,
                    }];
                    std::mem::take(&mut v.fired)
                };
                self.count(&fired);
            }
            Act::Hide { seed, n } => {
                let mut rng = Rng::new(*seed);
                let mut v = self.view.lock();
                let mut ls: Vec<Link> = v.blocks.keys().copied().collect();
                ls.sort();
                if !ls.is_empty() {
                    for _ in 0..*n {
                        v.hidden.insert(ls[rng.idx(ls.len())]);
                    }
                }
            }
            Act::Lag => {
                self.lag = true;
                self.stat("lag");
            }
            Act::Heal => self.heal(),
            Act::Settle { seed } => self.settle(*seed, false)?,
            Act::Cancel => {
                if self.plan.kind != LiveKind::Flat {
                    let over = self.done
                        || self.over
                        || (self.plan.kind != LiveKind::Reverse && self.resume > self.plan.end);
                    if !over {
                        self.stat("cancel");
                        self.abandon()?;
                        self.subscribe();
                    }
                }
            }
            Act::CacheReset => {
                self.cache
                    .reset(std::num::NonZeroUsize::new(1000).unwrap());
                self.stat("cache_reset");
            }
        }
        self.sync();
        Ok(())
    }

    fn count(&mut self, fired: &[&'static str]) {
        for f in fired {
            self.stat(f);
            self.fault_hit = true;
        }
    }
}

pub fn run(prop: &str, plan: &LivePlan, trace: bool) -> RunResult {
    let mut w = Live::new(prop, plan, trace);
    banyan::sim::install(Some(Arc::new(SpawnHooks(w.spawned.clone()))));
    let _guard = Uninstall;
    let mut stop = None;
    for (i, a) in plan.acts.iter().enumerate() {
        mixh(&mut w.hash, i as u64);
        let r = w.act(a);
        let fired = std::mem::take(&mut w.view.lock().fired);
        w.count(&fired);
        let active = {
            let v = w.view.lock();
            v.faults.len() as u64 + 2 * v.hidden.len() as u64
        };
        let queued = w.trees.0.lock().unwrap().queue.len() as u64;
        let h = [
            w.elems.len() as u64,
            w.delivered,
            w.resume,
            w.done as u64,
            w.tasks.iter().filter(|t| t.fut.is_some()).count() as u64,
            queued,
            active,
        ];
        let bytes: Vec<u8> = h.iter().flat_map(|x| x.to_le_bytes()).collect();
        w.states.push(hash64(5, &bytes));
        mixh(&mut w.hash, hash64(6, &bytes));
        if let Err(s) = r {
            stop = Some(s);
            break;
        }
    }
    if stop.is_none() {
        if let Err(s) = w.settle(77, true) {
            stop = Some(s);
        }
    }
    let mut res = RunResult {
        stats: std::mem::take(&mut w.stats),
        states: std::mem::take(&mut w.states),
        trace: std::mem::take(&mut w.trace),
        nontrivial: w.delivered > 0 && (w.fault_hit || w.sent > 2),
        sim_time: w.steps,
        hash: w.hash,
        ..Default::default()
    };
    res.stats.insert("elements_delivered", w.delivered);
    {
        let v = w.view.lock();
        mixh(&mut res.hash, v.hash);
        mixh(&mut res.hash, v.total_gets);
    }
    match stop {
        Some(Stop::Violation { class, msg }) => res.violation = Some((class, msg)),
        Some(Stop::Foreign(m)) => res.foreign = Some(m),
        _ => {}
    }
    res
}
