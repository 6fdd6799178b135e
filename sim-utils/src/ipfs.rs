//! C23: the IPFS store against a daemon and connections that fail in all ways
use crate::daemon::{Answer, BodyKind, Daemon, Framing, WrongKey, OK};
use banyan::query::AllQuery;
use banyan::store::{BlockWriter, BranchCache, ReadOnlyStore};
use banyan::{Forest, StreamBuilder, Transaction};
use banyan_utils::ipfs::IpfsStore;
use banyan_utils::tag_index::{Tag, TagSet};
use banyan_utils::tags::{Key, Sha256Digest, TT};
use futures::StreamExt;
use serde::{Deserialize, Serialize};
use simcore::engine::About;
use simcore::outcome::{guard, mixh, phase, Out, RunResult, Stop, R};
use simcore::plan::{secrets, Cfg};
use simcore::reads::{check_prefix, pull, pull_stream, Seq};
use simcore::rng::{mix, Rng};
use simcore::types::hash64;

/// so many regular answers, then this one
pub type Script = Vec<(u8, Answer)>;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Read {
    Iter,
    IterRev,
    Stream,
    Chunked,
    Collect,
    Get(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Put { len: u32, seed: u64, answer: Answer },
    Get { which: u16, answer: Answer },
    GetUnknown { seed: u64, answer: Answer },
    Extend { n: u8, seed: u64, unpacked: bool, script: Script },
    Pack { script: Script },
    Reopen { script: Script },
    Read { how: Read, cold: bool, script: Script },
    /// connections are refused for the given number of operations
    Down { ops: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct IpfsPlan {
    pub cfg: Cfg,
    pub secrets: u8,
    pub cache: u32,
    /// called by a task of an async runtime
    #[serde(default)]
    pub in_runtime: bool,
    pub ops: Vec<Op>,
}

fn framing(r: &mut Rng) -> Framing {
    match r.below(4) {
        0 => Framing::Close,
        1 => Framing::Chunked(1 + r.skewed(300) as u16),
        _ => Framing::Length,
    }
}

fn answer(r: &mut Rng, ok: u64) -> Answer {
    if r.pct(ok) {
        return if r.pct(60) {
            OK
        } else {
            Answer::Ok {
                framing: framing(r),
                frag: r.skewed(64) as u16,
            }
        };
    }
    match r.below(16) {
        0..=2 => Answer::Status {
            code: *r.pick(&[400, 403, 404, 405, 408, 429, 500, 500, 500, 501, 502, 503, 504, 599, 204, 206]),
            body: *r.pick(&[BodyKind::Message, BodyKind::Regular, BodyKind::Empty, BodyKind::Html]),
            framing: framing(r),
        },
        3..=5 => Answer::Truncated {
            framing: framing(r),
            at: *r.pick(&[0, 1, 128, 250, 255, 200, 60]),
        },
        6 => Answer::CutHead { at: r.below(256) as u8 },
        7 => Answer::Empty { framing: framing(r) },
        8 => Answer::Damaged {
            at: r.below(400) as u16,
            framing: framing(r),
        },
        9 => Answer::Longer {
            n: r.skewed(20) as u8,
            framing: framing(r),
        },
        10 => Answer::OtherBlock { framing: framing(r) },
        11 => Answer::DropEarly,
        12 => Answer::DropLate,
        13 => Answer::Reset,
        14 => Answer::NotHttp { n: r.skewed(60) as u8 },
        _ => Answer::Key {
            kind: *r.pick(&[
                WrongKey::Other,
                WrongKey::RawCodec,
                WrongKey::PbCodec,
                WrongKey::V0,
                WrongKey::Sha512,
                WrongKey::Identity,
                WrongKey::Short,
                WrongKey::Empty,
                WrongKey::Garbage,
                WrongKey::Number,
                WrongKey::Missing,
                WrongKey::Null,
                WrongKey::List,
                WrongKey::Twice,
            ]),
            framing: framing(r),
        },
    }
}

fn put_answer(r: &mut Rng) -> Answer {
    if r.pct(30) {
        // wrong keys only make a difference here
        loop {
            let a = answer(r, 0);
            if matches!(a, Answer::Key { .. }) {
                return a;
            }
        }
    }
    answer(r, 40)
}

fn script(r: &mut Rng, pct: u64) -> Script {
    let mut res = vec![];
    while r.pct(pct) && res.len() < 4 {
        res.push((r.skewed(12) as u8, answer(r, 10)));
    }
    res
}

pub fn generate(seed: u64) -> IpfsPlan {
    let mut r = Rng::new(mix(seed, 0x19f5));
    let cfg = Cfg::random(&mut r);
    let mut ops = vec![];
    let blocks = r.pct(60);
    if blocks {
        for _ in 0..r.range(2, 12) {
            ops.push(match r.below(10) {
                0..=4 => Op::Put {
                    len: match r.below(8) {
                        0 => 0,
                        1 => r.range(1000, 70000) as u32,
                        2 if r.pct(20) => 1 << 20,
                        _ => r.skewed(600) as u32,
                    },
                    seed: r.below(50),
                    answer: put_answer(&mut r),
                },
                5 => Op::GetUnknown {
                    seed: r.u64(),
                    answer: answer(&mut r, 70),
                },
                6 if r.pct(30) => Op::Down { ops: r.range(1, 3) as u8 },
                _ => Op::Get {
                    which: r.below(1000) as u16,
                    answer: answer(&mut r, 25),
                },
            });
        }
    } else {
        let pct = *r.pick(&[0, 30, 60]);
        for _ in 0..r.range(2, 8) {
            ops.push(match r.below(12) {
                0..=3 => Op::Extend {
                    n: 1 + r.skewed(20) as u8,
                    seed: r.u64(),
                    unpacked: r.pct(25),
                    script: script(&mut r, pct),
                },
                4 => Op::Pack { script: script(&mut r, pct) },
                5 => Op::Reopen { script: script(&mut r, pct) },
                6 if r.pct(20) => Op::Down { ops: 1 },
                _ => Op::Read {
                    how: match r.below(6) {
                        0 => Read::Iter,
                        1 => Read::IterRev,
                        2 => Read::Stream,
                        3 => Read::Chunked,
                        4 => Read::Collect,
                        _ => Read::Get(r.below(40) as u16),
                    },
                    cold: r.bool(),
                    script: script(&mut r, pct),
                },
            });
        }
    }
    IpfsPlan {
        cfg,
        secrets: r.below(3) as u8,
        cache: *r.pick(&[0, 0, 1 << 20]),
        in_runtime: r.pct(20),
        ops,
    }
}

pub fn shrink(p: &IpfsPlan) -> Vec<IpfsPlan> {
    let mut res = vec![];
    if p.in_runtime {
        res.push(IpfsPlan { in_runtime: false, ..p.clone() });
    }
    let n = p.ops.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut from = 0;
        while from < n {
            let to = (from + size).min(n);
            let mut q = p.clone();
            q.ops.drain(from..to);
            res.push(q);
            from = to;
        }
        size /= 2;
    }
    for i in 0..n {
        let mut alt = vec![];
        let scripts = |s: &Script| -> Vec<Script> {
            let mut res = vec![];
            for j in 0..s.len() {
                let mut t = s.clone();
                t.remove(j);
                res.push(t);
                if s[j].0 > 0 {
                    let mut t = s.clone();
                    t[j].0 -= 1;
                    res.push(t);
                }
            }
            res
        };
        match &p.ops[i] {
            Op::Put { len, seed, answer } => {
                for l in [0, 1, 10, len / 2] {
                    if l < *len {
                        alt.push(Op::Put { len: l, seed: *seed, answer: *answer });
                    }
                }
                if *answer != OK {
                    alt.push(Op::Put { len: *len, seed: *seed, answer: OK });
                }
            }
            Op::Get { which, answer } if *answer != OK => alt.push(Op::Get { which: *which, answer: OK }),
            Op::Extend { n, seed, unpacked, script } => {
                for m in [1, n / 2, n - 1] {
                    if m >= 1 && m < *n {
                        alt.push(Op::Extend { n: m, seed: *seed, unpacked: *unpacked, script: script.clone() });
                    }
                }
                for s in scripts(script) {
                    alt.push(Op::Extend { n: *n, seed: *seed, unpacked: *unpacked, script: s });
                }
            }
            Op::Pack { script } => alt.extend(scripts(script).into_iter().map(|script| Op::Pack { script })),
            Op::Reopen { script } => alt.extend(scripts(script).into_iter().map(|script| Op::Reopen { script })),
            Op::Read { how, cold, script } => {
                alt.extend(scripts(script).into_iter().map(|script| Op::Read { how: *how, cold: *cold, script }))
            }
            _ => {}
        }
        for op in alt {
            let mut q = p.clone();
            q.ops[i] = op;
            res.push(q);
        }
    }
    res
}

type Item = (u64, Key, String);

struct World<'a> {
    p: &'a IpfsPlan,
    d: &'static Daemon,
    forest: Forest<TT, IpfsStore>,
    builder: StreamBuilder<TT, String>,
    items: Vec<(Key, String)>,
    /// blocks we know of, with their content
    known: Vec<(Sha256Digest, Vec<u8>)>,
    down: u8,
    res: RunResult,
    trace: bool,
}

fn violation<T>(class: &str, msg: String) -> R<T> {
    Err(Stop::Violation { class: class.into(), msg })
}

fn content(len: u32, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(mix(seed, 0xb10c));
    let mut res = Vec::with_capacity(len as usize + 8);
    while res.len() < len as usize {
        res.extend_from_slice(&r.u64().to_le_bytes());
    }
    res.truncate(len as usize);
    res
}

fn no_extra<R>(_: &banyan::index::NodeInfo<TT, R>) {}

impl<'a> World<'a> {
    fn arm(&mut self, script: &Script) {
        let mut s = self.d.state();
        s.log.clear();
        s.script.clear();
        for (skip, a) in script {
            for _ in 0..*skip {
                s.script.push_back(OK);
            }
            s.script.push_back(*a);
        }
    }
    /// did something go wrong on the other side?
    fn disarm(&mut self) -> R<bool> {
        let (log, odd, bytes) = {
            let mut s = self.d.state();
            s.script.clear();
            (std::mem::take(&mut s.log), std::mem::take(&mut s.odd), s.bytes)
        };
        let mut fault = false;
        for (put, a) in &log {
            *self.res.stats.entry(a.name()).or_default() += 1;
            *self.res.stats.entry(if *put { "requests_put" } else { "requests_get" }).or_default() += 1;
            fault |= !a.is_ok();
            mixh(&mut self.res.hash, *put as u64 + 2 * a.is_ok() as u64);
        }
        mixh(&mut self.res.hash, bytes);
        self.res.sim_time += log.len() as u64;
        if self.down > 0 {
            *self.res.stats.entry("fault_refused").or_default() += 1;
            fault = true;
        }
        if let Some(x) = odd.first() {
            return violation("request", format!("the daemon got a request that it can not understand: {}", x));
        }
        Ok(fault)
    }
    fn say(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let s = f();
            self.res.trace.push(s);
        }
    }
    fn count(&mut self, k: &'static str) {
        *self.res.stats.entry(k).or_default() += 1;
    }

    fn get(&mut self, link: Sha256Digest, want: Option<&[u8]>, a: &Answer) -> R {
        phase("get", &["C23"]);
        self.arm(&vec![(0, *a)]);
        let out = guard(|| IpfsStore.get(&link));
        let fault = self.disarm()?;
        self.count("get");
        self.say(|| format!("get {} with {:?}: {}", link, a, out.describe()));
        self.res.nontrivial |= fault;
        mixh(&mut self.res.hash, out.is_ok() as u64);
        match (out, want) {
            (Out::Ok(x), Some(w)) if *x == *w => Ok(()),
            (Out::Ok(x), Some(w)) => violation(
                "get-data",
                format!("get({}) returns {} bytes which are not the block of {} bytes, when the answer is {:?}", link, x.len(), w.len(), a),
            ),
            (Out::Ok(x), None) => violation(
                "get-data",
                format!("get({}) returns {} bytes for a block that does not exist, when the answer is {:?}", link, x.len(), a),
            ),
            (Out::Err(_), _) if fault || want.is_none() => Ok(()),
            (Out::Err(e), _) => violation("get-error", format!("get({}) fails: {}, the answer is {:?}", link, e, a)),
            (Out::Panic(e), _) => violation("panic", format!("get({}) panics: {}, the answer is {:?}", link, e, a)),
        }
    }

    fn write(&mut self, what: &str, out: Out<()>, fault: bool) -> R<bool> {
        self.say(|| format!("{}: {} (faults: {})", what, out.describe(), fault));
        self.res.nontrivial |= fault;
        mixh(&mut self.res.hash, out.is_ok() as u64);
        match out {
            Out::Ok(()) => Ok(true),
            Out::Err(e) if fault || e.contains("too large") => Ok(false),
            x => violation("write", format!("{}: {}", what, x.describe())),
        }
    }

    fn check_count(&mut self, what: &str) -> R {
        if self.builder.count() != self.items.len() as u64 {
            return violation(
                "write",
                format!("after {} the stream has {} elements, not {}", what, self.builder.count(), self.items.len()),
            );
        }
        self.res.states.push(mix(
            self.builder.count(),
            hash64(5, self.builder.link().map(|x| x.to_string()).unwrap_or_default().as_bytes()),
        ));
        Ok(())
    }

    fn read(&mut self, how: Read, cold: bool, script: &Script) -> R {
        phase("read", &["C23"]);
        let forest = if cold {
            Forest::new(IpfsStore, BranchCache::new(self.p.cache as usize))
        } else {
            self.forest.clone()
        };
        let tree = self.builder.snapshot();
        let want: Vec<Item> = self
            .items
            .iter()
            .enumerate()
            .map(|(i, (k, v))| (i as u64, k.clone(), v.clone()))
            .collect();
        self.arm(script);
        self.count("read");
        let rev: Vec<Item> = want.iter().rev().cloned().collect();
        let (f, t) = (forest.clone(), tree.clone());
        let (got, want): (Seq<Item>, Vec<Item>) = match how {
            Read::Iter => (pull(|| Box::new(f.iter_from(&t))), want),
            Read::IterRev => (pull(|| Box::new(f.iter_filtered_reverse(&t, AllQuery))), rev),
            Read::Stream => (pull_stream(move || f.stream_filtered(&t, AllQuery).boxed_local()), want),
            Read::Chunked => {
                let c = pull(|| Box::new(f.iter_filtered_chunked(&t, AllQuery, &no_extra::<IpfsStore>)));
                let mut items = vec![];
                for x in c.items {
                    items.extend(x.data);
                }
                (
                    Seq { items, err: c.err, more: c.more, endless: c.endless, panic: c.panic },
                    want,
                )
            }
            Read::Collect => {
                let out = guard(|| forest.collect(&tree));
                let fault = self.disarm()?;
                self.say(|| format!("collect: {} (faults: {})", out.is_ok(), fault));
                self.res.nontrivial |= fault;
                return match out {
                    Out::Ok(x) => {
                        let w: Vec<Option<(Key, String)>> = self.items.iter().cloned().map(Some).collect();
                        if x == w {
                            Ok(())
                        } else {
                            violation("read", format!("collect returns {} elements, not the {} of the stream, or with other content", x.len(), w.len()))
                        }
                    }
                    Out::Err(_) if fault => Ok(()),
                    x => violation("read", format!("collect: {}", x.describe())),
                };
            }
            Read::Get(i) => {
                let i = i as u64;
                let out = guard(|| forest.get(&tree, i));
                let fault = self.disarm()?;
                self.say(|| format!("get {}: {} (faults: {})", i, out.is_ok(), fault));
                self.res.nontrivial |= fault;
                return match out {
                    Out::Ok(x) if x == self.items.get(i as usize).cloned() => Ok(()),
                    Out::Ok(_) => violation("read", format!("element {} is wrong", i)),
                    Out::Err(_) if fault => Ok(()),
                    x => violation("read", format!("get({}): {}", i, x.describe())),
                };
            }
        };
        let fault = self.disarm()?;
        self.res.nontrivial |= fault;
        mixh(&mut self.res.hash, got.items.len() as u64);
        self.say(|| format!("{:?}: {} elements, error {:?} (faults: {})", how, got.items.len(), got.err, fault));
        if got.err.is_some() && !fault {
            return violation("read", format!("{:?}: {}", how, got.err.unwrap()));
        }
        let show = |x: &[Item]| format!("{} elements", x.len());
        if let Err(e) = check_prefix(&got, &want, show) {
            return violation("read", format!("{:?}: {}", how, e));
        }
        Ok(())
    }

    fn step(&mut self, op: &Op) -> R {
        match op {
            Op::Put { len, seed, answer } => {
                phase("put", &["C23"]);
                let data = content(*len, *seed);
                let link = Sha256Digest::digest(&data);
                self.arm(&vec![(0, *answer)]);
                let d = data.clone();
                let out = guard(|| IpfsStore.put(d));
                let fault = self.disarm()?;
                self.count("put");
                self.say(|| format!("put {} bytes with {:?}: {}", len, answer, out.describe()));
                self.res.nontrivial |= fault;
                mixh(&mut self.res.hash, out.is_ok() as u64);
                let stored = self.d.state().blocks.get(&link.to_string()).map(|x| *x == data).unwrap_or(false);
                self.res.states.push(mix(hash64(7, link.to_string().as_bytes()), out.is_ok() as u64 + 2 * stored as u64));
                match out {
                    Out::Ok(_) if fault && matches!(answer, Answer::Status { code, .. } if *code >= 400) => {
                        return violation("put-status", format!("put reports success, the answer was {:?}", answer));
                    }
                    Out::Ok(x) => {
                        if x != link || !stored {
                            return violation(
                                "put-link",
                                format!("put returns {}, the link of the block is {} (stored: {}), the answer was {:?}", x, link, stored, answer),
                            );
                        }
                    }
                    Out::Err(_) if fault => {}
                    x => return violation("put-error", format!("put: {}, the answer is {:?}", x.describe(), answer)),
                }
                if stored {
                    self.known.push((link, data));
                }
            }
            Op::Get { which, answer } => {
                if !self.known.is_empty() {
                    let (l, d) = self.known[*which as usize % self.known.len()].clone();
                    self.get(l, Some(&d), answer)?;
                }
            }
            Op::GetUnknown { seed, answer } => {
                self.get(Sha256Digest::digest(&seed.to_le_bytes()), None, answer)?;
            }
            Op::Extend { n, seed, unpacked, script } => {
                phase("extend", &["C23"]);
                let mut r = Rng::new(*seed);
                let new: Vec<(Key, String)> = (0..*n)
                    .map(|i| {
                        let t = self.items.len() as u64 + i as u64;
                        let tags: TagSet = std::iter::once(Tag::from(*r.pick(&["a", "b", "c"]))).collect();
                        let len = r.skewed(60);
                        (Key::single(t, t, tags), format!("{}:{}", t, "x".repeat(len as usize)))
                    })
                    .collect();
                self.arm(script);
                let mut txn = Transaction::new(self.forest.clone(), IpfsStore);
                let b = &mut self.builder;
                let items = new.clone();
                let out = guard(|| {
                    if *unpacked {
                        txn.extend_unpacked(b, items)
                    } else {
                        txn.extend(b, items)
                    }
                });
                let fault = self.disarm()?;
                self.count("write");
                if self.write("extend", out, fault)? {
                    self.items.extend(new);
                }
                self.check_count("extend")?;
            }
            Op::Pack { script } => {
                phase("pack", &["C23"]);
                self.arm(script);
                let mut txn = Transaction::new(self.forest.clone(), IpfsStore);
                let b = &mut self.builder;
                let out = guard(|| txn.pack(b));
                let fault = self.disarm()?;
                self.count("write");
                self.write("pack", out, fault)?;
                self.check_count("pack")?;
            }
            Op::Reopen { script } => {
                phase("reopen", &["C23"]);
                let link = match self.builder.link() {
                    Some(x) if self.builder.level() > 0 => x,
                    _ => return Ok(()),
                };
                self.arm(script);
                let forest: Forest<TT, IpfsStore> = Forest::new(IpfsStore, BranchCache::new(self.p.cache as usize));
                let s = secrets(self.p.secrets);
                let cfg = self.p.cfg.real();
                let out = guard(|| forest.load_stream_builder(s, cfg, link));
                let fault = self.disarm()?;
                self.count("reopen");
                self.say(|| format!("reopen: {}", out.is_ok()));
                self.res.nontrivial |= fault;
                match out {
                    Out::Ok(b) => {
                        self.forest = forest;
                        self.builder = b;
                        self.check_count("reopening")?;
                    }
                    Out::Err(_) if fault => {}
                    x => return violation("reopen", format!("reopen: {}", x.describe())),
                }
            }
            Op::Read { how, cold, script } => self.read(*how, *cold, script)?,
            Op::Down { ops } => {
                if self.down == 0 {
                    self.d.down();
                    self.down = ops + 1;
                    self.say(|| "daemon stops".into());
                }
            }
        }
        Ok(())
    }
}

pub fn run(p: &IpfsPlan, trace: bool) -> RunResult {
    if p.in_runtime {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        rt.block_on(async { run_here(p, trace) })
    } else {
        run_here(p, trace)
    }
}

fn run_here(p: &IpfsPlan, trace: bool) -> RunResult {
    let d = Daemon::get();
    d.up();
    d.reset();
    let mut w = World {
        p,
        d,
        forest: Forest::new(IpfsStore, BranchCache::new(p.cache as usize)),
        builder: StreamBuilder::new(p.cfg.real(), secrets(p.secrets)),
        items: vec![],
        known: vec![],
        down: 0,
        res: RunResult::default(),
        trace,
    };
    let mut todo: Vec<Op> = p.ops.clone();
    todo.push(Op::Read { how: Read::Iter, cold: true, script: vec![] });
    let last = todo.len() - 1;
    if p.in_runtime {
        w.count("in_async_runtime");
    }
    for (i, op) in todo.iter().enumerate() {
        if i == last {
            w.down = 0;
            d.up();
        }
        let r = w.step(op);
        if w.down > 0 {
            w.down -= 1;
            if w.down == 0 {
                d.up();
            }
        }
        match r {
            Ok(()) => {}
            Err(Stop::End) => break,
            Err(Stop::Violation { class, msg }) => {
                w.res.violation = Some((class, msg));
                break;
            }
            Err(Stop::Foreign(x)) => {
                w.res.foreign = Some(x);
                break;
            }
        }
    }
    d.up();
    w.res
}

pub fn about() -> About {
    About {
        rule: "a case is a seeded sequence of block reads and writes, or a history of a stream, through the IPFS store, with a scripted answer or failure of the daemon or the connection for each request; non-trivial: at least one request got something else than a correct answer",
        real: "banyan-utils IpfsStore, block_get, block_put, Sha256Digest; reqwest and hyper with real loopback connections; banyan crate for the streams",
        stub: "the IPFS daemon (an HTTP server inside the process, reached through the http_proxy setting instead of port 5001), its block store",
        measure: "hash of (block, acknowledged, stored) after every put, and of the length and root of the stream after every write",
        assumptions: &[
            "answers arrive immediately or not at all; the client's timeout (30 s) is not exercised",
            "the daemon does not claim to have stored a block that it has not stored",
        ],
        min_runs: 600,
    }
}
