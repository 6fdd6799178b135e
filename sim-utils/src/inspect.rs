//! C28: what `dump_json`, `dump_cbor` and `graph` show of blocks and trees, with failing reads and
//! failing writers.
use crate::store::Store;
use banyan::index::{BranchLoader, Index};
use banyan::query::{OffsetRangeQuery, QueryExt};
use banyan::store::{BlockWriter, BranchCache};
use banyan::{chacha20, Forest, StreamBuilder, Transaction, TreeTypes};
use banyan_utils::dump::{dump_cbor, dump_json, graph};
use banyan_utils::tag_index::{Tag, TagSet};
use banyan_utils::tags::{Key, Sha256Digest, TT};
use cbor_data::{Cbor, CborOwned};
use libipld::{cbor::DagCborCodec, codec::Codec, json::DagJsonCodec, Cid, Ipld};
use serde::{Deserialize, Serialize};
use simcore::engine::About;
use simcore::outcome::{guard, mixh, phase, Out, RunResult, Stop, R};
use simcore::plan::{secrets, Cfg};
use simcore::rng::{mix, Rng};
use simcore::types::hash64;
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Write};

/// how the writer behaves
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sink {
    /// fails for good after so many bytes
    pub full_at: Option<u32>,
    /// ends (accepts nothing more) instead of failing
    pub zero: bool,
    /// takes at most so many bytes at once
    pub short: u32,
    /// every n-th call is interrupted
    pub interrupt: u32,
}

const GOOD: Sink = Sink { full_at: None, zero: false, short: 0, interrupt: 0 };

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Extend { n: u32, seed: u64, unpacked: bool },
    Pack,
    Retain { from: u32 },
    Reopen,
    /// show some block of the stream
    Dump { which: u32, json: bool, sink: Sink, lost: bool, wrong_key: bool },
    /// show a block that is not part of a stream
    Plain { seed: u64, json: bool, sink: Sink },
    /// fail: this read fails
    Graph { sink: Sink, fail: Option<u32> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InspectPlan {
    pub cfg: Cfg,
    pub secrets: u8,
    pub ops: Vec<Op>,
}

fn sink(r: &mut Rng) -> Sink {
    if r.pct(40) {
        return GOOD;
    }
    Sink {
        full_at: if r.pct(50) { Some(r.skewed(3000) as u32) } else { None },
        zero: r.bool(),
        short: *r.pick(&[0, 0, 1, 7, 100]),
        interrupt: *r.pick(&[0, 0, 2, 5]),
    }
}

pub fn generate(seed: u64) -> InspectPlan {
    let mut r = Rng::new(mix(seed, 0x1251));
    let cfg = Cfg::random(&mut r);
    let max = *r.pick(&[4, 20, 60]);
    let retain = r.pct(30);
    let mut ops = vec![];
    for _ in 0..r.range(3, 14) {
        ops.push(match r.weighted(&[8, 3, 2, if retain { 2 } else { 0 }, 1, 12, 3, 6]) {
            0 => Op::Extend { n: 1 + r.skewed(max) as u32, seed: r.u64(), unpacked: false },
            1 => Op::Extend { n: 1 + r.skewed(6) as u32, seed: r.u64(), unpacked: true },
            2 => Op::Pack,
            3 => Op::Retain { from: r.skewed(60) as u32 },
            4 => Op::Reopen,
            5 => Op::Dump {
                which: r.below(10_000) as u32,
                json: r.bool(),
                sink: sink(&mut r),
                lost: r.pct(8),
                wrong_key: r.pct(8),
            },
            6 => Op::Plain { seed: r.u64(), json: r.bool(), sink: sink(&mut r) },
            _ => Op::Graph {
                sink: sink(&mut r),
                fail: if r.pct(25) { Some(r.skewed(12) as u32) } else { None },
            },
        });
    }
    InspectPlan { cfg, secrets: r.below(3) as u8, ops }
}

pub fn shrink(p: &InspectPlan) -> Vec<InspectPlan> {
    let mut res = vec![];
    let n = p.ops.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut from = 0;
        while from < n {
            let to = (from + size).min(n);
            let mut q = p.clone();
            q.ops.drain(from..to);
            res.push(q);
            from = to;
        }
        size /= 2;
    }
    for i in 0..n {
        let mut with = |op: Op| {
            let mut q = p.clone();
            q.ops[i] = op;
            res.push(q);
        };
        match &p.ops[i] {
            Op::Extend { n, seed, unpacked } if *n > 1 => {
                with(Op::Extend { n: n / 2, seed: *seed, unpacked: *unpacked });
                with(Op::Extend { n: n - 1, seed: *seed, unpacked: *unpacked });
            }
            Op::Dump { which, json, sink, lost, wrong_key } if *sink != GOOD => {
                with(Op::Dump { which: *which, json: *json, sink: GOOD, lost: *lost, wrong_key: *wrong_key })
            }
            Op::Graph { sink, fail } if *sink != GOOD => with(Op::Graph { sink: GOOD, fail: *fail }),
            Op::Plain { seed, json, sink } if *sink != GOOD => with(Op::Plain { seed: *seed, json: *json, sink: GOOD }),
            _ => {}
        }
    }
    if p.secrets != 0 {
        res.push(InspectPlan { secrets: 0, ..p.clone() });
    }
    res
}

// ---------------------------------------------------------------------------------------------

struct Out1 {
    sink: Sink,
    buf: Vec<u8>,
    calls: u32,
    failed: bool,
    disturbed: u64,
}

impl Write for &mut Out1 {
    fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.failed {
            // nothing that comes after a failure helps
            return Err(Error::new(ErrorKind::Other, "injected: disk full"));
        }
        if data.is_empty() {
            return Ok(0);
        }
        let s = self.sink;
        if s.interrupt > 0 && self.calls % s.interrupt == 0 {
            self.disturbed += 1;
            return Err(Error::new(ErrorKind::Interrupted, "injected: interrupted"));
        }
        let mut n = data.len();
        if s.short > 0 && n > s.short as usize {
            n = s.short as usize;
            self.disturbed += 1;
        }
        if let Some(at) = s.full_at {
            let room = (at as usize).saturating_sub(self.buf.len());
            if room == 0 {
                self.failed = true;
                if s.zero {
                    return Ok(0);
                }
                return Err(Error::new(ErrorKind::Other, "injected: disk full"));
            }
            n = n.min(room);
        }
        self.buf.extend_from_slice(&data[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn value(r: &mut Rng, depth: u32) -> Ipld {
    match r.below(if depth == 0 { 7 } else { 9 }) {
        0 => Ipld::Null,
        1 => Ipld::Bool(r.bool()),
        2 => Ipld::Integer(r.skewed(1 << 40) as i128),
        3 => Ipld::Integer(-1 - r.skewed(1 << 40) as i128),
        4 => Ipld::String(
            (0..r.skewed(30))
                .map(|_| *r.pick(&['a', 'b', ' ', '"', '\\', '\n', '\u{e9}', '\u{1F600}', '\u{1}', '{', '0']))
                .collect(),
        ),
        5 => Ipld::Bytes((0..r.skewed(30)).map(|_| r.u64() as u8).collect()),
        6 => Ipld::Link(Cid::from(Sha256Digest::digest(&r.u64().to_le_bytes()))),
        7 => Ipld::List((0..r.skewed(5)).map(|_| value(r, depth - 1)).collect()),
        _ => Ipld::Map(
            (0..r.skewed(4))
                .map(|i| (format!("k{}", i), value(r, depth - 1)))
                .collect(),
        ),
    }
}

type V = CborOwned;
type F = Forest<TT, Store>;

/// a node as the graph has to show it
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Shape {
    /// number of elements of a leaf
    leaf: Option<u64>,
    sealed: bool,
    children: Vec<Shape>,
}

impl Shape {
    fn sort(mut self) -> Self {
        self.children = self.children.into_iter().map(|x| x.sort()).collect();
        self.children.sort();
        self
    }
    fn size(&self) -> usize {
        1 + self.children.iter().map(|x| x.size()).sum::<usize>()
    }
}

struct World<'a> {
    p: &'a InspectPlan,
    store: Store,
    forest: F,
    builder: StreamBuilder<TT, V>,
    values: Vec<Ipld>,
    res: RunResult,
    trace: bool,
}

fn violation<T>(class: &str, msg: String) -> R<T> {
    Err(Stop::Violation { class: class.into(), msg })
}
fn foreign<T>(msg: String) -> R<T> {
    Err(Stop::Foreign(msg))
}
fn show(x: &[u8]) -> String {
    let s = String::from_utf8_lossy(x);
    let t: String = s.chars().take(200).collect();
    format!("{:?} ({} bytes)", t, x.len())
}

/// what a dump has to look like
fn expected(items: &[Ipld], header: bool, json: bool) -> anyhow::Result<Vec<u8>> {
    let mut out = vec![];
    if header {
        out.extend_from_slice(b"ZstdDagCborSeq\n");
    }
    for i in items {
        if json {
            out.extend_from_slice(&DagJsonCodec.encode(i)?);
        } else {
            let bytes = DagCborCodec.encode(i)?;
            out.extend_from_slice(Cbor::checked(&bytes).map_err(|e| anyhow::anyhow!("{}", e))?.to_string().as_bytes());
        }
        out.push(b'\n');
    }
    Ok(out)
}

/// nodes and edges of a graph
fn parse(text: &str) -> Option<Shape> {
    let mut nodes: BTreeMap<&str, (Option<u64>, bool)> = BTreeMap::new();
    let mut children: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
    let mut targets = vec![];
    let mut lines = text.lines().map(|x| x.trim());
    if !lines.next()?.starts_with("digraph") || text.lines().last()?.trim() != "}" {
        return None;
    }
    for l in lines {
        if l == "}" {
            continue;
        }
        let name = l.split(|c: char| c == '[' || c == ' ').next()?;
        if l.contains("->") {
            let to = l.split("->").nth(1)?.trim().split(|c: char| c == '[' || c == ';').next()?;
            children.entry(name).or_default().push(to);
            targets.push(to);
        } else {
            let label: u64 = l.split("label=\"").nth(1)?.split('"').next()?.parse().ok()?;
            let leaf = if l.contains("circle") {
                Some(label)
            } else if l.contains("box") {
                None
            } else {
                return None;
            };
            if nodes.insert(name, (leaf, l.contains("filled"))).is_some() {
                return None;
            }
        }
    }
    fn go(
        x: &str,
        nodes: &mut BTreeMap<&str, (Option<u64>, bool)>,
        children: &BTreeMap<&str, Vec<&str>>,
    ) -> Option<Shape> {
        // each node has one parent
        let (leaf, sealed) = nodes.remove(x)?;
        let mut res = Shape { leaf, sealed, children: vec![] };
        for c in children.get(x).into_iter().flatten() {
            res.children.push(go(c, nodes, children)?);
        }
        Some(res)
    }
    let root = *nodes.keys().find(|x| !targets.contains(*x))?;
    let res = go(root, &mut nodes, &children)?;
    // nothing else
    nodes.is_empty().then(|| res.sort())
}

impl<'a> World<'a> {
    fn say(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let s = f();
            self.res.trace.push(s);
        }
    }
    fn count(&mut self, k: &'static str, n: u64) {
        *self.res.stats.entry(k).or_default() += n;
    }
    fn txn(&self) -> Transaction<TT, Store, Store> {
        Transaction::new(self.forest.clone(), self.store.clone())
    }

    /// all nodes: link, is it a leaf, what is in it, and the shape of the tree
    fn walk(&self, i: &Index<TT>, offset: u64, blocks: &mut Vec<(Sha256Digest, bool, Vec<Ipld>)>) -> anyhow::Result<Shape> {
        let mut res = Shape { leaf: None, sealed: i.sealed(), children: vec![] };
        match i {
            Index::Leaf(l) => {
                res.leaf = Some(i.count());
                if let Some(link) = l.link {
                    let r = offset as usize..(offset + i.count()) as usize;
                    blocks.push((link, true, self.values[r].to_vec()));
                }
            }
            Index::Branch(b) => {
                if let Some(link) = b.link {
                    let branch = BranchLoader::new(&self.forest, self.builder.snapshot().secrets().unwrap(), link).load_cached()?;
                    let mut o = offset;
                    let mut items = vec![];
                    for c in branch.children.iter() {
                        let bytes = DagCborCodec.encode(c)?;
                        items.push(DagCborCodec.decode::<Ipld>(&bytes)?);
                        res.children.push(self.walk(c, o, blocks)?);
                        o += c.count();
                    }
                    blocks.push((link, false, items));
                }
            }
        }
        Ok(res)
    }

    /// compares what was written with what has to be there
    fn judge(&mut self, what: &str, out: Out<()>, o: Out1, want: &[u8], must_fail: bool) -> R {
        if o.failed {
            self.count("fault_writer_full", 1);
        }
        self.count("fault_writer_disturbed", o.disturbed);
        self.say(|| format!("{}: {}, {} of {} bytes", what, out.describe(), o.buf.len(), want.len()));
        mixh(&mut self.res.hash, o.buf.len() as u64 * 2 + out.is_ok() as u64);
        self.res.nontrivial |= want.len() > 20;
        let bad = o.failed || must_fail;
        match out {
            Out::Panic(p) => violation("panic", format!("{}: {}", what, p)),
            Out::Ok(()) if bad => violation(
                "incomplete",
                format!("{} reports success, but only {} of {} bytes were written: {}", what, o.buf.len(), want.len(), show(&o.buf)),
            ),
            Out::Ok(()) if o.buf != want => {
                violation("content", format!("{} writes {} instead of {}", what, show(&o.buf), show(want)))
            }
            Out::Ok(()) => Ok(()),
            Out::Err(e) if !bad => violation("error", format!("{} fails: {}", what, e)),
            Out::Err(_) if !must_fail && !want.starts_with(&o.buf) => {
                violation("content", format!("{} fails after writing {} which is not the beginning of {}", what, show(&o.buf), show(want)))
            }
            Out::Err(_) => Ok(()),
        }
    }

    fn step(&mut self, op: &Op) -> R {
        self.res.sim_time += 1;
        let secs = secrets(self.p.secrets);
        let nonce = <&chacha20::XNonce>::from(<TT as TreeTypes>::NONCE);
        match op {
            Op::Extend { n, seed, unpacked } => {
                phase("extend", &["C28"]);
                let mut r = Rng::new(*seed);
                let new: Vec<Ipld> = (0..*n).map(|_| value(&mut r, 2)).collect();
                let items: Vec<(Key, V)> = new
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        let t = (self.values.len() + i) as u64;
                        let tags: TagSet = std::iter::once(Tag::from(*r.pick(&["a", "b", "c"]))).collect();
                        let bytes = DagCborCodec.encode(x).unwrap();
                        (Key::single(t, t, tags), Cbor::checked(&bytes).unwrap().to_owned())
                    })
                    .collect();
                let mut txn = self.txn();
                let b = &mut self.builder;
                let out = guard(|| if *unpacked { txn.extend_unpacked(b, items) } else { txn.extend(b, items) });
                self.say(|| format!("extend {} unpacked {}: {}", n, unpacked, out.describe()));
                match out {
                    Out::Ok(()) => self.values.extend(new),
                    Out::Err(e) if e.contains("too large") => {}
                    x => return foreign(format!("extend: {}", x.describe())),
                }
            }
            Op::Pack => {
                phase("pack", &["C28"]);
                let mut txn = self.txn();
                let b = &mut self.builder;
                let out = guard(|| txn.pack(b));
                self.say(|| format!("pack: {}", out.describe()));
            }
            Op::Retain { from } => {
                phase("retain", &["C28"]);
                let mut txn = self.txn();
                let b = &mut self.builder;
                let q = OffsetRangeQuery::from(*from as u64..).boxed();
                let out = guard(|| txn.retain(b, &q));
                self.say(|| format!("retain from {}: {}", from, out.describe()));
            }
            Op::Reopen => {
                if let (Some(link), true) = (self.builder.link(), self.builder.level() > 0) {
                    let f = Forest::new(self.store.clone(), BranchCache::new(0));
                    let cfg = self.p.cfg.real();
                    match guard(|| f.load_stream_builder(secs, cfg, link)) {
                        Out::Ok(b) => {
                            self.forest = f;
                            self.builder = b;
                        }
                        x => return foreign(format!("reopen: {}", x.describe())),
                    }
                }
            }
            Op::Dump { which, json, sink, lost, wrong_key } => {
                phase("dump", &["C28"]);
                let snap = self.builder.snapshot();
                let mut blocks = vec![];
                if let Some(i) = snap.index() {
                    if let Err(e) = self.walk(i, 0, &mut blocks) {
                        return foreign(format!("walk: {}", e));
                    }
                }
                if blocks.is_empty() {
                    return Ok(());
                }
                let (link, leaf, items) = blocks.swap_remove(*which as usize % blocks.len());
                let want = match expected(&items, true, *json) {
                    Ok(x) => x,
                    Err(e) => return foreign(format!("oracle: {}", e)),
                };
                let key = match (leaf, *wrong_key) {
                    (_, true) => *secrets(9).index_key(),
                    (true, _) => *secs.value_key(),
                    (false, _) => *secs.index_key(),
                };
                let taken = if *lost { self.store.lock().blocks.remove(&link) } else { None };
                let mut o = Out1 { sink: *sink, buf: vec![], calls: 0, failed: false, disturbed: 0 };
                let store = self.store.clone();
                let w = &mut o;
                let out = guard(|| {
                    if *json {
                        dump_json(store, link, &key, nonce, w)
                    } else {
                        dump_cbor(store, link, &key, nonce, w)
                    }
                });
                self.count("dump", 1);
                if let Some(x) = taken {
                    self.count("fault_block_lost", 1);
                    self.store.lock().blocks.insert(link, x);
                }
                if *wrong_key {
                    self.count("fault_wrong_key", 1);
                }
                let what = format!("dump (json: {}) of {} with {} items", json, if leaf { "leaf" } else { "branch" }, items.len());
                self.judge(&what, out, o, &want, *lost || *wrong_key)?;
            }
            Op::Plain { seed, json, sink } => {
                phase("dump plain", &["C28"]);
                let mut r = Rng::new(*seed);
                // three in a list would look like an encrypted block
                let v = match value(&mut r, 3) {
                    Ipld::List(x) if x.len() == 3 => Ipld::List(vec![Ipld::List(x)]),
                    x => x,
                };
                let bytes = DagCborCodec.encode(&v).unwrap();
                let mut store = self.store.clone();
                let link = store.put(bytes).unwrap();
                let want = match expected(&[v], false, *json) {
                    Ok(x) => x,
                    Err(e) => return foreign(format!("oracle: {}", e)),
                };
                let mut o = Out1 { sink: *sink, buf: vec![], calls: 0, failed: false, disturbed: 0 };
                let w = &mut o;
                let key = *secs.value_key();
                let out = guard(|| {
                    if *json {
                        dump_json(store, link, &key, nonce, w)
                    } else {
                        dump_cbor(store, link, &key, nonce, w)
                    }
                });
                self.count("dump_plain", 1);
                self.judge(&format!("dump (json: {}) of a block that is not encrypted", json), out, o, &want, false)?;
            }
            Op::Graph { sink, fail } => {
                phase("graph", &["C28"]);
                let snap = self.builder.snapshot();
                let want = match snap.index() {
                    None => None,
                    Some(i) => match self.walk(i, 0, &mut vec![]) {
                        Ok(x) => Some(x.sort()),
                        Err(e) => return foreign(format!("walk: {}", e)),
                    },
                };
                let draw = |sink: Sink| {
                    let f: F = Forest::new(self.store.clone(), BranchCache::new(0));
                    let mut o = Out1 { sink, buf: vec![], calls: 0, failed: false, disturbed: 0 };
                    let w = &mut o;
                    let out = guard(|| graph(&f, &snap, w));
                    (out, o)
                };
                // what it looks like when nothing fails
                let (out, o) = draw(GOOD);
                let want = match (out, want) {
                    (Out::Panic(p), _) => return violation("panic", format!("graph: {}", p)),
                    (Out::Err(_), None) => return Ok(()),
                    (Out::Ok(()), None) => return violation("content", "there is a graph of an empty tree".into()),
                    (Out::Err(e), Some(_)) => return violation("error", format!("graph: {}", e)),
                    (Out::Ok(()), Some(want)) => {
                        self.res.nontrivial |= want.size() > 2;
                        let text = String::from_utf8_lossy(&o.buf).into_owned();
                        match parse(&text) {
                            Some(got) if got == want => {}
                            got => {
                                return violation(
                                    "graph",
                                    format!("the graph shows {:?} instead of {:?}: {}", got, want, text),
                                )
                            }
                        }
                        o.buf
                    }
                };
                self.store.arm(fail.map(|x| (x, 1)), None);
                let (out, o) = draw(*sink);
                let fired = self.store.disarm();
                self.count("graph", 1);
                self.count("fault_get_fail", fired);
                if fired > 0 && !o.buf.is_empty() && out.is_ok() {
                    return violation("incomplete", format!("a graph is drawn although a branch can not be read: {}", show(&o.buf)));
                }
                self.judge("graph", out, o, &want, fired > 0)?;
            }
        }
        let x = mix(self.builder.count(), hash64(1, &self.builder.link().map(|l| l.to_string().into_bytes()).unwrap_or_default()));
        self.res.states.push(x);
        mixh(&mut self.res.hash, x);
        if self.builder.count() != self.values.len() as u64 {
            return foreign(format!("stream has {} elements, not {}", self.builder.count(), self.values.len()));
        }
        Ok(())
    }
}

pub fn run(p: &InspectPlan, trace: bool) -> RunResult {
    let store = Store::default();
    let mut w = World {
        p,
        forest: Forest::new(store.clone(), BranchCache::new(0)),
        store,
        builder: StreamBuilder::new(p.cfg.real(), secrets(p.secrets)),
        values: vec![],
        res: RunResult::default(),
        trace,
    };
    for op in &p.ops {
        match w.step(op) {
            Ok(()) => {}
            Err(Stop::End) => break,
            Err(Stop::Violation { class, msg }) => {
                w.res.violation = Some((class, msg));
                break;
            }
            Err(Stop::Foreign(x)) => {
                w.res.foreign = Some(x);
                break;
            }
        }
    }
    w.res
}

pub fn about() -> About {
    About {
        rule: "a case is a seeded history of a stream with all kinds of values, in which blocks are dumped and the tree is drawn, with lost blocks, wrong keys and failing writers; non-trivial: something of more than 20 bytes was dumped, or a tree of more than two nodes was drawn",
        real: "banyan-utils dump_json, dump_cbor, graph; the dot crate; banyan crate below them",
        stub: "block store (in memory, with lost blocks and failing reads) and the writer (short writes, interruptions, disk full)",
        measure: "hash of number of elements and root link after every step",
        assumptions: &[
            "the encoders of libipld (DAG-JSON, DAG-CBOR) and the formatter of cbor-data are right",
        ],
        min_runs: 1000,
    }
}
