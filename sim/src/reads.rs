//! All the ways to read a tree, reduced to something that can be compared.
use crate::outcome::{guard, Out};
use crate::plan::Elem;
use crate::query::Q;
use crate::store::AnyReader;
use crate::types::{Key, Val, TT};
use crate::walk::{Body, Node};
use banyan::index::{Index, NodeInfo};
use banyan::store::ReadOnlyStore;
use banyan::{FilteredChunk, Forest, Tree};
use futures::{executor::block_on, pin_mut, Stream, StreamExt};
use std::{ops::Range, sync::Arc};

pub type Triple = (u64, Key, Val);
pub type Chunk = FilteredChunk<Triple, u64>;

#[derive(Clone, Default)]
pub struct Model {
    pub elems: Vec<Arc<Elem>>,
    pub live: Vec<bool>,
}

impl Model {
    pub fn len(&self) -> u64 {
        self.elems.len() as u64
    }
    pub fn is_empty(&self) -> bool {
        self.elems.is_empty()
    }
    pub fn push(&mut self, e: &Arc<Elem>) {
        self.elems.push(e.clone());
        self.live.push(true);
    }
    pub fn get(&self, i: u64) -> Option<(Key, Val)> {
        let i = i as usize;
        if i < self.elems.len() && self.live[i] {
            Some((self.elems[i].key, self.elems[i].val.clone()))
        } else {
            None
        }
    }
    pub fn expect(&self) -> Vec<Option<(Key, Val)>> {
        (0..self.len()).map(|i| self.get(i)).collect()
    }
    pub fn filtered(&self, q: &Q) -> Vec<Triple> {
        (0..self.len())
            .filter_map(|i| self.get(i).map(|(k, v)| (i, k, v)))
            .filter(|(i, k, _)| q.matches(*i, k.k))
            .collect()
    }
    pub fn truncate(&self, n: u64) -> Model {
        let n = n as usize;
        Model {
            elems: self.elems[..n.min(self.elems.len())].to_vec(),
            live: self.live[..n.min(self.live.len())].to_vec(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Iter,
    IterRev,
    Stream,
    Chunked,
    ChunkedRev,
    StreamChunked,
    StreamChunkedRev,
}
pub const KINDS: [Kind; 7] = [
    Kind::Iter,
    Kind::IterRev,
    Kind::Stream,
    Kind::Chunked,
    Kind::ChunkedRev,
    Kind::StreamChunked,
    Kind::StreamChunkedRev,
];
impl Kind {
    pub fn reverse(&self) -> bool {
        matches!(self, Kind::IterRev | Kind::ChunkedRev | Kind::StreamChunkedRev)
    }
    pub fn chunked(&self) -> bool {
        matches!(
            self,
            Kind::Chunked | Kind::ChunkedRev | Kind::StreamChunked | Kind::StreamChunkedRev
        )
    }
}

#[derive(Default)]
pub struct Seq<T> {
    pub items: Vec<T>,
    pub err: Option<String>,
    /// something came after the first error
    pub more: bool,
    pub endless: bool,
    pub panic: Option<String>,
}

impl<T> Seq<T> {
    pub fn map<U>(self, f: impl FnMut(T) -> U) -> Seq<U> {
        Seq {
            items: self.items.into_iter().map(f).collect(),
            err: self.err,
            more: self.more,
            endless: self.endless,
            panic: self.panic,
        }
    }
}

const CAP: usize = 100_000;

pub fn pull<T>(mk: impl FnOnce() -> Box<dyn Iterator<Item = anyhow::Result<T>>>) -> Seq<T> {
    let mut items = Vec::new();
    let mut err = None;
    let mut more = false;
    let mut endless = false;
    let out = guard(|| {
        let mut iter = mk();
        while let Some(x) = iter.next() {
            match x {
                Ok(x) => items.push(x),
                Err(e) => {
                    err = Some(e.to_string());
                    // must be over now
                    more = iter.next().is_some();
                    break;
                }
            }
            if items.len() > CAP {
                endless = true;
                break;
            }
        }
        Ok(())
    });
    Seq {
        items,
        err,
        more,
        endless,
        panic: match out {
            Out::Panic(p) => Some(p),
            _ => None,
        },
    }
}

pub fn pull_stream<T: 'static>(
    mk: impl FnOnce() -> futures::stream::LocalBoxStream<'static, anyhow::Result<T>> + 'static,
) -> Seq<T> {
    struct It<S>(std::pin::Pin<Box<S>>);
    impl<S: Stream> Iterator for It<S> {
        type Item = S::Item;
        fn next(&mut self) -> Option<S::Item> {
            block_on(self.0.next())
        }
    }
    pull(move || Box::new(It(Box::pin(mk()))))
}

/// count of the node a chunk comes from
pub fn extra<R>(info: &NodeInfo<TT, R>) -> u64 {
    match info {
        NodeInfo::Branch(x, _) | NodeInfo::PurgedBranch(x) => x.count,
        NodeInfo::Leaf(x, _) | NodeInfo::PurgedLeaf(x) => x.keys.0.len() as u64,
    }
}

pub fn chunks<R: ReadOnlyStore<crate::types::Link>>(
    kind: Kind,
    forest: &Forest<TT, R>,
    tree: &Tree<TT, Val>,
    q: &Q,
) -> Seq<Chunk> {
    let query = q.real();
    let forest = forest.clone();
    let tree = tree.clone();
    match kind {
        Kind::Chunked => pull(|| Box::new(forest.iter_filtered_chunked(&tree, query, &extra::<R>))),
        Kind::ChunkedRev => {
            pull(|| Box::new(forest.iter_filtered_chunked_reverse(&tree, query, &extra::<R>)))
        }
        Kind::StreamChunked => pull_stream(move || {
            forest
                .stream_filtered_chunked(&tree, query, &extra::<R>)
                .boxed_local()
        }),
        Kind::StreamChunkedRev => pull_stream(move || {
            forest
                .stream_filtered_chunked_reverse(&tree, query, &extra::<R>)
                .boxed_local()
        }),
        _ => unreachable!(),
    }
}

/// elements in the order in which they arrive
pub fn elements<R: ReadOnlyStore<crate::types::Link>>(
    kind: Kind,
    forest: &Forest<TT, R>,
    tree: &Tree<TT, Val>,
    q: &Q,
) -> Seq<Triple> {
    let query = q.real();
    let forest1 = forest.clone();
    let tree1 = tree.clone();
    match kind {
        Kind::Iter => {
            if *q == Q::All {
                pull(|| Box::new(forest1.iter_from(&tree1)))
            } else {
                pull(|| Box::new(forest1.iter_filtered(&tree1, query)))
            }
        }
        Kind::IterRev => pull(|| Box::new(forest1.iter_filtered_reverse(&tree1, query))),
        Kind::Stream => {
            pull_stream(move || forest1.stream_filtered(&tree1, query).boxed_local())
        }
        _ => {
            let cs = chunks(kind, forest, tree, q);
            let mut items = Vec::new();
            for c in cs.items {
                if kind.reverse() {
                    items.extend(c.data.into_iter().rev());
                } else {
                    items.extend(c.data);
                }
            }
            Seq {
                items,
                err: cs.err,
                more: cs.more,
                endless: cs.endless,
                panic: cs.panic,
            }
        }
    }
}

pub fn show(xs: &[Triple]) -> String {
    let mut s = String::new();
    for (o, k, v) in xs.iter().take(12) {
        s += &format!("{}:k{}#{} ", o, k.k, v.id);
    }
    if xs.len() > 12 {
        s += &format!("... ({} elements)", xs.len());
    }
    s
}

/// complete answer, no error
pub fn check_complete(got: &Seq<Triple>, want: &[Triple]) -> Result<(), String> {
    if let Some(p) = &got.panic {
        return Err(format!("panic: {}", p));
    }
    if let Some(e) = &got.err {
        return Err(format!("unexpected error: {}", e));
    }
    if got.endless {
        return Err("does not end".into());
    }
    if got.items != want {
        let pos = got
            .items
            .iter()
            .zip(want)
            .position(|(a, b)| a != b)
            .unwrap_or_else(|| got.items.len().min(want.len()));
        return Err(format!(
            "wrong elements (first difference at position {}): got {} elements, {}; want {} elements, {}",
            pos,
            got.items.len(),
            show(&got.items[pos.min(got.items.len())..]),
            want.len(),
            show(&want[pos.min(want.len())..])
        ));
    }
    Ok(())
}

/// exact prefix, then an error, then nothing; or complete
pub fn check_prefix<T: PartialEq>(
    got: &Seq<T>,
    want: &[T],
    show: impl Fn(&[T]) -> String,
) -> Result<(), String> {
    if let Some(p) = &got.panic {
        return Err(format!("panic: {}", p));
    }
    if got.endless {
        return Err("does not end".into());
    }
    if got.more {
        return Err("does not end after the first error".into());
    }
    if got.items.len() > want.len() || got.items[..] != want[..got.items.len()] {
        return Err(format!(
            "not a prefix of the right answer: got {}, want {}",
            show(&got.items),
            show(want)
        ));
    }
    if got.err.is_none() && got.items.len() != want.len() {
        return Err(format!(
            "ended without an error after {} of {} elements",
            got.items.len(),
            want.len()
        ));
    }
    Ok(())
}

/// chunks tile the offsets. Complete if there was no error.
pub fn check_tiles(got: &Seq<Chunk>, reverse: bool, count: u64) -> Result<(), String> {
    if let Some(p) = &got.panic {
        return Err(format!("panic: {}", p));
    }
    if got.endless {
        return Err("does not end".into());
    }
    let ranges: Vec<Range<u64>> = got.items.iter().map(|c| c.range.clone()).collect();
    let mut pos = if reverse { count } else { 0 };
    for c in &got.items {
        let r = &c.range;
        let ok = if reverse {
            r.end == pos && r.start <= r.end
        } else {
            r.start == pos && r.end >= r.start
        };
        if !ok {
            return Err(format!(
                "ranges do not tile 0..{}: {:?} (reverse: {})",
                count, ranges, reverse
            ));
        }
        pos = if reverse { r.start } else { r.end };
        if c.extra != r.end - r.start {
            return Err(format!(
                "chunk {:?} was computed from a node with {} elements",
                r, c.extra
            ));
        }
        let mut last = None;
        for (o, _, _) in &c.data {
            if !r.contains(o) {
                return Err(format!("element {} in chunk {:?}", o, r));
            }
            if last.map(|l| l >= *o).unwrap_or(false) {
                return Err(format!("data of chunk {:?} is not ascending", r));
            }
            last = Some(*o);
        }
    }
    let end = if reverse { 0 } else { count };
    if got.err.is_none() && pos != end {
        return Err(format!(
            "ranges stop at {} of 0..{}: {:?} (reverse: {})",
            pos, count, ranges, reverse
        ));
    }
    Ok(())
}

/// node identity for index iteration
pub type Id = (Option<crate::types::Link>, u32, u64);
pub fn id_of(i: &Index<TT>) -> Id {
    (*i.link(), i.level(), i.count())
}

pub fn index_seq<R: ReadOnlyStore<crate::types::Link>>(
    forest: &Forest<TT, R>,
    tree: &Tree<TT, Val>,
    q: &Q,
    reverse: bool,
) -> Seq<Id> {
    let query = q.real();
    let f = forest.clone();
    let t = tree.clone();
    let s = if reverse {
        pull(|| Box::new(f.iter_index_reverse(&t, query)))
    } else {
        pull(|| Box::new(f.iter_index(&t, query)))
    };
    s.map(|i| id_of(&i))
}

/// nodes whose summary may match, and the nodes above them
pub fn index_expected(node: &Node, q: &Q, reverse: bool) -> Vec<Id> {
    fn go(n: &Node, q: &Q, reverse: bool, res: &mut Vec<Id>) {
        res.push(id_of(&n.index));
        if let (Index::Branch(b), Body::Branch(cs)) = (&n.index, &n.body) {
            let bits = q.branch_bits(n.offset, b, false);
            let mut go1 = |i: usize| {
                if bits.get(i).copied().unwrap_or(false) {
                    go(&cs[i], q, reverse, res)
                }
            };
            if reverse {
                (0..cs.len()).rev().for_each(&mut go1);
            } else {
                (0..cs.len()).for_each(&mut go1);
            }
        }
    }
    let mut res = Vec::new();
    go(node, q, reverse, &mut res);
    res
}

/// blocks a filtered read needs
pub fn needed(node: &Node, q: &Q, res: &mut Vec<crate::types::Link>) {
    match (&node.index, &node.body) {
        (Index::Branch(b), Body::Branch(cs)) => {
            let bits = q.branch_bits(node.offset, b, true);
            if bits.iter().any(|x| *x) {
                res.extend(node.link());
                for (c, bit) in cs.iter().zip(bits) {
                    if bit {
                        needed(c, q, res);
                    }
                }
            }
        }
        (Index::Leaf(l), Body::Leaf(_)) => {
            if q.leaf_bits(node.offset, l).iter().any(|x| *x) {
                res.extend(node.link());
            }
        }
        _ => {}
    }
}

/// branches that have to be read to iterate the index
pub fn needed_index(node: &Node, q: &Q, res: &mut Vec<crate::types::Link>) {
    if let (Index::Branch(b), Body::Branch(cs)) = (&node.index, &node.body) {
        res.extend(node.link());
        let bits = q.branch_bits(node.offset, b, true);
        for (c, bit) in cs.iter().zip(bits) {
            if bit {
                needed_index(c, q, res);
            }
        }
    }
}

/// blocks to read the elements in a range of offsets
pub fn needed_range(node: &Node, r: &Range<u64>, res: &mut Vec<crate::types::Link>) {
    if node.offset < r.end && node.offset + node.count() > r.start {
        if matches!(node.body, Body::Branch(_) | Body::Leaf(_)) {
            res.extend(node.link());
        }
        for c in node.children() {
            needed_range(c, r, res);
        }
    }
}

pub fn drain<S: Stream>(s: S) -> Vec<S::Item> {
    pin_mut!(s);
    block_on(s.collect::<Vec<_>>())
}

pub type F = Forest<TT, AnyReader>;
