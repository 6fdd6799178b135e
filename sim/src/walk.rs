//! Decodes trees block by block, without using any of banyan's tree code. Only the block
//! encoding itself (ZstdDagCborSeq, Index) is shared with the code under test.
use crate::types::{nonce, Key, KeyRange, Link, Val, TT};
use banyan::{
    index::{CompactSeq, Index, Summarizable},
    store::ZstdDagCborSeq,
    Secrets,
};
use fnv::FnvHashMap;
use libipld::cbor::DagCborCodec;
use libipld::codec::Codec;
use libipld::{Cid, Ipld};
use std::{ops::Range, sync::Arc};

pub type Blocks = FnvHashMap<Link, Arc<[u8]>>;

/// cipher range and visible links of a block, without any keys
pub fn outer(block: &[u8]) -> anyhow::Result<(Range<u64>, Vec<Cid>)> {
    let ipld: Ipld = DagCborCodec.decode(block)?;
    if let Ipld::List(xs) = ipld {
        if let [Ipld::Integer(offset), Ipld::List(links), Ipld::Bytes(data)] = &xs[..] {
            let offset = *offset as u64;
            let links = links
                .iter()
                .map(|x| match x {
                    Ipld::Link(cid) => Ok(*cid),
                    _ => Err(anyhow::anyhow!("not a link")),
                })
                .collect::<anyhow::Result<Vec<_>>>()?;
            return Ok((offset..offset + data.len() as u64, links));
        }
    }
    anyhow::bail!("not a banyan block")
}

/// decrypts with the cipher alone: does the key stream at this offset turn the block into compressed data?
pub fn encrypted_at(secrets: &Secrets, block: &[u8], offset: u64) -> bool {
    use banyan::chacha20::{
        cipher::{NewCipher, StreamCipher, StreamCipherSeek},
        XChaCha20,
    };
    let head: [u8; 4] = match DagCborCodec.decode(block) {
        Ok(Ipld::List(xs)) => match &xs[..] {
            [_, _, Ipld::Bytes(data)] if data.len() >= 4 => [data[0], data[1], data[2], data[3]],
            _ => return false,
        },
        _ => return false,
    };
    [secrets.index_key(), secrets.value_key()].iter().any(|key| {
        let mut cipher = XChaCha20::new(key, &nonce());
        let mut head = head;
        cipher.seek(offset);
        cipher.apply_keystream(&mut head);
        head == ZSTD_MAGIC
    })
}

#[derive(Clone)]
pub enum Content {
    Branch(Vec<Index<TT>>),
    Leaf(Vec<Val>),
}

pub struct Decoded {
    pub range: Range<u64>,
    pub links: Vec<Cid>,
    pub content: Content,
}

pub fn decode_branch(secrets: &Secrets, block: &[u8]) -> anyhow::Result<Vec<Index<TT>>> {
    let (seq, _) = ZstdDagCborSeq::decrypt(block, secrets.index_key(), &nonce())?;
    let children = seq.items_ipld::<Index<TT>>()?;
    anyhow::ensure!(!children.is_empty(), "branch without children");
    Ok(children)
}

pub fn decode_leaf(secrets: &Secrets, block: &[u8]) -> anyhow::Result<Vec<Val>> {
    let (seq, _) = ZstdDagCborSeq::decrypt(block, secrets.value_key(), &nonce())?;
    seq.items::<Val>()
}

/// is this a branch? Trying to decompress garbage is slow, so look at the first bytes
pub fn probe_branch(secrets: &Secrets, block: &[u8]) -> Option<Vec<Index<TT>>> {
    let (seq, _) = ZstdDagCborSeq::decrypt(block, secrets.index_key(), &nonce()).ok()?;
    if !seq.compressed().starts_with(&ZSTD_MAGIC) {
        return None;
    }
    decode_branch(secrets, block).ok()
}
pub fn probe_leaf(secrets: &Secrets, block: &[u8]) -> Option<Vec<Val>> {
    let (seq, _) = ZstdDagCborSeq::decrypt(block, secrets.value_key(), &nonce()).ok()?;
    if !seq.compressed().starts_with(&ZSTD_MAGIC) {
        return None;
    }
    decode_leaf(secrets, block).ok()
}
const ZSTD_MAGIC: [u8; 4] = [0x28, 0xb5, 0x2f, 0xfd];

pub enum Body {
    /// link is None
    Purged,
    /// link is there, the block is not
    Missing,
    /// block can not be decoded
    Broken(String),
    Branch(Vec<Node>),
    Leaf(Vec<Val>),
}

pub struct Node {
    pub index: Index<TT>,
    pub offset: u64,
    pub body: Body,
}

impl Node {
    pub fn link(&self) -> Option<Link> {
        *self.index.link()
    }
    pub fn level(&self) -> u32 {
        self.index.level()
    }
    pub fn sealed(&self) -> bool {
        self.index.sealed()
    }
    pub fn count(&self) -> u64 {
        self.index.count()
    }
    pub fn children(&self) -> &[Node] {
        match &self.body {
            Body::Branch(x) => x,
            _ => &[],
        }
    }
    pub fn keys(&self) -> Vec<Key> {
        match &self.index {
            Index::Leaf(x) => x.keys.to_vec(),
            _ => vec![],
        }
    }
    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        for c in self.children() {
            c.visit(f);
        }
    }
    /// all nodes in pre order
    pub fn all(&self) -> Vec<&Node> {
        let mut res = Vec::new();
        self.visit(&mut |x| res.push(x));
        res
    }
    /// which elements can be read
    pub fn live(&self) -> Vec<bool> {
        let mut res = Vec::new();
        self.live0(&mut res);
        res
    }
    fn live0(&self, res: &mut Vec<bool>) {
        match &self.body {
            Body::Branch(cs) => cs.iter().for_each(|c| c.live0(res)),
            Body::Leaf(vs) => res.extend(vs.iter().map(|_| true)),
            _ => res.extend((0..self.count()).map(|_| false)),
        }
    }
    pub fn elems(&self) -> Vec<Option<(Key, Val)>> {
        let mut res = Vec::new();
        self.elems0(&mut res);
        res
    }
    fn elems0(&self, res: &mut Vec<Option<(Key, Val)>>) {
        match &self.body {
            Body::Branch(cs) => cs.iter().for_each(|c| c.elems0(res)),
            Body::Leaf(vs) => {
                for (k, v) in self.keys().into_iter().zip(vs) {
                    res.push(Some((k, v.clone())))
                }
            }
            _ => res.extend((0..self.count()).map(|_| None)),
        }
    }
    /// links of all blocks that are there
    pub fn reachable(&self) -> Vec<Link> {
        let mut res = Vec::new();
        self.visit(&mut |n| {
            if let (Some(l), Body::Branch(_) | Body::Leaf(_)) = (n.link(), &n.body) {
                res.push(l)
            }
        });
        res
    }
    /// maximal subtrees that are not there
    pub fn missing(&self) -> Vec<&Node> {
        self.all()
            .into_iter()
            .filter(|x| matches!(x.body, Body::Missing | Body::Broken(_)))
            .collect()
    }
    /// structure without links and byte counts
    pub fn shape(&self) -> String {
        let mut s = String::new();
        self.shape0(&mut s);
        s
    }
    fn shape0(&self, s: &mut String) {
        use std::fmt::Write;
        let _ = write!(
            s,
            "{}{}{}",
            self.level(),
            if self.sealed() { "s" } else { "u" },
            self.count()
        );
        match &self.body {
            Body::Purged => s.push('-'),
            Body::Missing => s.push('?'),
            Body::Broken(_) => s.push('!'),
            Body::Leaf(vs) => {
                if let Some(v) = vs.first() {
                    let _ = write!(s, ":{}", v.id);
                }
            }
            Body::Branch(cs) => {
                s.push('(');
                for c in cs {
                    c.shape0(s);
                    s.push(' ');
                }
                s.push(')');
            }
        }
    }
    /// structure only
    pub fn skeleton(&self, h: &mut u64) {
        use crate::outcome::mixh;
        mixh(h, self.level() as u64 * 2 + self.sealed() as u64);
        match &self.body {
            Body::Branch(cs) => {
                mixh(h, 1 + cs.len() as u64);
                for c in cs {
                    c.skeleton(h);
                }
            }
            Body::Leaf(_) => mixh(h, self.count() << 8 | 2),
            Body::Purged => mixh(h, 3),
            Body::Missing => mixh(h, 4),
            Body::Broken(_) => mixh(h, 5),
        }
    }
    /// is it packed, according to the documentation: all but the last child of an unsealed branch
    /// are sealed and one level below, and the last child is itself packed
    pub fn packed(&self) -> bool {
        if self.sealed() {
            return true;
        }
        match &self.body {
            Body::Branch(cs) => {
                let (last, rest) = cs.split_last().unwrap();
                rest.iter()
                    .all(|c| c.sealed() && c.level() + 1 == self.level())
                    && last.level() < self.level()
                    && last.packed()
            }
            _ => true,
        }
    }
    /// sealed subtrees at the front, of descending level
    pub fn front(&self) -> Vec<&Node> {
        let mut res = Vec::new();
        let mut level = i64::MAX;
        let mut done = false;
        self.front0(&mut level, &mut done, &mut res);
        res
    }
    fn front0<'a>(&'a self, level: &mut i64, done: &mut bool, res: &mut Vec<&'a Node>) {
        if *done {
            return;
        }
        if self.sealed() && self.level() as i64 <= *level {
            *level = self.level() as i64;
            res.push(self);
            return;
        }
        match &self.body {
            Body::Branch(cs) => {
                *level = (*level).min(self.level() as i64 - 1);
                for c in cs {
                    c.front0(level, done, res)
                }
            }
            _ => *done = true,
        }
    }
    pub fn size_in_leaf(vals: &[Val]) -> usize {
        vals.iter().map(|v| v.cbor.len()).sum()
    }
}

/// does a decoding cache make sense: yes, since histories look at the same blocks over and over
#[derive(Default)]
pub struct Walker {
    branches: FnvHashMap<Link, Arc<Vec<Index<TT>>>>,
    leaves: FnvHashMap<Link, Arc<Vec<Val>>>,
}

impl Walker {
    pub fn walk(
        &mut self,
        blocks: &dyn Fn(&Link) -> Option<Arc<[u8]>>,
        secrets: &Secrets,
        index: &Index<TT>,
        offset: u64,
    ) -> Node {
        let body = match index.link() {
            None => Body::Purged,
            Some(link) => match blocks(link) {
                None => Body::Missing,
                Some(data) => match index {
                    Index::Leaf(_) => {
                        let vals = match self.leaves.get(link) {
                            Some(x) => Ok(x.clone()),
                            None => decode_leaf(secrets, &data).map(Arc::new),
                        };
                        match vals {
                            Ok(v) => {
                                self.leaves.insert(*link, v.clone());
                                Body::Leaf(v.as_ref().clone())
                            }
                            Err(e) => Body::Broken(e.to_string()),
                        }
                    }
                    Index::Branch(_) => {
                        let children = match self.branches.get(link) {
                            Some(x) => Ok(x.clone()),
                            None => decode_branch(secrets, &data).map(Arc::new),
                        };
                        match children {
                            Ok(v) => {
                                self.branches.insert(*link, v.clone());
                                let mut o = offset;
                                let mut cs = Vec::with_capacity(v.len());
                                for c in v.iter() {
                                    cs.push(self.walk(blocks, secrets, c, o));
                                    o = o.saturating_add(c.count());
                                }
                                Body::Branch(cs)
                            }
                            Err(e) => Body::Broken(e.to_string()),
                        }
                    }
                },
            },
        };
        Node {
            index: index.clone(),
            offset,
            body,
        }
    }
}

pub fn summary(index: &Index<TT>) -> KeyRange {
    match index {
        Index::Leaf(x) => x.keys.summarize(),
        Index::Branch(x) => x.summaries.summarize(),
    }
}
