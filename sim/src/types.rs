//! Tree types for the simulation: a key with a number and an optional link, summarised as a
//! range of numbers; values of many shapes and sizes, each with an unique id.
use crate::rng::Rng;
use banyan::index::{CompactSeq, Summarizable, VecSeq};
use banyan::TreeTypes;
use cbor_data::codec::{ReadCbor, WriteCbor};
use libipld::{
    cbor::DagCborCodec,
    codec::{Decode, Encode},
    multihash::Multihash,
    Cid, DagCbor,
};
use serde::{Deserialize, Serialize};
use std::{
    convert::{TryFrom, TryInto},
    fmt,
    io::{Read, Seek, Write},
};

#[derive(Copy, Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct Link(pub [u8; 32]);

/// not cryptographic, but collision free for our purposes and fast
pub fn hash64(seed: u64, data: &[u8]) -> u64 {
    let mut h = seed ^ (data.len() as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let mut it = data.chunks_exact(8);
    for c in &mut it {
        let w = u64::from_le_bytes(c.try_into().unwrap());
        h = (h ^ w).wrapping_mul(0xff51_afd7_ed55_8ccd);
        h ^= h >> 32;
    }
    let mut last = [0u8; 8];
    let rem = it.remainder();
    last[..rem.len()].copy_from_slice(rem);
    h = (h ^ u64::from_le_bytes(last)).wrapping_mul(0xc4ce_b9fe_1a85_ec53);
    h ^= h >> 29;
    h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h ^ (h >> 32)
}

impl Link {
    pub fn digest(data: &[u8]) -> Self {
        let mut res = [0u8; 32];
        for i in 0..4u64 {
            let h = hash64(0x1234_5678_9abc_def1u64.wrapping_mul(2 * i + 1), data);
            res[i as usize * 8..i as usize * 8 + 8].copy_from_slice(&h.to_le_bytes());
        }
        Self(res)
    }
    pub fn of_id(id: u64) -> Self {
        Self::digest(&id.to_be_bytes())
    }
    pub fn short(&self) -> u64 {
        u64::from_le_bytes(self.0[..8].try_into().unwrap())
    }
    pub fn cid(&self) -> Cid {
        Cid::new_v1(0x71, Multihash::wrap(0x12, &self.0).unwrap())
    }
    /// same digest, but as a link to raw data
    pub fn raw_cid(&self) -> Cid {
        Cid::new_v1(0x55, Multihash::wrap(0x12, &self.0).unwrap())
    }
    pub fn from_any_cid(cid: &Cid) -> anyhow::Result<Self> {
        anyhow::ensure!(cid.hash().code() == 0x12);
        Ok(Self(cid.hash().digest().try_into()?))
    }
}
impl fmt::Display for Link {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:016x}", self.short())
    }
}
impl fmt::Debug for Link {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self)
    }
}
impl TryFrom<Cid> for Link {
    type Error = anyhow::Error;
    fn try_from(cid: Cid) -> anyhow::Result<Self> {
        anyhow::ensure!(cid.codec() == 0x71, "unexpected codec");
        Self::from_any_cid(&cid)
    }
}
impl Decode<DagCborCodec> for Link {
    fn decode<R: Read + Seek>(c: DagCborCodec, r: &mut R) -> anyhow::Result<Self> {
        Self::try_from(Cid::decode(c, r)?)
    }
}
impl Encode<DagCborCodec> for Link {
    fn encode<W: Write>(&self, c: DagCborCodec, w: &mut W) -> anyhow::Result<()> {
        Cid::encode(&self.cid(), c, w)
    }
}

#[derive(Debug, Clone)]
pub struct TT;

#[derive(Debug, Clone, Copy, PartialEq, Eq, DagCbor)]
pub struct Key {
    pub k: u64,
    pub link: Option<Link>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, DagCbor)]
pub struct KeyRange(pub u64, pub u64);

#[derive(Debug, Clone)]
pub struct KeySeq(pub Vec<Key>);

/// keys with this bit take up a megabyte in an index
pub const FAT: u64 = 1 << 62;
impl Key {
    pub fn fat(&self) -> bool {
        self.k & FAT != 0
    }
}
impl Encode<DagCborCodec> for KeySeq {
    fn encode<W: Write>(&self, c: DagCborCodec, w: &mut W) -> anyhow::Result<()> {
        let fat = self.0.iter().filter(|k| k.fat()).count();
        w.write_all(&[if fat == 0 { 0x81 } else { 0x82 }])?;
        self.0.encode(c, w)?;
        if fat > 0 {
            libipld::Ipld::Bytes(vec![0; fat << 20]).encode(c, w)?;
        }
        Ok(())
    }
}
impl Decode<DagCborCodec> for KeySeq {
    fn decode<R: Read + Seek>(c: DagCborCodec, r: &mut R) -> anyhow::Result<Self> {
        let head = libipld::cbor::decode::read_u8(r)?;
        anyhow::ensure!(head == 0x81 || head == 0x82, "not a key sequence");
        let res = Vec::<Key>::decode(c, r)?;
        if head == 0x82 {
            libipld::Ipld::decode(c, r)?;
        }
        Ok(Self(res))
    }
}
impl libipld::codec::References<DagCborCodec> for KeySeq {
    fn references<R: Read, E: Extend<Cid>>(
        _c: DagCborCodec,
        _r: &mut R,
        _set: &mut E,
    ) -> anyhow::Result<()> {
        unreachable!()
    }
}

impl CompactSeq for KeySeq {
    type Item = Key;
    fn get(&self, index: usize) -> Option<Key> {
        self.0.get(index).copied()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl Summarizable<KeyRange> for KeySeq {
    fn summarize(&self) -> KeyRange {
        let min = self.0.iter().map(|x| x.k).min().unwrap_or(u64::MAX);
        let max = self.0.iter().map(|x| x.k).max().unwrap_or(0);
        KeyRange(min, max)
    }
}
impl Summarizable<KeyRange> for VecSeq<KeyRange> {
    fn summarize(&self) -> KeyRange {
        let min = self.as_ref().iter().map(|x| x.0).min().unwrap_or(u64::MAX);
        let max = self.as_ref().iter().map(|x| x.1).max().unwrap_or(0);
        KeyRange(min, max)
    }
}
impl std::iter::FromIterator<Key> for KeySeq {
    fn from_iter<T: IntoIterator<Item = Key>>(iter: T) -> Self {
        Self(iter.into_iter().collect())
    }
}

impl TreeTypes for TT {
    type Key = Key;
    type KeySeq = KeySeq;
    type Summary = KeyRange;
    type SummarySeq = VecSeq<KeyRange>;
    type Link = Link;
    const NONCE: &'static [u8; 24] = &[
        3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3, 2, 3, 8, 4, 6, 2, 6, 4,
    ];
}

pub fn nonce() -> banyan::chacha20::XNonce {
    (*TT::NONCE).into()
}

/// A value. The bytes are its complete CBOR encoding.
#[derive(Clone, PartialEq, Eq)]
pub struct Val {
    pub id: u64,
    pub cbor: std::sync::Arc<[u8]>,
}

impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Val#{}[{}]", self.id, self.cbor.len())
    }
}

impl WriteCbor for Val {
    fn write_cbor<W: cbor_data::Writer>(&self, w: W) -> W::Output {
        w.write_trusting(&self.cbor)
    }
}

impl ReadCbor for Val {
    fn fmt(f: &mut impl std::fmt::Write) -> std::fmt::Result {
        write!(f, "Val")
    }
    fn read_cbor(cbor: &cbor_data::Cbor) -> cbor_data::codec::Result<Self> {
        let bytes = cbor.as_slice();
        Ok(Self {
            id: find_id(bytes).unwrap_or(u64::MAX),
            cbor: bytes.into(),
        })
    }
}

fn head(out: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    if n < 24 {
        out.push(m | n as u8);
    } else if n < 0x100 {
        out.extend([m | 24, n as u8]);
    } else if n < 0x1_0000 {
        out.push(m | 25);
        out.extend((n as u16).to_be_bytes());
    } else if n < 0x1_0000_0000 {
        out.push(m | 26);
        out.extend((n as u32).to_be_bytes());
    } else {
        out.push(m | 27);
        out.extend(n.to_be_bytes());
    }
}

/// all our encodings have the id as the first unsigned integer
fn find_id(bytes: &[u8]) -> Option<u64> {
    let mut i = 0;
    while i < bytes.len().min(3) {
        let b = bytes[i];
        match b >> 5 {
            0 => {
                let n = match b & 31 {
                    x @ 0..=23 => return Some(x as u64),
                    24 => 1,
                    25 => 2,
                    26 => 4,
                    27 => 8,
                    _ => return None,
                };
                let mut res = 0u64;
                for x in bytes.get(i + 1..i + 1 + n)? {
                    res = res << 8 | *x as u64;
                }
                return Some(res);
            }
            4..=6 => i += 1,
            _ => return None,
        }
    }
    None
}

fn bytes(out: &mut Vec<u8>, data: &[u8]) {
    head(out, 2, data.len() as u64);
    out.extend(data);
}

fn tag42(out: &mut Vec<u8>, cid: &Cid) {
    out.extend([0xd8, 42]);
    let mut b = vec![0u8];
    b.extend(cid.to_bytes());
    bytes(out, &b);
}

fn pad(out: &mut Vec<u8>, id: u64, len: u64, random: bool) {
    let mut data = vec![0u8; len as usize];
    if random {
        let mut rng = Rng::new(id ^ 0x7061_6464);
        for c in data.chunks_mut(8) {
            let r = rng.u64().to_le_bytes();
            c.copy_from_slice(&r[..c.len()]);
        }
    }
    bytes(out, &data);
}

/// How to make a value
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Shape {
    /// just the id
    Tiny,
    /// array of id and padding
    Pad { len: u32, random: bool },
    /// array of id and links (dag-cbor and raw)
    Links { n: u8 },
    /// map with nested arrays, a link inside, tags other than 42, floats, null, indefinite length
    Odd,
    /// contains a tag 42 that is not a valid link
    BadLink,
}

/// A link inside a value: blob id (the link is the digest of that number), and whether it is a link
/// to raw data
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ref(pub u64, pub bool);

impl Ref {
    pub fn link(&self) -> Link {
        Link::of_id(self.0)
    }
    pub fn cid(&self) -> Cid {
        if self.1 {
            self.link().raw_cid()
        } else {
            self.link().cid()
        }
    }
}

/// value and the links inside it
pub fn make_val(id: u64, shape: Shape) -> (Val, Vec<Ref>) {
    let mut out = Vec::new();
    let mut links = Vec::new();
    match shape {
        Shape::Tiny => head(&mut out, 0, id),
        Shape::Pad { len, random } => {
            head(&mut out, 4, 2);
            head(&mut out, 0, id);
            pad(&mut out, id, len as u64, random);
        }
        Shape::Links { n } => {
            head(&mut out, 4, 1 + n as u64);
            head(&mut out, 0, id);
            for i in 0..n as u64 {
                // every second link points to something shared
                let link = Ref(if i % 2 == 0 { id } else { id % 7 } + (i << 40), i % 3 == 2);
                links.push(link);
                tag42(&mut out, &link.cid());
            }
        }
        Shape::Odd => {
            // [id, {"a": [link, -1], 3: 1.5}, tag1(7), null, true, h'0102', [_ 1, link]]
            // (no byte strings of indefinite length: cbor-data 0.8.13 can not skip over those)
            head(&mut out, 4, 7);
            head(&mut out, 0, id);
            head(&mut out, 5, 2);
            out.extend([0x61, b'a']);
            head(&mut out, 4, 2);
            let link = Ref(id + (77 << 40), false);
            links.push(link);
            tag42(&mut out, &link.cid());
            out.push(0x20);
            out.push(3);
            out.extend([0xfb, 0x3f, 0xf8, 0, 0, 0, 0, 0, 0]);
            out.extend([0xc1, 0x07, 0xf6, 0xf5]);
            out.extend([0x42, 1, 2]);
            let link = Ref(id % 5 + (78 << 40), true);
            links.push(link);
            out.extend([0x9f, 1]);
            tag42(&mut out, &link.cid());
            out.push(0xff);
        }
        Shape::BadLink => {
            head(&mut out, 4, 2);
            head(&mut out, 0, id);
            out.extend([0xd8, 42]);
            bytes(&mut out, b"\x01nonsense");
        }
    }
    (
        Val {
            id,
            cbor: out.into(),
        },
        links,
    )
}
