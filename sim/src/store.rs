//! The simulated block store: content addressed, with fault injection, crash semantics and a log.
use crate::types::Link;
use banyan::store::{BlockWriter, ReadOnlyStore};
use fnv::{FnvHashMap, FnvHashSet};
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex, MutexGuard};

/// A fault inside one operation. `n` counts the store calls of the operation from 0.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Fault {
    /// the nth put fails, the block is not stored. `times` consecutive puts fail
    PutFail { n: u32, times: u32 },
    /// the nth put stores the block but reports failure
    PutAckLost { n: u32 },
    /// the nth get fails, and the following `times - 1`
    GetFail { n: u32, times: u32 },
    /// nothing bigger than this fits any more
    Full { bytes: u32 },
    /// the store panics in the nth put
    PutPanic { n: u32 },
    /// the store panics in the nth get
    GetPanic { n: u32 },
    /// the process dies in the nth put, the block has reached the store or not
    CrashPut { n: u32, landed: bool },
    /// the process dies in the nth get
    CrashGet { n: u32 },
    /// the iterator handing out the items panics at the nth item
    IterPanic { n: u32 },
    /// the nth put takes long: no effect in single threaded runs, a scheduling point in others
    Slow { n: u32 },
}

impl Fault {
    pub fn name(&self) -> &'static str {
        match self {
            Fault::PutFail { .. } => "put_fail",
            Fault::PutAckLost { .. } => "put_ack_lost",
            Fault::GetFail { .. } => "get_fail",
            Fault::Full { .. } => "store_full",
            Fault::PutPanic { .. } => "put_panic",
            Fault::GetPanic { .. } => "get_panic",
            Fault::CrashPut { .. } => "crash_in_put",
            Fault::CrashGet { .. } => "crash_in_get",
            Fault::IterPanic { .. } => "iter_panic",
            Fault::Slow { .. } => "slow",
        }
    }
}

#[derive(Default)]
pub struct Inner {
    pub blocks: FnvHashMap<Link, Arc<[u8]>>,
    /// every landed put in order
    pub order: Vec<Link>,
    /// every block handed to put, landed or not, since last drained
    pub attempted: Vec<(Link, Arc<[u8]>)>,
    pub record_attempts: bool,
    pub gets: Vec<Link>,
    pub record_gets: bool,
    pub faults: Vec<Fault>,
    pub op_puts: u32,
    pub op_gets: u32,
    pub used: u64,
    pub fired: Vec<&'static str>,
    pub dead: bool,
    /// blocks that exist but are not delivered
    pub hidden: FnvHashSet<Link>,
    pub total_gets: u64,
    pub total_puts: u64,
    pub hash: u64,
    /// largest number of calls in a single operation before we call it runaway
    pub limit: u32,
}

pub const RUNAWAY: &str = "SIM-RUNAWAY: too many store calls in one operation";
pub const SIM_PANIC: &str = "SIM-INJECTED-PANIC";

#[derive(Clone, Default)]
pub struct Store(pub Arc<Mutex<Inner>>);

impl Store {
    pub fn new() -> Self {
        let s = Self::default();
        s.lock().limit = 400_000;
        s
    }
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        match self.0.lock() {
            Ok(x) => x,
            Err(x) => x.into_inner(),
        }
    }
    /// start of an operation, with these faults armed
    pub fn arm(&self, faults: &[Fault]) {
        let mut s = self.lock();
        s.faults = faults.to_vec();
        s.op_gets = 0;
        s.op_puts = 0;
        s.used = 0;
        s.fired.clear();
    }
    /// end of the operation. Returns which faults fired
    pub fn disarm(&self) -> Vec<&'static str> {
        let mut s = self.lock();
        s.faults.clear();
        s.op_gets = 0;
        s.op_puts = 0;
        std::mem::take(&mut s.fired)
    }
    pub fn dead(&self) -> bool {
        self.lock().dead
    }
    pub fn raw(&self, link: &Link) -> Option<Arc<[u8]>> {
        self.lock().blocks.get(link).cloned()
    }
    pub fn put_raw(&self, data: &[u8]) -> Link {
        let link = Link::digest(data);
        self.lock().blocks.insert(link, data.into());
        link
    }
    fn note(s: &mut Inner, kind: u64, link: &Link) {
        s.hash = (s.hash ^ link.short() ^ kind).wrapping_mul(0x0000_0100_0000_01B3);
        s.hash ^= s.hash >> 31;
    }

    fn do_get(&self, link: &Link) -> anyhow::Result<Box<[u8]>> {
        crate::sched::yield_now();
        let mut s = self.lock();
        s.total_gets += 1;
        let n = s.op_gets;
        s.op_gets += 1;
        if n > s.limit {
            drop(s);
            panic!("{}", RUNAWAY);
        }
        Self::note(&mut s, 1, link);
        if s.record_gets {
            s.gets.push(*link);
        }
        if s.dead {
            anyhow::bail!("process is dead");
        }
        for f in s.faults.clone() {
            match f {
                Fault::GetFail { n: k, times } if n >= k && n - k < times => {
                    s.fired.push(f.name());
                    anyhow::bail!("injected: get failed");
                }
                Fault::GetPanic { n: k } if n == k => {
                    s.fired.push(f.name());
                    drop(s);
                    panic!("{}", SIM_PANIC);
                }
                Fault::CrashGet { n: k } if n == k => {
                    s.fired.push(f.name());
                    s.dead = true;
                    anyhow::bail!("injected: crash");
                }
                _ => {}
            }
        }
        if s.hidden.contains(link) {
            s.fired.push("hidden_block");
            anyhow::bail!("injected: block unavailable");
        }
        match s.blocks.get(link) {
            Some(x) => Ok((**x).into()),
            None => {
                s.fired.push("missing_block");
                Err(anyhow::anyhow!("block not found"))
            }
        }
    }

    fn do_put(&self, data: Vec<u8>) -> anyhow::Result<Link> {
        crate::sched::yield_now();
        let link = Link::digest(&data);
        let data: Arc<[u8]> = data.into();
        let mut s = self.lock();
        s.total_puts += 1;
        let n = s.op_puts;
        s.op_puts += 1;
        if n > s.limit {
            drop(s);
            panic!("{}", RUNAWAY);
        }
        Self::note(&mut s, 2, &link);
        if s.dead {
            anyhow::bail!("process is dead");
        }
        if s.record_attempts {
            s.attempted.push((link, data.clone()));
        }
        for f in s.faults.clone() {
            match f {
                Fault::PutFail { n: k, times } if n >= k && n - k < times => {
                    s.fired.push(f.name());
                    anyhow::bail!("injected: put failed");
                }
                Fault::PutAckLost { n: k } if n == k => {
                    s.fired.push(f.name());
                    s.order.push(link);
                    s.blocks.insert(link, data);
                    anyhow::bail!("injected: ack lost");
                }
                Fault::Full { bytes } if s.used + data.len() as u64 > bytes as u64 => {
                    s.fired.push(f.name());
                    anyhow::bail!("injected: no space left");
                }
                Fault::PutPanic { n: k } if n == k => {
                    s.fired.push(f.name());
                    drop(s);
                    panic!("{}", SIM_PANIC);
                }
                Fault::CrashPut { n: k, landed } if n == k => {
                    s.fired.push(f.name());
                    s.dead = true;
                    if landed {
                        s.order.push(link);
                        s.blocks.insert(link, data);
                    }
                    anyhow::bail!("injected: crash");
                }
                _ => {}
            }
        }
        s.used += data.len() as u64;
        s.order.push(link);
        s.blocks.insert(link, data);
        drop(s);
        crate::sched::yield_now();
        Ok(link)
    }
}

#[derive(Clone)]
pub struct Reader(pub Store);
pub struct Writer(pub Store);

impl ReadOnlyStore<Link> for Reader {
    fn get(&self, link: &Link) -> anyhow::Result<Box<[u8]>> {
        self.0.do_get(link)
    }
}
impl BlockWriter<Link> for Writer {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Link> {
        self.0.do_put(data)
    }
}

/// What the forest sees: the store, optionally behind banyan's own MemCache
#[derive(Clone)]
pub struct AnyReader {
    base: Reader,
    mc: Option<banyan::store::MemCache<Link, Reader>>,
}
pub struct AnyWriter {
    base: Option<Writer>,
    mw: Option<banyan::store::MemWriter<Link, Writer>>,
}

impl AnyReader {
    /// mem: max block size and capacity of a MemCache
    pub fn new(store: &Store, mem: Option<(usize, usize)>) -> Self {
        let base = Reader(store.clone());
        Self {
            mc: mem.map(|(s, c)| banyan::store::MemCache::new(base.clone(), s, c)),
            base,
        }
    }
    /// offer a block to the MemCache, if there is one
    pub fn offer(&self, link: &Link, data: &[u8]) {
        if let Some(mc) = &self.mc {
            mc.offer(link, data)
        }
    }
    pub fn writer(&self) -> AnyWriter {
        match &self.mc {
            Some(mc) => AnyWriter {
                base: None,
                mw: mc.write(|r| Ok(Writer(r.0.clone()))).ok(),
            },
            None => AnyWriter {
                base: Some(Writer(self.base.0.clone())),
                mw: None,
            },
        }
    }
}

impl ReadOnlyStore<Link> for AnyReader {
    fn get(&self, link: &Link) -> anyhow::Result<Box<[u8]>> {
        match &self.mc {
            Some(mc) => mc.get(link),
            None => self.base.get(link),
        }
    }
}
impl BlockWriter<Link> for AnyWriter {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Link> {
        match (&mut self.mw, &mut self.base) {
            (Some(x), _) => x.put(data),
            (_, Some(x)) => x.put(data),
            _ => anyhow::bail!("no writer"),
        }
    }
}
