//! Simulated block store for the link type of banyan-utils
use banyan::store::{BlockWriter, ReadOnlyStore};
use banyan_utils::tags::Sha256Digest;
use fnv::{FnvHashMap, FnvHashSet};
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Default)]
pub struct Inner {
    pub blocks: FnvHashMap<Sha256Digest, Arc<[u8]>>,
    /// gets fail from the first number on, for the second number of calls
    pub get_fail: Option<(u32, u32)>,
    pub put_fail: Option<(u32, u32)>,
    /// all other blocks are unavailable
    pub only: Option<FnvHashSet<Sha256Digest>>,
    pub op_gets: u32,
    pub op_puts: u32,
    pub fired: u64,
    pub gets: u64,
    pub puts: u64,
}

#[derive(Clone, Default)]
pub struct Store(pub Arc<Mutex<Inner>>);

impl Store {
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        match self.0.lock() {
            Ok(x) => x,
            Err(x) => x.into_inner(),
        }
    }
    pub fn arm(&self, get: Option<(u32, u32)>, put: Option<(u32, u32)>) {
        let mut s = self.lock();
        s.op_gets = 0;
        s.op_puts = 0;
        s.get_fail = get;
        s.put_fail = put;
        s.fired = 0;
    }
    /// returns how many faults fired
    pub fn disarm(&self) -> u64 {
        let mut s = self.lock();
        s.get_fail = None;
        s.put_fail = None;
        s.op_gets = 0;
        s.op_puts = 0;
        std::mem::take(&mut s.fired)
    }
}

impl ReadOnlyStore<Sha256Digest> for Store {
    fn get(&self, link: &Sha256Digest) -> anyhow::Result<Box<[u8]>> {
        let mut s = self.lock();
        s.gets += 1;
        let n = s.op_gets;
        s.op_gets += 1;
        if n > 400_000 {
            drop(s);
            panic!("{}", simcore::store::RUNAWAY);
        }
        if let Some((at, times)) = s.get_fail {
            if n >= at && n - at < times {
                s.fired += 1;
                anyhow::bail!("injected: get failed");
            }
        }
        if let Some(only) = &s.only {
            if !only.contains(link) {
                s.fired += 1;
                anyhow::bail!("block {} is unavailable", link);
            }
        }
        match s.blocks.get(link) {
            Some(x) => Ok((**x).into()),
            None => Err(anyhow::anyhow!("block not found")),
        }
    }
}

impl BlockWriter<Sha256Digest> for Store {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Sha256Digest> {
        let link = Sha256Digest::digest(&data);
        let mut s = self.lock();
        s.puts += 1;
        let n = s.op_puts;
        s.op_puts += 1;
        if n > 400_000 {
            drop(s);
            panic!("{}", simcore::store::RUNAWAY);
        }
        if let Some((at, times)) = s.put_fail {
            if n >= at && n - at < times {
                s.fired += 1;
                anyhow::bail!("injected: put failed");
            }
        }
        s.blocks.insert(link, data.into());
        Ok(link)
    }
}
