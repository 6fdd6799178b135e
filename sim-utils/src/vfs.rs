//! In-memory file system for SQLite: all I/O, locks, shared memory, time, sleep and randomness of
//! the database go through here, and so do all injected faults and crashes.
//!
//! There is at most one thread besides the main one (the block store recomputes its statistics in
//! the background after opening). It only proceeds when the main thread lets it, so that one plan
//! is one execution.
#![allow(non_snake_case)]
use libsqlite3_sys as ffi;
use simcore::outcome::mixh;
use simcore::rng::Rng;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::thread::ThreadId;

const SECTOR: usize = 512;

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Io {
    Read,
    Write,
    /// part of the data is written, then an error
    ShortWrite,
    Truncate,
    Sync,
    Open,
    Delete,
    /// no more memory for the WAL index
    Shm,
    /// the disk is full from now on
    Full,
}

#[derive(Clone, Debug)]
enum What {
    Write(u64, Vec<u8>),
    Truncate(u64),
    Create,
    Delete,
}

#[derive(Clone, Debug)]
struct Pending {
    seq: u64,
    file: String,
    what: What,
}

#[derive(Clone, Debug, Default)]
struct Image {
    /// what processes see
    cur: Option<Vec<u8>>,
    /// what is certain to be there after a power loss
    durable: Option<Vec<u8>>,
    /// counts beginnings of new log content
    gen: u64,
    /// end of the last write in this generation
    pos: u64,
    /// seq of the last change
    seq: u64,
}

struct Shm {
    regions: Vec<Box<[u64]>>,
    locks: [i32; 8],
    users: usize,
}

struct Handle {
    name: String,
    lock: c_int,
    temp: bool,
    shm: bool,
    shared: u8,
    excl: u8,
    main_db: bool,
}

/// Where the log ends at some point of time
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Mark {
    pub gen: u64,
    pub pos: u64,
    pub seq: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum How {
    /// the process dies, the operating system goes on
    Kill,
    /// power loss, changes get to the disk in order
    Ordered(u64),
    /// power loss, any sectors of changes that were not synced get to the disk
    Any { seed: u64, pct: u8 },
    /// the process dies and the end of the log is lost
    Tail { seed: u64, mode: u8 },
}

pub struct State {
    files: BTreeMap<String, Image>,
    pending: Vec<Pending>,
    handles: BTreeMap<u64, Handle>,
    shm: BTreeMap<String, Shm>,
    next: u64,
    seq: u64,
    temp: u64,
    main: Option<ThreadId>,
    pub dead: bool,
    // background thread
    pub bg_alive: bool,
    bg_budget: u64,
    bg_parked: bool,
    /// steps for the background thread during calls of the main thread, in percent
    pub interleave: u64,
    rng: Rng,
    // faults
    pub io: Vec<(Io, u32)>,
    seen: BTreeMap<u8, u32>,
    pub full: bool,
    pub crash_at: Option<(u32, u8)>,
    mutations: u32,
    pub fired: Vec<&'static str>,
    pub crashed: bool,
    pub calls: u64,
    pub micros: u64,
    pub hash: u64,
    pub sector: c_int,
    pub psow: bool,
    /// log position when the database file was last written, per log generation
    base: (u64, u64),
    pub bg_steps: u64,
}

pub struct Vfs {
    m: Mutex<State>,
    c: Condvar,
}

#[repr(C)]
struct SimFile {
    base: ffi::sqlite3_file,
    id: u64,
}

fn io_kind(x: Io) -> u8 {
    x as u8
}

impl State {
    fn is_main(&self) -> bool {
        self.main == Some(std::thread::current().id())
    }
    /// does this fault happen now?
    fn fault(&mut self, k: Io, name: &'static str) -> bool {
        let n = self.seen.entry(io_kind(k)).or_default();
        let at = *n;
        *n += 1;
        if self.io.iter().any(|(x, i)| *x == k && *i == at) {
            self.fired.push(name);
            return true;
        }
        false
    }
    fn img(&mut self, name: &str) -> &mut Image {
        self.files.entry(name.to_string()).or_default()
    }
    fn change(&mut self, name: &str, what: What, temp: bool) {
        self.seq += 1;
        let seq = self.seq;
        let wal = name.ends_with("-wal");
        let img = self.img(name);
        img.seq = seq;
        apply(&mut img.cur, &what);
        match &what {
            What::Write(off, data) => {
                if *off == 0 {
                    img.gen += 1;
                    img.pos = 0;
                }
                img.pos = off + data.len() as u64;
            }
            What::Truncate(n) if *n == 0 => {
                img.gen += 1;
                img.pos = 0;
            }
            What::Truncate(n) => img.pos = img.pos.min(*n),
            What::Delete | What::Create => {
                img.gen += 1;
                img.pos = 0;
            }
        }
        if temp {
            return;
        }
        if !wal && matches!(what, What::Write(..) | What::Truncate(_)) {
            let w = format!("{}-wal", name);
            if let Some(i) = self.files.get(&w) {
                self.base = (i.gen, i.pos);
            }
        }
        mixh(&mut self.hash, seq ^ (simcore::types::hash64(3, name.as_bytes())));
        if let What::Write(o, d) = &what {
            mixh(&mut self.hash, *o ^ simcore::types::hash64(4, d));
        }
        self.pending.push(Pending { seq, file: name.to_string(), what });
    }
    /// a change is about to be made. Returns how much of it is made, when the crash is here
    fn crash_here(&mut self) -> Option<u8> {
        let n = self.mutations;
        self.mutations += 1;
        match self.crash_at {
            Some((at, tear)) if at == n => {
                self.crashed = true;
                self.fired.push("fault_crash_in_call");
                Some(tear)
            }
            _ => None,
        }
    }
    fn die(&mut self) {
        self.dead = true;
    }
    /// Everything about this file is on the disk now. Files are created and deleted in order, and
    /// before any data that is synced later, as file systems with a journal do it
    fn sync(&mut self, name: &str) {
        let pending = std::mem::take(&mut self.pending);
        for p in pending {
            if p.file == name || matches!(p.what, What::Create | What::Delete) {
                if matches!(p.what, What::Delete) {
                    self.pending.retain(|q| q.file != p.file);
                }
                apply(&mut self.files.get_mut(&p.file).unwrap().durable, &p.what);
            } else {
                self.pending.push(p);
            }
        }
        debug_assert!(self.files.get(name).map(|i| i.cur == i.durable).unwrap_or(true));
    }
    pub fn mark(&self, wal: &str) -> Mark {
        self.files
            .get(wal)
            .map(|i| Mark { gen: i.gen, pos: i.pos, seq: i.seq })
            .unwrap_or_default()
    }
    pub fn len(&self, name: &str) -> usize {
        self.files.get(name).and_then(|x| x.cur.as_ref()).map(|x| x.len()).unwrap_or(0)
    }
}

fn apply(img: &mut Option<Vec<u8>>, what: &What) {
    match what {
        What::Create => {
            if img.is_none() {
                *img = Some(vec![])
            }
        }
        What::Delete => *img = None,
        What::Truncate(n) => {
            if let Some(x) = img {
                x.truncate(*n as usize)
            }
        }
        What::Write(off, data) => {
            if let Some(x) = img {
                let off = *off as usize;
                if x.len() < off + data.len() {
                    x.resize(off + data.len(), 0);
                }
                x[off..off + data.len()].copy_from_slice(data);
            }
        }
    }
}

fn vfs() -> &'static Vfs {
    static V: std::sync::OnceLock<Vfs> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let v = Vfs {
            m: Mutex::new(State {
                files: BTreeMap::new(),
                pending: vec![],
                handles: BTreeMap::new(),
                shm: BTreeMap::new(),
                next: 1,
                seq: 0,
                temp: 0,
                main: None,
                dead: false,
                bg_alive: false,
                bg_budget: 0,
                bg_parked: false,
                interleave: 0,
                rng: Rng::new(0),
                io: vec![],
                seen: BTreeMap::new(),
                full: false,
                crash_at: None,
                mutations: 0,
                fired: vec![],
                crashed: false,
                calls: 0,
                micros: 0,
                hash: 0,
                sector: 512,
                psow: true,
                base: (0, 0),
                bg_steps: 0,
            }),
            c: Condvar::new(),
        };
        unsafe {
            let name = CStr::from_bytes_with_nul(b"sim\0").unwrap();
            let x = Box::leak(Box::new(ffi::sqlite3_vfs {
                iVersion: 2,
                szOsFile: std::mem::size_of::<SimFile>() as c_int,
                mxPathname: 512,
                pNext: std::ptr::null_mut(),
                zName: name.as_ptr(),
                pAppData: std::ptr::null_mut(),
                xOpen: Some(x_open),
                xDelete: Some(x_delete),
                xAccess: Some(x_access),
                xFullPathname: Some(x_full),
                xDlOpen: None,
                xDlError: None,
                xDlSym: None,
                xDlClose: None,
                xRandomness: Some(x_random),
                xSleep: Some(x_sleep),
                xCurrentTime: Some(x_time),
                xGetLastError: Some(x_last),
                xCurrentTimeInt64: Some(x_time64),
                xSetSystemCall: None,
                xGetSystemCall: None,
                xNextSystemCall: None,
            }));
            assert_eq!(ffi::sqlite3_vfs_register(x, 1), ffi::SQLITE_OK);
        }
        v
    })
}

fn lock() -> MutexGuard<'static, State> {
    match vfs().m.lock() {
        Ok(x) => x,
        Err(x) => x.into_inner(),
    }
}

/// Every call comes through here. The background thread waits for its turn.
fn enter() -> MutexGuard<'static, State> {
    let mut s = lock();
    if s.is_main() {
        s.calls += 1;
        if s.calls > 3_000_000 {
            s.die();
        }
        if s.bg_alive && s.interleave > 0 && !s.dead {
            let p = s.interleave;
            if s.rng.pct(p) {
                let n = 1 + s.rng.below(3);
                s = grant_in(s, n);
            }
        }
        return s;
    }
    while s.bg_budget == 0 && !s.dead {
        s.bg_parked = true;
        vfs().c.notify_all();
        s = match vfs().c.wait(s) {
            Ok(x) => x,
            Err(x) => x.into_inner(),
        };
    }
    s.bg_parked = false;
    s.bg_budget = s.bg_budget.saturating_sub(1);
    s.bg_steps += 1;
    s
}

fn grant_in(mut s: MutexGuard<'static, State>, n: u64) -> MutexGuard<'static, State> {
    if !s.bg_alive || s.dead {
        return s;
    }
    s.bg_budget = n;
    s.bg_parked = false;
    vfs().c.notify_all();
    while s.bg_alive && !s.bg_parked {
        s = match vfs().c.wait(s) {
            Ok(x) => x,
            Err(x) => x.into_inner(),
        };
    }
    s.bg_budget = 0;
    s
}

/// the background thread makes so many steps
pub fn grant(n: u64) {
    let s = lock();
    drop(grant_in(s, n));
}

/// a background thread has been started: wait until it has arrived at its first step
pub fn bg_started() {
    let mut s = lock();
    while s.bg_alive && !s.bg_parked {
        s = match vfs().c.wait(s) {
            Ok(x) => x,
            Err(x) => x.into_inner(),
        };
    }
}

/// let the background thread come to its end
pub fn bg_finish() {
    let mut s = lock();
    if s.dead {
        vfs().c.notify_all();
        while s.bg_alive {
            s = match vfs().c.wait(s) {
                Ok(x) => x,
                Err(x) => x.into_inner(),
            };
        }
        return;
    }
    while s.bg_alive {
        s = grant_in(s, 1_000_000);
    }
}

pub fn state() -> MutexGuard<'static, State> {
    lock()
}

/// an empty disk
pub fn reset(seed: u64, sector: c_int, psow: bool) {
    let mut s = lock();
    assert!(!s.bg_alive);
    s.files.clear();
    s.pending.clear();
    s.handles.clear();
    s.shm.clear();
    s.next = 1;
    s.seq = 0;
    s.temp = 0;
    s.main = Some(std::thread::current().id());
    s.dead = false;
    s.interleave = 0;
    s.rng = Rng::new(seed);
    s.calls = 0;
    s.micros = 0;
    s.hash = 0;
    s.sector = sector;
    s.psow = psow;
    s.base = (0, 0);
    s.bg_steps = 0;
    disarm_in(&mut s);
    drop(s);
    unsafe { ffi::sqlite3_randomness(0, std::ptr::null_mut()) };
}

fn disarm_in(s: &mut State) -> Vec<&'static str> {
    s.io.clear();
    s.seen.clear();
    s.full = false;
    s.crash_at = None;
    s.mutations = 0;
    s.crashed = false;
    std::mem::take(&mut s.fired)
}

pub fn arm(io: &[(Io, u32)], crash: Option<(u32, u8)>) {
    let mut s = lock();
    disarm_in(&mut s);
    s.io = io.to_vec();
    s.crash_at = crash;
    s.calls = 0;
}

/// which faults fired, and did the process die?
pub fn disarm() -> (Vec<&'static str>, bool) {
    let mut s = lock();
    let crashed = s.crashed;
    (disarm_in(&mut s), crashed)
}

/// from now on nothing works and nothing changes any more
pub fn kill() {
    let mut s = lock();
    s.die();
    vfs().c.notify_all();
}

/// What a crash leaves. For acknowledged data up to a mark, the returned function tells if it must
/// have survived.
pub fn crash(how: &How, wal: &str) -> Box<dyn Fn(Mark) -> bool> {
    let mut s = lock();
    assert!(s.dead && !s.bg_alive);
    s.handles.clear();
    s.shm.clear();
    s.dead = false;
    s.bg_parked = false;
    s.bg_budget = 0;
    let pend: Vec<u64> = s.pending.iter().filter(|p| p.file == wal).map(|p| p.seq).collect();
    let synced = move |m: Mark| pend.iter().all(|x| *x > m.seq);
    match how {
        How::Kill => Box::new(|_| true),
        How::Tail { seed, mode } => {
            let mut r = Rng::new(*seed);
            let base = s.base;
            let img = match s.files.get_mut(wal) {
                Some(x) => x,
                None => return Box::new(|_| true),
            };
            let (gen, pos) = (img.gen, img.pos);
            let low = if base.0 == gen { base.1.min(pos) } else { 0 };
            let mut cut = low + if pos > low { r.below(pos - low + 1) } else { 0 };
            if r.pct(30) {
                // between two frames
                let f = 4096 + 24;
                if cut > 32 {
                    cut = (32 + (cut - 32) / f * f).max(low);
                }
            }
            if let Some(cur) = &mut img.cur {
                let end = cur.len();
                let c = (cut as usize).min(end);
                match mode % 4 {
                    0 => cur.truncate(c),
                    1 => cur[c..].fill(0),
                    2 => {
                        for x in cur[c..].iter_mut() {
                            *x = r.u64() as u8;
                        }
                    }
                    // a torn end: some sectors of the lost part are there
                    _ => {
                        let mut a = c;
                        let keep = r.below(100);
                        let mut first = true;
                        while a < end {
                            let b = ((a / SECTOR + 1) * SECTOR).min(end);
                            if first || !r.pct(keep) {
                                cur[a..b].fill(0);
                            }
                            first = false;
                            a = b;
                        }
                    }
                }
            }
            // this is what is on the disk now
            let cur = img.cur.clone();
            img.durable = cur;
            img.pos = cut.min(img.cur.as_ref().map(|x| x.len() as u64).unwrap_or(0));
            s.pending.retain(|p| p.file != wal);
            Box::new(move |m| m.gen < gen || m.pos <= cut)
        }
        How::Ordered(seed) => {
            let mut r = Rng::new(*seed);
            let pending = std::mem::take(&mut s.pending);
            let k = r.below(pending.len() as u64 + 1) as usize;
            let last = if k == 0 { 0 } else { pending[k - 1].seq };
            for (i, p) in pending.iter().enumerate() {
                let img = s.files.get_mut(&p.file).unwrap();
                if i < k {
                    apply(&mut img.durable, &p.what);
                } else if i == k {
                    if let What::Write(o, d) = &p.what {
                        let n = (r.below(d.len() as u64 + 1) as usize / SECTOR) * SECTOR;
                        if n > 0 {
                            apply(&mut img.durable, &What::Write(*o, d[..n].to_vec()));
                        }
                    }
                }
            }
            settle(&mut s, wal);
            Box::new(move |m| synced(m) || m.seq <= last)
        }
        How::Any { seed, pct } => {
            let mut r = Rng::new(*seed);
            let pending = std::mem::take(&mut s.pending);
            let pct = *pct as u64;
            let mut ordered = true;
            for p in pending {
                let img = s.files.get_mut(&p.file).unwrap();
                match &p.what {
                    What::Write(o, d) => {
                        let mut a = 0usize;
                        while a < d.len() {
                            let abs = *o as usize + a;
                            let b = (a + SECTOR - abs % SECTOR).min(d.len());
                            if r.pct(pct) {
                                apply(&mut img.durable, &What::Write(abs as u64, d[a..b].to_vec()));
                            }
                            a = b;
                        }
                    }
                    What::Truncate(_) => {
                        if r.pct(pct) {
                            apply(&mut img.durable, &p.what);
                        }
                    }
                    What::Create | What::Delete => {
                        ordered &= r.pct(pct);
                        if ordered {
                            apply(&mut img.durable, &p.what);
                        }
                    }
                }
            }
            settle(&mut s, wal);
            Box::new(synced)
        }
    }
}

/// the durable image is all there is
fn settle(s: &mut State, wal: &str) {
    s.pending.clear();
    for img in s.files.values_mut() {
        if img.cur != img.durable {
            img.cur = img.durable.clone();
            img.pos = img.cur.as_ref().map(|x| x.len() as u64).unwrap_or(0);
        }
    }
    // the log may be an old one, from which the database already has everything. Its end must not
    // get lost before it is reset
    let gen = s.files.get(wal).map(|x| x.gen).unwrap_or(0);
    s.base = (gen, u64::MAX);
}

// ---------------------------------------------------------------------------------------------

unsafe fn id(f: *mut ffi::sqlite3_file) -> u64 {
    (*(f as *mut SimFile)).id
}

struct Sync1<T>(T);
unsafe impl<T> Sync for Sync1<T> {}

static METHODS: Sync1<ffi::sqlite3_io_methods> = Sync1(ffi::sqlite3_io_methods {
    iVersion: 2,
    xClose: Some(f_close),
    xRead: Some(f_read),
    xWrite: Some(f_write),
    xTruncate: Some(f_truncate),
    xSync: Some(f_sync),
    xFileSize: Some(f_size),
    xLock: Some(f_lock),
    xUnlock: Some(f_unlock),
    xCheckReservedLock: Some(f_reserved),
    xFileControl: Some(f_control),
    xSectorSize: Some(f_sector),
    xDeviceCharacteristics: Some(f_chars),
    xShmMap: Some(f_shm_map),
    xShmLock: Some(f_shm_lock),
    xShmBarrier: Some(f_shm_barrier),
    xShmUnmap: Some(f_shm_unmap),
    xFetch: None,
    xUnfetch: None,
});

fn text(z: *const c_char) -> String {
    unsafe { CStr::from_ptr(z) }.to_string_lossy().into_owned()
}

unsafe extern "C" fn x_open(
    _: *mut ffi::sqlite3_vfs,
    z: *const c_char,
    f: *mut ffi::sqlite3_file,
    flags: c_int,
    out: *mut c_int,
) -> c_int {
    (*f).pMethods = std::ptr::null();
    let mut s = enter();
    if s.dead {
        return ffi::SQLITE_CANTOPEN;
    }
    let temp = z.is_null();
    let name = if temp {
        s.temp += 1;
        format!("temp-{}", s.temp)
    } else {
        text(z)
    };
    if !temp && s.fault(Io::Open, "fault_io_open") {
        return ffi::SQLITE_CANTOPEN;
    }
    let exists = s.files.get(&name).map(|x| x.cur.is_some()).unwrap_or(false);
    if exists && flags & ffi::SQLITE_OPEN_EXCLUSIVE != 0 {
        return ffi::SQLITE_CANTOPEN;
    }
    if !exists {
        if flags & ffi::SQLITE_OPEN_CREATE == 0 {
            return ffi::SQLITE_CANTOPEN;
        }
        if !temp {
            if s.full {
                s.fired.push("fault_full");
                return ffi::SQLITE_CANTOPEN;
            }
            if let Some(tear) = s.crash_here() {
                if tear > 100 {
                    s.change(&name, What::Create, temp);
                }
                s.die();
                return ffi::SQLITE_CANTOPEN;
            }
        }
        s.change(&name, What::Create, temp);
    }
    let h = s.next;
    s.next += 1;
    let main_db = flags & ffi::SQLITE_OPEN_MAIN_DB != 0;
    s.handles.insert(
        h,
        Handle {
            name,
            lock: 0,
            temp: temp || flags & ffi::SQLITE_OPEN_DELETEONCLOSE != 0,
            shm: false,
            shared: 0,
            excl: 0,
            main_db,
        },
    );
    (*(f as *mut SimFile)).id = h;
    (*f).pMethods = &METHODS.0;
    if !out.is_null() {
        *out = flags;
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_delete(_: *mut ffi::sqlite3_vfs, z: *const c_char, dir: c_int) -> c_int {
    let mut s = enter();
    let name = text(z);
    if s.dead || s.fault(Io::Delete, "fault_io_delete") {
        return ffi::SQLITE_IOERR_DELETE;
    }
    if s.files.get(&name).map(|x| x.cur.is_none()).unwrap_or(true) {
        return ffi::SQLITE_IOERR_DELETE_NOENT;
    }
    if let Some(tear) = s.crash_here() {
        if tear > 100 {
            s.change(&name, What::Delete, false);
        }
        s.die();
        return ffi::SQLITE_IOERR_DELETE;
    }
    s.change(&name, What::Delete, false);
    if dir != 0 {
        s.sync(&name);
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_access(_: *mut ffi::sqlite3_vfs, z: *const c_char, _: c_int, out: *mut c_int) -> c_int {
    let s = enter();
    if s.dead {
        return ffi::SQLITE_IOERR_ACCESS;
    }
    // an empty file does not count, as in the implementation for unix
    let name = text(z);
    *out = s.files.get(&name).and_then(|x| x.cur.as_ref()).map(|x| !x.is_empty()).unwrap_or(false) as c_int;
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_full(_: *mut ffi::sqlite3_vfs, z: *const c_char, n: c_int, out: *mut c_char) -> c_int {
    let b = CStr::from_ptr(z).to_bytes_with_nul();
    if b.len() > n as usize {
        return ffi::SQLITE_CANTOPEN;
    }
    std::ptr::copy_nonoverlapping(b.as_ptr() as *const c_char, out, b.len());
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_random(_: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    let mut s = lock();
    for i in 0..n {
        *out.add(i as usize) = s.rng.u64() as c_char;
    }
    n
}

unsafe extern "C" fn x_sleep(_: *mut ffi::sqlite3_vfs, us: c_int) -> c_int {
    let mut s = lock();
    s.micros += us as u64;
    if s.is_main() {
        let n = 1 + s.rng.below(64);
        drop(grant_in(s, n));
    }
    us
}

const EPOCH_MS: i64 = 212_500_000_000_000;

unsafe extern "C" fn x_time(_: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int {
    let s = lock();
    *out = (EPOCH_MS + s.micros as i64 / 1000) as f64 / 86_400_000.0;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_time64(_: *mut ffi::sqlite3_vfs, out: *mut i64) -> c_int {
    let s = lock();
    *out = EPOCH_MS + s.micros as i64 / 1000;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_last(_: *mut ffi::sqlite3_vfs, _: c_int, _: *mut c_char) -> c_int {
    0
}

unsafe extern "C" fn f_close(f: *mut ffi::sqlite3_file) -> c_int {
    let mut s = enter();
    let h = id(f);
    let mut main_db = false;
    if let Some(x) = s.handles.remove(&h) {
        main_db = x.main_db;
        if x.shm {
            release_shm(&mut s, &x);
        }
        if x.temp {
            s.files.remove(&x.name);
        }
    }
    (*f).pMethods = std::ptr::null();
    // the connection is the last thing that the background thread has
    if main_db && !s.is_main() {
        s.bg_alive = false;
        s.bg_parked = false;
        s.bg_budget = 0;
        vfs().c.notify_all();
    }
    ffi::SQLITE_OK
}

fn release_shm(s: &mut State, x: &Handle) {
    if let Some(m) = s.shm.get_mut(&x.name) {
        for i in 0..8 {
            if x.excl & (1 << i) != 0 {
                m.locks[i] = 0;
            }
            if x.shared & (1 << i) != 0 {
                m.locks[i] -= 1;
            }
        }
        m.users -= 1;
        if m.users == 0 {
            s.shm.remove(&x.name);
        }
    }
}

unsafe extern "C" fn f_read(f: *mut ffi::sqlite3_file, out: *mut c_void, n: c_int, off: i64) -> c_int {
    let mut s = enter();
    if s.dead {
        return ffi::SQLITE_IOERR_READ;
    }
    let name = s.handles[&id(f)].name.clone();
    if !s.handles[&id(f)].temp && s.fault(Io::Read, "fault_io_read") {
        return ffi::SQLITE_IOERR_READ;
    }
    let out = std::slice::from_raw_parts_mut(out as *mut u8, n as usize);
    let empty = vec![];
    let data = s.files.get(&name).and_then(|x| x.cur.as_ref()).unwrap_or(&empty);
    let off = off as usize;
    let have = data.len().saturating_sub(off).min(out.len());
    if have > 0 {
        out[..have].copy_from_slice(&data[off..off + have]);
    }
    if have < out.len() {
        out[have..].fill(0);
        return ffi::SQLITE_IOERR_SHORT_READ;
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn f_write(f: *mut ffi::sqlite3_file, data: *const c_void, n: c_int, off: i64) -> c_int {
    let mut s = enter();
    if s.dead {
        return ffi::SQLITE_IOERR_WRITE;
    }
    let (name, temp) = {
        let h = &s.handles[&id(f)];
        (h.name.clone(), h.temp)
    };
    let data = std::slice::from_raw_parts(data as *const u8, n as usize).to_vec();
    let off = off as u64;
    if temp {
        s.change(&name, What::Write(off, data), true);
        return ffi::SQLITE_OK;
    }
    if s.full {
        // what fits in the file can still be written
        let len = s.len(&name) as u64;
        if off + data.len() as u64 > len {
            s.fired.push("fault_full");
            return ffi::SQLITE_FULL;
        }
    }
    if s.fault(Io::Full, "fault_full") {
        s.full = true;
        return ffi::SQLITE_FULL;
    }
    if s.fault(Io::Write, "fault_io_write") {
        return ffi::SQLITE_IOERR_WRITE;
    }
    if s.fault(Io::ShortWrite, "fault_short_write") {
        let k = s.rng.below(data.len() as u64) as usize;
        if k > 0 {
            s.change(&name, What::Write(off, data[..k].to_vec()), false);
        }
        return ffi::SQLITE_IOERR_WRITE;
    }
    if let Some(tear) = s.crash_here() {
        let k = data.len() * tear.min(100) as usize / 100;
        if k > 0 {
            s.change(&name, What::Write(off, data[..k].to_vec()), false);
        }
        s.die();
        return ffi::SQLITE_IOERR_WRITE;
    }
    s.change(&name, What::Write(off, data), false);
    ffi::SQLITE_OK
}

unsafe extern "C" fn f_truncate(f: *mut ffi::sqlite3_file, n: i64) -> c_int {
    let mut s = enter();
    if s.dead {
        return ffi::SQLITE_IOERR_TRUNCATE;
    }
    let (name, temp) = {
        let h = &s.handles[&id(f)];
        (h.name.clone(), h.temp)
    };
    if !temp {
        if s.fault(Io::Truncate, "fault_io_truncate") {
            return ffi::SQLITE_IOERR_TRUNCATE;
        }
        if let Some(tear) = s.crash_here() {
            if tear > 100 {
                s.change(&name, What::Truncate(n as u64), temp);
            }
            s.die();
            return ffi::SQLITE_IOERR_TRUNCATE;
        }
    }
    s.change(&name, What::Truncate(n as u64), temp);
    ffi::SQLITE_OK
}

unsafe extern "C" fn f_sync(f: *mut ffi::sqlite3_file, _: c_int) -> c_int {
    let mut s = enter();
    if s.dead {
        return ffi::SQLITE_IOERR_FSYNC;
    }
    let (name, temp) = {
        let h = &s.handles[&id(f)];
        (h.name.clone(), h.temp)
    };
    if temp {
        return ffi::SQLITE_OK;
    }
    if s.fault(Io::Sync, "fault_io_sync") {
        return ffi::SQLITE_IOERR_FSYNC;
    }
    if let Some(tear) = s.crash_here() {
        if tear > 100 {
            s.sync(&name);
        }
        s.die();
        return ffi::SQLITE_IOERR_FSYNC;
    }
    s.sync(&name);
    ffi::SQLITE_OK
}

unsafe extern "C" fn f_size(f: *mut ffi::sqlite3_file, out: *mut i64) -> c_int {
    let s = enter();
    if s.dead {
        return ffi::SQLITE_IOERR_FSTAT;
    }
    let name = &s.handles[&id(f)].name;
    *out = s.len(name) as i64;
    ffi::SQLITE_OK
}

unsafe extern "C" fn f_lock(f: *mut ffi::sqlite3_file, want: c_int) -> c_int {
    let mut s = enter();
    if s.dead {
        return ffi::SQLITE_IOERR_LOCK;
    }
    let me = id(f);
    let (name, have) = {
        let h = &s.handles[&me];
        (h.name.clone(), h.lock)
    };
    if have >= want {
        return ffi::SQLITE_OK;
    }
    let other = s
        .handles
        .iter()
        .filter(|(i, h)| **i != me && h.name == name)
        .map(|(_, h)| h.lock)
        .max()
        .unwrap_or(0);
    let (now, rc) = match want {
        ffi::SQLITE_LOCK_SHARED if other >= ffi::SQLITE_LOCK_PENDING => (have, ffi::SQLITE_BUSY),
        ffi::SQLITE_LOCK_SHARED => (want, ffi::SQLITE_OK),
        ffi::SQLITE_LOCK_RESERVED if other >= ffi::SQLITE_LOCK_RESERVED => (have, ffi::SQLITE_BUSY),
        ffi::SQLITE_LOCK_RESERVED => (want, ffi::SQLITE_OK),
        _ if other >= ffi::SQLITE_LOCK_PENDING => (have, ffi::SQLITE_BUSY),
        _ if other >= ffi::SQLITE_LOCK_SHARED => (have.max(ffi::SQLITE_LOCK_PENDING), ffi::SQLITE_BUSY),
        _ => (ffi::SQLITE_LOCK_EXCLUSIVE, ffi::SQLITE_OK),
    };
    s.handles.get_mut(&me).unwrap().lock = now;
    rc
}

unsafe extern "C" fn f_unlock(f: *mut ffi::sqlite3_file, want: c_int) -> c_int {
    let mut s = enter();
    if s.dead {
        return ffi::SQLITE_OK;
    }
    let h = s.handles.get_mut(&id(f)).unwrap();
    h.lock = h.lock.min(want);
    ffi::SQLITE_OK
}

unsafe extern "C" fn f_reserved(f: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    let s = enter();
    if s.dead {
        return ffi::SQLITE_IOERR_CHECKRESERVEDLOCK;
    }
    let name = &s.handles[&id(f)].name;
    *out = s.handles.values().any(|h| h.name == *name && h.lock >= ffi::SQLITE_LOCK_RESERVED) as c_int;
    ffi::SQLITE_OK
}

unsafe extern "C" fn f_control(_: *mut ffi::sqlite3_file, _: c_int, _: *mut c_void) -> c_int {
    ffi::SQLITE_NOTFOUND
}

unsafe extern "C" fn f_sector(_: *mut ffi::sqlite3_file) -> c_int {
    lock().sector
}

unsafe extern "C" fn f_chars(_: *mut ffi::sqlite3_file) -> c_int {
    if lock().psow {
        ffi::SQLITE_IOCAP_POWERSAFE_OVERWRITE
    } else {
        0
    }
}

unsafe extern "C" fn f_shm_map(
    f: *mut ffi::sqlite3_file,
    page: c_int,
    size: c_int,
    extend: c_int,
    out: *mut *mut c_void,
) -> c_int {
    let mut s = enter();
    *out = std::ptr::null_mut();
    if s.dead || s.fault(Io::Shm, "fault_shm") {
        return ffi::SQLITE_IOERR_SHMMAP;
    }
    let me = id(f);
    let name = s.handles[&me].name.clone();
    if !s.handles[&me].shm {
        s.handles.get_mut(&me).unwrap().shm = true;
        s.shm
            .entry(name.clone())
            .or_insert_with(|| Shm { regions: vec![], locks: [0; 8], users: 0 })
            .users += 1;
    }
    let m = s.shm.get_mut(&name).unwrap();
    if m.regions.len() <= page as usize {
        if extend == 0 {
            return ffi::SQLITE_OK;
        }
        while m.regions.len() <= page as usize {
            m.regions.push(vec![0u64; size as usize / 8].into_boxed_slice());
        }
    }
    *out = m.regions[page as usize].as_mut_ptr() as *mut c_void;
    ffi::SQLITE_OK
}

unsafe extern "C" fn f_shm_lock(f: *mut ffi::sqlite3_file, from: c_int, n: c_int, flags: c_int) -> c_int {
    let mut s = enter();
    if s.dead {
        return ffi::SQLITE_IOERR_SHMLOCK;
    }
    let me = id(f);
    let (name, shared, excl) = {
        let h = &s.handles[&me];
        (h.name.clone(), h.shared, h.excl)
    };
    let mask = (((1u32 << n) - 1) << from) as u8;
    let m = match s.shm.get_mut(&name) {
        Some(x) => x,
        None => return ffi::SQLITE_IOERR_SHMLOCK,
    };
    let range = from as usize..(from + n) as usize;
    let (shared, excl) = if flags & ffi::SQLITE_SHM_UNLOCK != 0 {
        for i in range {
            if excl & (1 << i) != 0 {
                m.locks[i] = 0;
            } else if shared & (1 << i) != 0 {
                m.locks[i] -= 1;
            }
        }
        (shared & !mask, excl & !mask)
    } else if flags & ffi::SQLITE_SHM_SHARED != 0 {
        if shared & mask != 0 {
            return ffi::SQLITE_OK;
        }
        if m.locks[range.clone()].iter().any(|x| *x < 0) {
            return ffi::SQLITE_BUSY;
        }
        for i in range {
            m.locks[i] += 1;
        }
        (shared | mask, excl)
    } else {
        for i in range.clone() {
            let mine = (shared >> i & 1) as i32;
            if m.locks[i] < 0 && excl & (1 << i) == 0 || m.locks[i] > mine {
                return ffi::SQLITE_BUSY;
            }
        }
        for i in range {
            m.locks[i] = -1;
        }
        (shared & !mask, excl | mask)
    };
    let h = s.handles.get_mut(&me).unwrap();
    h.shared = shared;
    h.excl = excl;
    ffi::SQLITE_OK
}

unsafe extern "C" fn f_shm_barrier(_: *mut ffi::sqlite3_file) {
    std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
}

unsafe extern "C" fn f_shm_unmap(f: *mut ffi::sqlite3_file, _: c_int) -> c_int {
    let mut s = enter();
    let me = id(f);
    if let Some(h) = s.handles.get_mut(&me) {
        if h.shm {
            h.shm = false;
            let x = Handle {
                name: h.name.clone(),
                lock: 0,
                temp: false,
                shm: false,
                shared: h.shared,
                excl: h.excl,
                main_db: false,
            };
            h.shared = 0;
            h.excl = 0;
            release_shm(&mut s, &x);
        }
    }
    ffi::SQLITE_OK
}
