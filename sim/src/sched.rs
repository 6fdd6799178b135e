//! Baton passing scheduler: real OS threads, of which exactly one runs at any time. Which one is
//! decided at every scheduling point (lock, store call, explicit yield) by the plan.
use crate::rng::Rng;
use futures::future::BoxFuture;
use serde::{Deserialize, Serialize};
use std::{
    cell::RefCell,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Condvar, Mutex},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SchedSpec {
    /// decide by random numbers. `pct` is the probability to switch at a scheduling point
    Seed { seed: u64, pct: u8 },
    /// PCT: random priorities with a few priority changes at random steps
    Prio { seed: u64, changes: Vec<u32> },
    /// explicit switches: at step, run that thread. Otherwise stay on the current thread
    List(Vec<(u32, u8)>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    /// waits for somebody to release a lock
    Blocked,
    Done,
}

struct State {
    current: usize,
    status: Vec<Status>,
    spec: SchedSpec,
    rng: Rng,
    prio: Vec<u64>,
    step: u32,
    switches: Vec<(u32, u8)>,
    hash: u64,
    deadlock: bool,
    list_pos: usize,
    contended: u64,
}

pub struct Sched {
    state: Mutex<State>,
    cvs: Vec<Condvar>,
}

thread_local!(static CUR: RefCell<Option<(Arc<Sched>, usize)>> = RefCell::new(None));

/// scheduling point. No effect outside of a scheduled thread
pub fn yield_now() {
    let cur = CUR.try_with(|x| x.borrow().clone()).ok().flatten();
    if let Some((sched, id)) = cur {
        sched.switch(id, Status::Ready);
    }
}

/// number of the current thread, for use in logs. Logical time: number of scheduling points so far
pub fn now() -> u64 {
    let cur = CUR.try_with(|x| x.borrow().clone()).ok().flatten();
    match cur {
        Some((sched, _)) => sched.state.lock().unwrap().step as u64,
        None => 0,
    }
}

struct ThreadHooks(Arc<Sched>, usize);
impl banyan::sim::Hooks for ThreadHooks {
    fn before_lock(&self) {
        self.0.switch(self.1, Status::Ready)
    }
    fn lock_contended(&self) {
        self.0.switch(self.1, Status::Blocked)
    }
    fn spawn(&self, task: BoxFuture<'static, ()>) -> Option<BoxFuture<'static, ()>> {
        Some(task)
    }
}

pub struct SchedResult {
    pub steps: u32,
    pub switches: Vec<(u32, u8)>,
    pub hash: u64,
    pub deadlock: bool,
    pub contended: u64,
    /// message per thread that panicked
    pub panics: Vec<(usize, String)>,
}

impl Sched {
    fn pick(s: &mut State, id: usize, status: Status) -> usize {
        let n = s.status.len();
        let ready: Vec<usize> = (0..n)
            .filter(|i| s.status[*i] == Status::Ready && (*i != id || status == Status::Ready))
            .collect();
        if ready.is_empty() {
            return id;
        }
        let step = s.step;
        match &s.spec {
            SchedSpec::Seed { pct, .. } => {
                let pct = *pct as u64;
                if status == Status::Ready && !s.rng.pct(pct) {
                    id
                } else {
                    ready[s.rng.idx(ready.len())]
                }
            }
            SchedSpec::Prio { changes, .. } => {
                if changes.contains(&step) {
                    // current drops to the lowest priority
                    let min = *s.prio.iter().min().unwrap();
                    s.prio[id] = min.saturating_sub(1);
                }
                *ready.iter().max_by_key(|i| (s.prio[**i], **i)).unwrap()
            }
            SchedSpec::List(list) => {
                while s.list_pos < list.len() && list[s.list_pos].0 < step {
                    s.list_pos += 1;
                }
                if s.list_pos < list.len() && list[s.list_pos].0 == step {
                    let to = list[s.list_pos].1 as usize;
                    if ready.contains(&to) {
                        return to;
                    }
                }
                if status == Status::Ready {
                    id
                } else {
                    ready[0]
                }
            }
        }
    }

    fn switch(&self, id: usize, status: Status) {
        let mut s = self.state.lock().unwrap();
        if s.deadlock {
            drop(s);
            if !std::thread::panicking() {
                panic!("SIM-DEADLOCK");
            }
            return;
        }
        s.step += 1;
        if status == Status::Blocked {
            s.contended += 1;
        }
        s.status[id] = status;
        // progress by anyone may unblock the others
        if status != Status::Blocked {
            for i in 0..s.status.len() {
                if s.status[i] == Status::Blocked && i != id {
                    s.status[i] = Status::Ready;
                }
            }
        }
        let to = Self::pick(&mut s, id, status);
        if to == id {
            if status == Status::Done {
                return;
            }
            if status == Status::Blocked {
                // nobody else can run, and we can't either
                s.deadlock = true;
                for cv in &self.cvs {
                    cv.notify_one();
                }
                drop(s);
                panic!("SIM-DEADLOCK");
            }
            return;
        }
        let step = s.step;
        s.switches.push((step, to as u8));
        s.hash = (s.hash ^ ((step as u64) << 8) ^ to as u64).wrapping_mul(0x0000_0100_0000_01B3);
        s.hash ^= s.hash >> 29;
        s.current = to;
        self.cvs[to].notify_one();
        if status == Status::Done {
            return;
        }
        while s.current != id && !s.deadlock {
            s = self.cvs[id].wait(s).unwrap();
        }
        s.status[id] = Status::Ready;
        if s.deadlock {
            drop(s);
            if !std::thread::panicking() {
                panic!("SIM-DEADLOCK");
            }
        }
    }

    /// run all the tasks to the end
    pub fn run(spec: &SchedSpec, tasks: Vec<Box<dyn FnOnce() + Send>>) -> SchedResult {
        let n = tasks.len();
        let seed = match spec {
            SchedSpec::Seed { seed, .. } | SchedSpec::Prio { seed, .. } => *seed,
            SchedSpec::List(_) => 0,
        };
        let mut rng = Rng::new(seed);
        let prio = (0..n).map(|_| (1 << 20) + rng.below(1 << 20)).collect();
        let sched = Arc::new(Sched {
            state: Mutex::new(State {
                current: usize::MAX,
                status: vec![Status::Ready; n],
                spec: spec.clone(),
                rng,
                prio,
                step: 0,
                switches: Vec::new(),
                hash: 0,
                deadlock: false,
                list_pos: 0,
                contended: 0,
            }),
            cvs: (0..n).map(|_| Condvar::new()).collect(),
        });
        let panics = Arc::new(Mutex::new(Vec::new()));
        let handles: Vec<_> = tasks
            .into_iter()
            .enumerate()
            .map(|(id, task)| {
                let sched = sched.clone();
                let panics = panics.clone();
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn(move || {
                        {
                            let mut s = sched.state.lock().unwrap();
                            while s.current != id {
                                s = sched.cvs[id].wait(s).unwrap();
                            }
                        }
                        CUR.with(|x| *x.borrow_mut() = Some((sched.clone(), id)));
                        banyan::sim::install(Some(Arc::new(ThreadHooks(sched.clone(), id))));
                        let res = catch_unwind(AssertUnwindSafe(task));
                        banyan::sim::install(None);
                        CUR.with(|x| *x.borrow_mut() = None);
                        if res.is_err() {
                            panics
                                .lock()
                                .unwrap()
                                .push((id, crate::outcome::last_panic()));
                        }
                        let dl = sched.state.lock().unwrap().deadlock;
                        if dl {
                            // everybody has to unwind, one after the other does not matter here
                            let mut s = sched.state.lock().unwrap();
                            s.status[id] = Status::Done;
                            s.current = (0..n).find(|i| s.status[*i] != Status::Done).unwrap_or(0);
                            for cv in &sched.cvs {
                                cv.notify_one();
                            }
                        } else {
                            sched.switch(id, Status::Done);
                        }
                    })
                    .expect("spawn")
            })
            .collect();
        {
            let mut s = sched.state.lock().unwrap();
            let first = Self::pick(&mut s, 0, Status::Ready);
            s.current = first;
            sched.cvs[first].notify_one();
        }
        for h in handles {
            let _ = h.join();
        }
        let mut panics = std::mem::take(&mut *panics.lock().unwrap());
        panics.sort();
        let s = sched.state.lock().unwrap();
        SchedResult {
            steps: s.step,
            switches: s.switches.clone(),
            hash: s.hash,
            deadlock: s.deadlock,
            contended: s.contended,
            panics,
        }
    }
}
