//! How operations and runs end.
use crate::store::{RUNAWAY, SIM_PANIC};
use std::{
    cell::RefCell,
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
};

/// Why a run stopped early
#[derive(Debug, Clone)]
pub enum Stop {
    /// the property under test is violated
    Violation { class: String, msg: String },
    /// something is wrong, but it is not about the property under test. No verdict from this run.
    Foreign(String),
    /// regular early end
    End,
}
pub type R<T = ()> = Result<T, Stop>;

#[derive(Debug)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}

impl<T> Out<T> {
    pub fn describe(&self) -> String {
        match self {
            Out::Ok(_) => "ok".into(),
            Out::Err(e) => format!("error: {}", e),
            Out::Panic(e) => format!("panic: {}", e),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
}

thread_local!(static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));
thread_local!(static GUARDED: RefCell<u32> = RefCell::new(0));

pub fn last_panic() -> String {
    LAST_PANIC.with(|x| x.borrow().clone())
}

/// record panics instead of printing them
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("{} at {}", msg.chars().take(200).collect::<String>(), loc);
        if std::env::var_os("SIM_SHOW_PANICS").is_some() {
            eprintln!("panic: {}", text);
        }
        let _ = LAST_PANIC.try_with(|x| *x.borrow_mut() = text);
    }));
}

/// call into the code under test
pub fn guard<T>(f: impl FnOnce() -> anyhow::Result<T>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => Out::Ok(x),
        Ok(Err(e)) => Out::Err(format!("{:#}", e)),
        Err(_) => Out::Panic(last_panic()),
    }
}

pub fn injected_panic(msg: &str) -> bool {
    msg.starts_with(SIM_PANIC)
}
pub fn runaway(msg: &str) -> bool {
    msg.starts_with(RUNAWAY)
}

pub type Stats = BTreeMap<&'static str, u64>;

/// Result of a complete run
#[derive(Debug, Clone, Default)]
pub struct RunResult {
    pub violation: Option<(String, String)>,
    pub foreign: Option<String>,
    /// counters: ops, faults, reads, ...
    pub stats: Stats,
    /// hash of everything observable in the run, for determinism checks
    pub hash: u64,
    /// hashes of states seen
    pub states: Vec<u64>,
    /// the run did something interesting for the property
    pub nontrivial: bool,
    /// known findings observed
    pub known: Vec<(String, String)>,
    /// simulated time in steps (or milliseconds where there is a clock)
    pub sim_time: u64,
    /// what happened, only filled in when asked for
    pub trace: Vec<String>,
    /// schedule taken, for minimization
    pub switches: Vec<(u32, u8)>,
}

pub fn mixh(h: &mut u64, x: u64) {
    *h = (*h ^ x).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23) ^ (*h >> 31);
}

static PHASE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// What is going on, and which properties are at stake. Used when a run never ends or takes the
/// whole process down. Space separated, "*" for all properties.
pub fn phase(name: &str, props: &[&str]) {
    let text = format!("{} {}", name, props.join(" "));
    if std::env::var_os("SIM_PHASE").is_some() {
        println!("P {}", text);
    }
    if let Ok(mut p) = PHASE.lock() {
        *p = text;
    }
}
pub fn phase_reset() {
    if let Ok(mut p) = PHASE.lock() {
        p.clear();
    }
}
pub fn phase_get() -> String {
    PHASE.lock().map(|x| x.clone()).unwrap_or_default()
}
