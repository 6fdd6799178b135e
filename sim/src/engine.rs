//! Seeded search: many simulated runs in worker processes, minimisation, replay files, evidence.
use crate::outcome::{install_panic_hook, last_panic, RunResult};
use crate::rng::mix;
use crate::types::hash64;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, BTreeSet},
    io::{BufRead, BufReader, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    sync::{
        atomic::{AtomicU64, Ordering},
        mpsc, Arc, Mutex,
    },
    time::{Duration, Instant},
};

/// What the evidence says about a property
#[derive(Clone, Debug, Default)]
pub struct About {
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    /// what is a distinct state
    pub measure: &'static str,
    pub assumptions: &'static [&'static str],
    /// do at least that many runs in the quick tier
    pub min_runs: u64,
}

pub trait Scenario: Sync + Send + 'static {
    type Plan: Clone + Serialize + DeserializeOwned + Send;
    fn props(&self) -> Vec<&'static str>;
    fn generate(&self, prop: &str, seed: u64) -> Self::Plan;
    fn run(&self, prop: &str, plan: &Self::Plan, trace: bool) -> RunResult;
    /// simpler variants, given the result of running this one
    fn shrink(&self, plan: &Self::Plan, res: &RunResult) -> Vec<Self::Plan>;
    fn about(&self, prop: &str) -> About;
}

#[derive(Serialize, Deserialize)]
struct Replay<P> {
    property: String,
    class: String,
    message: String,
    /// VERIF_SEED and number of the run
    verif_seed: u64,
    index: u64,
    run_seed: u64,
    hash: u64,
    plan: P,
    #[serde(default)]
    trace: Vec<String>,
    #[serde(default)]
    original_plan: Option<Value>,
}

const STACK: usize = 512 << 20;
const HANG: Duration = Duration::from_secs(60);

pub fn prop_seed(verif_seed: u64, prop: &str, index: u64) -> u64 {
    mix(mix(verif_seed, hash64(11, prop.as_bytes())), index)
}

fn exec<S: Scenario>(s: &S, prop: &str, plan: &S::Plan, trace: bool) -> RunResult {
    crate::outcome::phase_reset();
    match catch_unwind(AssertUnwindSafe(|| s.run(prop, plan, trace))) {
        Ok(r) => r,
        Err(_) => RunResult {
            foreign: Some(format!("panic outside of a guarded call: {}", last_panic())),
            ..Default::default()
        },
    }
}

fn plan_hash<P: Serialize>(p: &P) -> u64 {
    hash64(3, &serde_json::to_vec(p).unwrap_or_default())
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|x| x == name)
        .and_then(|i| args.get(i + 1))
        .cloned()
}
fn arg_u64(args: &[String], name: &str, default: u64) -> u64 {
    arg(args, name)
        .and_then(|x| x.parse().ok())
        .unwrap_or(default)
}

#[derive(Serialize, Deserialize, Default, Debug)]
struct Report {
    runs: u64,
    nontrivial: u64,
    foreign: BTreeMap<String, u64>,
    stats: BTreeMap<String, u64>,
    known: BTreeMap<String, (u64, String)>,
    sim_time: u64,
    repeats: u64,
    nondeterministic: Vec<u64>,
    samples: Vec<Value>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Viol {
    index: u64,
    class: String,
    msg: String,
    hash: u64,
}

fn known_findings(prop: &str) -> Vec<(String, String)> {
    let path = verif_dir().join("known_findings.txt");
    let mut res = vec![];
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        // known: property=C00 key=xyz description
        if let Some(rest) = line.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let (p, k, d) = (it.next(), it.next(), it.next());
            if p == Some(&format!("property={}", prop)[..]) {
                if let Some(k) = k.and_then(|k| k.strip_prefix("key=")) {
                    res.push((k.to_string(), d.unwrap_or("").to_string()));
                }
            }
        }
    }
    res
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

/// a violation if there is one, counting known findings that are not listed as violations
fn verdict(r: &RunResult, known: &[(String, String)]) -> Option<(String, String)> {
    if let Some(v) = &r.violation {
        return Some(v.clone());
    }
    r.known
        .iter()
        .find(|(k, _)| !known.iter().any(|(l, _)| l == k))
        .cloned()
}

/// a line like "element 17 is .." without the numbers
fn normalize(s: &str) -> String {
    let mut res = String::new();
    for c in s.chars().take(120) {
        if c.is_ascii_digit() {
            if !res.ends_with('#') {
                res.push('#')
            }
        } else {
            res.push(c)
        }
    }
    res
}

fn worker<S: Scenario>(s: &S, prop: &str, args: &[String]) {
    let start = arg_u64(args, "--start", 0);
    let stride = arg_u64(args, "--stride", 1);
    let end = arg_u64(args, "--end", u64::MAX);
    let min_runs = arg_u64(args, "--min", 0);
    let secs = arg_u64(args, "--secs", 20);
    let cap = arg_u64(args, "--cap", 600);
    let vs = arg_u64(args, "--seed", 1);
    let out = arg(args, "--out");
    let known = known_findings(prop);
    let t0 = Instant::now();
    let mut rep = Report::default();
    let mut plans = BTreeSet::new();
    let mut states = BTreeSet::new();
    let progress = Arc::new(AtomicU64::new(0));
    {
        // a run that takes forever
        let progress = progress.clone();
        std::thread::spawn(move || {
            let mut last = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let p = progress.load(Ordering::SeqCst);
                if p != last.0 {
                    last = (p, Instant::now());
                } else if last.1.elapsed() > HANG {
                    say(&format!("H {}", crate::outcome::phase_get()));
                    std::process::exit(77);
                }
            }
        });
    }
    let mut i = start;
    while i < end {
        let t = t0.elapsed().as_secs();
        if t >= cap || (t >= secs && rep.runs >= min_runs) {
            break;
        }
        say(&format!("S {}", i));
        progress.fetch_add(1, Ordering::SeqCst);
        let seed = prop_seed(vs, prop, i);
        let plan = s.generate(prop, seed);
        let want_sample = rep.samples.len() < 2 && start == 0 && rep.runs >= 5;
        let r = exec(s, prop, &plan, want_sample);
        rep.runs += 1;
        rep.sim_time += r.sim_time;
        for (k, v) in &r.stats {
            *rep.stats.entry(k.to_string()).or_default() += v;
        }
        for (k, t) in &r.known {
            let e = rep.known.entry(k.clone()).or_insert((0, t.clone()));
            e.0 += 1;
        }
        if let Some((class, msg)) = verdict(&r, &known) {
            say(&format!(
                "V {}",
                serde_json::to_string(&Viol {
                    index: i,
                    class,
                    msg,
                    hash: r.hash
                })
                .unwrap()
            ));
            break;
        }
        if let Some(f) = &r.foreign {
            *rep.foreign.entry(normalize(f)).or_default() += 1;
        }
        if r.nontrivial {
            rep.nontrivial += 1;
            plans.insert(plan_hash(&plan));
            if want_sample && r.foreign.is_none() && r.trace.len() < 400 {
                rep.samples.push(json!({
                    "index": i, "seed": seed, "plan": &plan, "trace": &r.trace,
                }));
            }
        }
        if states.len() < 1_000_000 {
            states.extend(r.states.iter().copied());
        }
        // same seed, same execution?
        if (i / stride) % 40 == 7 && !want_sample {
            let r2 = exec(s, prop, &plan, false);
            rep.repeats += 1;
            if r2.hash != r.hash || r2.foreign.is_some() != r.foreign.is_some() {
                rep.nondeterministic.push(i);
            }
        }
        i += stride;
    }
    if let Some(path) = out {
        let mut data = Vec::new();
        data.extend((plans.len() as u64).to_le_bytes());
        for p in plans.iter().chain(states.iter()) {
            data.extend(p.to_le_bytes());
        }
        let _ = std::fs::write(path, data);
    }
    say(&format!("D {}", serde_json::to_string(&rep).unwrap()));
}

fn say(s: &str) {
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = writeln!(out, "{}", s);
    let _ = out.flush();
}

/// minimise in process, say every improvement
fn shrink<S: Scenario>(s: &S, args: &[String]) {
    let file = PathBuf::from(&args[0]);
    let secs = arg_u64(args, "--secs", 60);
    let mut rp: Replay<S::Plan> =
        serde_json::from_slice(&std::fs::read(&file).expect("read")).expect("parse");
    let known = known_findings(&rp.property);
    let t0 = Instant::now();
    let progress = Arc::new(AtomicU64::new(0));
    {
        let progress = progress.clone();
        std::thread::spawn(move || {
            let mut last = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let p = progress.load(Ordering::SeqCst);
                if p != last.0 {
                    last = (p, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(15) {
                    std::process::exit(0);
                }
            }
        });
    }
    let mut res = exec(s, &rp.property, &rp.plan, false);
    let mut tried = 0u64;
    'outer: loop {
        for cand in s.shrink(&rp.plan, &res) {
            if t0.elapsed().as_secs() >= secs {
                break 'outer;
            }
            progress.fetch_add(1, Ordering::SeqCst);
            tried += 1;
            let r = exec(s, &rp.property, &cand, false);
            if let Some((class, msg)) = verdict(&r, &known) {
                if class == rp.class {
                    rp.plan = cand;
                    rp.message = msg;
                    rp.hash = r.hash;
                    res = r;
                    let tmp = file.with_extension("tmp");
                    if std::fs::write(&tmp, serde_json::to_vec(&rp).unwrap()).is_ok() {
                        let _ = std::fs::rename(&tmp, &file);
                    }
                    continue 'outer;
                }
            }
        }
        break;
    }
    eprintln!("minimisation: {} candidates in {:?}", tried, t0.elapsed());
}

/// run a replay file. 0: no violation, 1: reproduced
fn replay<S: Scenario>(s: &S, args: &[String]) -> i32 {
    let file = PathBuf::from(&args[0]);
    let quiet = args.iter().any(|x| x == "--quiet");
    let mut rp: Replay<S::Plan> =
        serde_json::from_slice(&std::fs::read(&file).expect("read")).expect("parse");
    let known = known_findings(&rp.property);
    if rp.class == "hang" || rp.class == "abort" {
        std::thread::spawn(move || {
            std::thread::sleep(HANG);
            say(&format!("H {}", crate::outcome::phase_get()));
            std::process::exit(77);
        });
    }
    let r = exec(s, &rp.property, &rp.plan, true);
    if args.iter().any(|x| x == "--update") {
        rp.trace = r.trace.iter().take(500).cloned().collect();
        let _ = std::fs::write(&file, serde_json::to_string_pretty(&rp).unwrap());
    }
    if !quiet {
        for l in &r.trace {
            println!("{}", l);
        }
    }
    match verdict(&r, &known) {
        Some((class, msg)) => {
            println!("class {} hash {:016x}: {}", class, r.hash, msg);
            println!(
                "recorded: class {} hash {:016x}: {}",
                rp.class, rp.hash, rp.message
            );
            if class == rp.class && r.hash == rp.hash {
                println!("reproduced exactly");
            }
            println!("VIOLATION property={} replay={}", rp.property, file.display());
            1
        }
        None => {
            println!("no violation. {}", r.foreign.unwrap_or_default());
            0
        }
    }
}

struct Worker {
    child: Child,
    id: usize,
}

enum Msg {
    Line(usize, String),
    Eof(usize),
}

fn me() -> PathBuf {
    std::env::current_exe().expect("exe")
}

fn spawn_worker(prop: &str, id: usize, args: &[String], tx: &mpsc::Sender<Msg>) -> Worker {
    let mut child = Command::new(me())
        .arg("worker")
        .arg(prop)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker");
    let out = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for line in BufReader::new(out).lines() {
            match line {
                Ok(l) => {
                    if tx.send(Msg::Line(id, l)).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Msg::Eof(id));
    });
    Worker { child, id }
}

/// last phase before the process dies, when run again
fn phase_of(prop: &str, vs: u64, index: u64) -> (bool, String) {
    let out = Command::new(me())
        .arg("worker")
        .arg(prop)
        .args([
            "--start",
            &index.to_string(),
            "--end",
            &(index + 1).to_string(),
            "--seed",
            &vs.to_string(),
            "--secs",
            "100",
        ])
        .env("SIM_PHASE", "1")
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output();
    match out {
        Ok(o) => {
            let text = String::from_utf8_lossy(&o.stdout).to_string();
            let died = !o.status.success();
            let phase = text
                .lines()
                .filter_map(|l| l.strip_prefix("P ").or_else(|| l.strip_prefix("H ")))
                .last()
                .unwrap_or("")
                .to_string();
            (died, phase)
        }
        Err(_) => (false, String::new()),
    }
}

fn check<S: Scenario>(s: &S, prop: &str) -> i32 {
    let vs: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let about = s.about(prop);
    let n = std::env::var("VERIF_JOBS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(8usize);
    let secs: u64 = std::env::var("VERIF_SECS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(if tier == "quick" { 40 } else { 600 });
    let cap = if tier == "quick" { 240 } else { secs + 240 };
    let t0 = Instant::now();
    println!(
        "check property={} seed={} tier={} workers={}",
        prop, vs, tier, n
    );
    let tmp = std::env::temp_dir().join(format!("banyan-sim-{}-{}", prop, std::process::id()));
    let _ = std::fs::create_dir_all(&tmp);
    let (tx, rx) = mpsc::channel();
    let mut workers: Vec<Worker> = (0..n)
        .map(|id| {
            let args = vec![
                "--start".to_string(),
                id.to_string(),
                "--stride".into(),
                n.to_string(),
                "--min".into(),
                (about.min_runs / n as u64).to_string(),
                "--secs".into(),
                secs.to_string(),
                "--cap".into(),
                cap.to_string(),
                "--seed".into(),
                vs.to_string(),
                "--out".into(),
                tmp.join(format!("w{}", id)).display().to_string(),
            ];
            spawn_worker(prop, id, &args, &tx)
        })
        .collect();
    let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); n];
    let mut done = vec![false; n];
    let mut reported = vec![false; n];
    let mut total = Report::default();
    let mut viol: Option<Viol> = None;
    let mut viol_at = None;
    let mut hung: Vec<Option<String>> = vec![None; n];
    let mut lost: Vec<(usize, u64, String)> = vec![];
    while !done.iter().all(|x| *x) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(id, l)) => {
                if let Some(x) = l.strip_prefix("S ") {
                    last[id] = (x.parse().unwrap_or(0), Instant::now());
                } else if let Some(x) = l.strip_prefix("V ") {
                    if let Ok(v) = serde_json::from_str::<Viol>(x) {
                        if viol.as_ref().map(|o| v.index < o.index).unwrap_or(true) {
                            viol = Some(v);
                        }
                        viol_at.get_or_insert_with(Instant::now);
                    }
                } else if let Some(x) = l.strip_prefix("H ") {
                    hung[id] = Some(x.to_string());
                } else if let Some(x) = l.strip_prefix("D ") {
                    if let Ok(r) = serde_json::from_str::<Report>(x) {
                        reported[id] = true;
                        merge(&mut total, r);
                    }
                }
            }
            Ok(Msg::Eof(id)) => {
                done[id] = true;
                let status = workers[id].child.wait();
                if !reported[id] && viol_at.is_none() {
                    let what = match &hung[id] {
                        Some(p) => format!("hang {}", p),
                        None => format!("abort {:?}", status),
                    };
                    lost.push((id, last[id].0, what));
                    viol_at.get_or_insert_with(Instant::now);
                }
            }
            Err(_) => {}
        }
        // somebody found something, do not wait long for the others
        if let Some(t) = viol_at {
            let all_past = (0..n).all(|i| {
                done[i]
                    || viol
                        .as_ref()
                        .map(|v| last[i].0 > v.index && last[i].0 != u64::MAX)
                        .unwrap_or(false)
            });
            if all_past || t.elapsed() > Duration::from_secs(10) {
                for w in workers.iter_mut() {
                    if !done[w.id] {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        done[w.id] = true;
                    }
                }
            }
        }
    }
    let mut error = None;
    if viol.is_none() {
        // processes that died: was it in something that this property is about?
        lost.sort_by_key(|x| x.1);
        for (_, index, what) in lost.iter().take(2) {
            let (died, phase) = phase_of(prop, vs, *index);
            let about_it = phase.is_empty() || phase.split(' ').any(|p| p == prop || p == "*");
            println!("worker ended in run {}: {} in phase [{}]", index, what, phase);
            if died && about_it {
                let class = if what.starts_with("hang") {
                    "hang"
                } else {
                    "abort"
                };
                viol = Some(Viol {
                    index: *index,
                    class: class.into(),
                    msg: format!("{} {}", what, phase),
                    hash: 0,
                });
                break;
            }
            *total
                .foreign
                .entry(format!("process ended: {}", what))
                .or_default() += 1;
            if !died {
                error = Some(format!("worker died without a reason: {}", what));
            }
        }
    }
    // merge sets
    let mut plans = BTreeSet::new();
    let mut states = BTreeSet::new();
    for id in 0..n {
        if let Ok(d) = std::fs::read(tmp.join(format!("w{}", id))) {
            let xs: Vec<u64> = d
                .chunks_exact(8)
                .map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]))
                .collect();
            if let Some(np) = xs.first() {
                let np = *np as usize;
                plans.extend(xs[1..1 + np].iter().copied());
                states.extend(xs[1 + np..].iter().copied());
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let explored = t0.elapsed();
    let known = known_findings(prop);
    let mut result = None;
    if let Some(v) = &viol {
        println!("run {} fails: [{}] {}", v.index, v.class, v.msg);
        let plan = s.generate(prop, prop_seed(vs, prop, v.index));
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{}-{}-s{}-r{}.json", prop, v.class, vs, v.index));
        let rp = Replay {
            property: prop.to_string(),
            class: v.class.clone(),
            message: v.msg.clone(),
            verif_seed: vs,
            index: v.index,
            run_seed: prop_seed(vs, prop, v.index),
            hash: v.hash,
            original_plan: serde_json::to_value(&plan).ok(),
            plan,
            trace: vec![],
        };
        std::fs::write(&file, serde_json::to_vec(&rp).unwrap()).expect("write replay");
        if v.class == "hang" || v.class == "abort" {
            result = Some(file);
        } else {
            let msecs: u64 = std::env::var("VERIF_SHRINK_SECS")
                .ok()
                .and_then(|x| x.parse().ok())
                .unwrap_or(60);
            let _ = Command::new(me())
                .arg("shrink")
                .arg(&file)
                .args(["--secs", &msecs.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .status();
            let reproduced = |file: &Path, update: bool| {
                let mut c = Command::new(me());
                c.arg("replay").arg(file).arg("--quiet");
                if update {
                    c.arg("--update");
                }
                c.stdin(Stdio::null())
                    .output()
                    .map(|o| o.status.code() == Some(1))
                    .unwrap_or(false)
            };
            let mut ok = (0..3).any(|i| reproduced(&file, i == 0));
            if !ok {
                // go back to what was found
                std::fs::write(&file, serde_json::to_vec(&rp).unwrap()).expect("write replay");
                ok = (0..3).any(|i| reproduced(&file, i == 0));
            }
            if ok {
                result = Some(file);
            } else {
                error = Some(format!(
                    "run {} failed, but this cannot be reproduced: [{}] {}",
                    v.index, v.class, v.msg
                ));
            }
        }
    }
    if !total.nondeterministic.is_empty() {
        println!("NOT DETERMINISTIC: runs {:?}", total.nondeterministic);
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<_, _> = total
        .stats
        .iter()
        .filter(|(k, _)| is_fault(k))
        .map(|(k, v)| (k.clone(), *v))
        .collect();
    let other: BTreeMap<_, _> = total
        .stats
        .iter()
        .filter(|(k, _)| !is_fault(k))
        .map(|(k, v)| (k.clone(), *v))
        .collect();
    let foreign: u64 = total.foreign.values().sum();
    let per_hour = |x: u64| (x as f64 * 3600.0 / explored.as_secs_f64().max(0.001)) as u64;
    let rules_per_run = total.runs.max(1);
    let evidence = json!({
        "property": prop,
        "tier": tier,
        "seed": vs,
        "level": "exploration",
        "coverage": {
            "evaluations": total.runs,
            "distinct_nontrivial": plans.len(),
            "nontrivial_runs": total.nontrivial,
            "rule": about.rule,
            "samples": total.samples,
            "simulated_runs_per_hour": per_hour(total.runs),
            "seeds_per_hour": per_hour(total.runs),
            "simulated_time_steps": total.sim_time,
            "simulated_time_steps_per_run": total.sim_time / rules_per_run,
            "faults_injected": faults,
            "operations": other,
            "distinct_states": states.len(),
            "distinct_states_measure": about.measure,
            "runs_ended_by_something_else": foreign,
            "runs_ended_by_something_else_reasons": total.foreign,
            "determinism": {
                "runs_repeated": total.repeats,
                "different": total.nondeterministic.len(),
            },
            "real_components": about.real,
            "stubbed_components": about.stub,
            "known_findings_seen": total.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_,_>>(),
            "workers": n,
        },
        "assumptions": about.assumptions,
        "wall_s": wall,
        "violations": if result.is_some() { 1 } else { 0 },
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", prop)),
        serde_json::to_string_pretty(&evidence).unwrap(),
    )
    .expect("write evidence");
    println!(
        "{} runs ({} non-trivial, {} distinct), {} states, {} ended by something else, {:.1} s",
        total.runs,
        total.nontrivial,
        plans.len(),
        states.len(),
        foreign,
        wall
    );
    if foreign > 0 {
        for (k, v) in total.foreign.iter().take(5) {
            println!("  {} x {}", v, k);
        }
    }
    for (k, d) in &known {
        if total.known.contains_key(k) {
            println!("KNOWN-FINDING: property={} {}", prop, d);
        } else {
            println!("known finding {} has not been seen in this run", k);
        }
    }
    if let Some(file) = result {
        println!("VIOLATION property={} replay={}", prop, file.display());
        return 1;
    }
    if let Some(e) = error {
        println!("ERROR: {}", e);
        // nothing that could be shown to be wrong
        return 2;
    }
    if total.runs == 0 {
        println!("ERROR: no runs");
        return 2;
    }
    0
}

fn is_fault(k: &str) -> bool {
    const F: &[&str] = &[
        "put_fail", "put_ack_lost", "get_fail", "store_full", "put_panic", "get_panic",
        "crash", "iter_panic", "slow", "hidden_block", "missing_block", "lose", "recover",
        "cache_reset", "spurious", "drop", "dup", "reorder", "delay", "partition", "cancel",
        "restart", "torn", "corrupt", "fault", "txn_drop", "txn_panic", "txn_err",
    ];
    F.iter().any(|f| k.starts_with(f))
}

fn merge(t: &mut Report, r: Report) {
    t.runs += r.runs;
    t.nontrivial += r.nontrivial;
    t.sim_time += r.sim_time;
    t.repeats += r.repeats;
    t.nondeterministic.extend(r.nondeterministic);
    for (k, v) in r.foreign {
        *t.foreign.entry(k).or_default() += v;
    }
    for (k, v) in r.stats {
        *t.stats.entry(k).or_default() += v;
    }
    for (k, v) in r.known {
        t.known.entry(k).or_insert((0, v.1)).0 += v.0;
    }
    t.samples.extend(r.samples);
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(f)
        .expect("spawn")
        .join()
        .expect("main thread panicked")
}

pub fn main_with<S: Scenario>(s: S) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_panic_hook();
    let code = on_big_stack(move || {
        let cmd = args.first().cloned().unwrap_or_default();
        let rest: Vec<String> = args.iter().skip(1).cloned().collect();
        let prop_ok = |p: &str| s.props().contains(&p);
        match &cmd[..] {
            "check" if !rest.is_empty() && prop_ok(&rest[0]) => check(&s, &rest[0]),
            "worker" if !rest.is_empty() => {
                worker(&s, &rest[0], &rest[1..]);
                0
            }
            "shrink" if !rest.is_empty() => {
                shrink(&s, &rest);
                0
            }
            "replay" if !rest.is_empty() => replay(&s, &rest),
            // debugging: show one run
            "run" if rest.len() >= 2 => {
                let vs = arg_u64(&rest, "--seed", 1);
                let seed = prop_seed(vs, &rest[0], rest[1].parse().unwrap());
                let plan = s.generate(&rest[0], seed);
                println!("{}", serde_json::to_string(&plan).unwrap());
                let r = exec(&s, &rest[0], &plan, true);
                for l in &r.trace {
                    println!("{}", l);
                }
                println!("{:?}", RunResult { trace: vec![], states: vec![], ..r });
                0
            }
            // every seed twice, log of hashes for comparison between processes
            "hashes" if rest.len() >= 2 => {
                let vs = arg_u64(&rest, "--seed", 1);
                let n: u64 = rest[1].parse().unwrap();
                for i in 0..n {
                    let plan = s.generate(&rest[0], prop_seed(vs, &rest[0], i));
                    let r = exec(&s, &rest[0], &plan, false);
                    println!(
                        "{} {:016x} {:?} {:?}",
                        i,
                        r.hash,
                        r.violation,
                        r.foreign.as_ref().map(|x| x.len())
                    );
                }
                0
            }
            // count reasons of failures
            "survey" if rest.len() >= 2 => {
                let vs = arg_u64(&rest, "--seed", 1);
                let n: u64 = rest[1].parse().unwrap();
                let from = arg_u64(&rest, "--from", 0);
                let mut seen: BTreeMap<String, (u64, u64)> = BTreeMap::new();
                let t0 = Instant::now();
                for i in from..from + n {
                    let plan = s.generate(&rest[0], prop_seed(vs, &rest[0], i));
                    let r = exec(&s, &rest[0], &plan, false);
                    let k = match (&r.violation, &r.foreign) {
                        (Some((c, m)), _) => format!("VIOLATION {} {}", c, normalize(m)),
                        (_, Some(f)) => format!("foreign {}", normalize(f)),
                        _ if r.nontrivial => "ok".to_string(),
                        _ => "trivial".to_string(),
                    };
                    seen.entry(k).or_insert((0, i)).0 += 1;
                }
                for (k, (n, i)) in seen {
                    println!("{:6} x (first {}) {}", n, i, k);
                }
                println!("{:?}", t0.elapsed());
                0
            }
            _ => {
                eprintln!(
                    "usage: check PROP | replay FILE | run PROP N | survey PROP N\nproperties: {:?}",
                    s.props()
                );
                3
            }
        }
    });
    std::process::exit(code)
}

/// shared by all scenario types: remember something per process
pub static LOCK: Mutex<()> = Mutex::new(());
