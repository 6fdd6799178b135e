//! C27: publish and subscribe through a daemon and connections that fail in all ways
use crate::daemon::{Cut, Daemon, Event, Expect, PubAnswer, PubSub, SubAnswer, SubEnd};
use banyan_utils::ipfs::{pubsub_pub, pubsub_sub};
use futures::StreamExt;
use serde::{Deserialize, Serialize};
use simcore::engine::About;
use simcore::outcome::{guard, mixh, phase, Out, RunResult, Stop, R};
use simcore::rng::{mix, Rng};
use simcore::types::hash64;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Pub { topic: u8, len: u16, seed: u64, answer: PubAnswer },
    /// `take`: drop the stream after so many elements
    Sub { topic: u8, answer: SubAnswer, take: Option<u8> },
    /// connections are refused for the given number of operations
    Down { ops: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PubPlan {
    pub ops: Vec<Op>,
}

const TOPICS: &[&str] = &["news", "a b", "ä/ö?x=1&y#z", "50%+1", ""];

fn topic(n: u8) -> &'static str {
    if n == 255 {
        static LONG: std::sync::OnceLock<String> = std::sync::OnceLock::new();
        return LONG.get_or_init(|| "long ".repeat(13_000));
    }
    TOPICS[n as usize % TOPICS.len()]
}

fn content(len: u16, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(mix(seed, 0xda7a));
    let text = r.bool();
    (0..len)
        .map(|_| if text { b'a' + r.below(26) as u8 } else { r.below(256) as u8 })
        .collect()
}

fn cuts(r: &mut Rng) -> Cut {
    match r.below(5) {
        0 => Cut::Events,
        1 => Cut::All,
        2 => Cut::Every(1 + r.skewed(40) as u16),
        _ => Cut::Random(r.u64()),
    }
}

fn sub_answer(r: &mut Rng, faults: bool) -> SubAnswer {
    let mut bad = vec![];
    if faults && r.pct(50) {
        for _ in 0..r.range(1, 3) {
            bad.push((
                r.below(12) as u8,
                *r.pick(&[
                    Event::NotJson,
                    Event::BadBase64,
                    Event::NoData,
                    Event::Number,
                    Event::Message,
                    Event::NotUtf8,
                ]),
            ));
        }
    }
    let end = if !faults || r.pct(40) {
        SubEnd::Regular
    } else {
        match r.below(8) {
            0..=3 => SubEnd::Truncated { at: r.below(256) as u8 },
            4 => SubEnd::Status {
                code: *r.pick(&[400, 403, 404, 500, 502, 503]),
                events: r.bool(),
            },
            5 => SubEnd::DropEarly,
            6 => SubEnd::Reset { at: r.below(256) as u8 },
            _ => SubEnd::CutHead { at: r.below(256) as u8 },
        }
    };
    SubAnswer {
        cuts: cuts(r),
        close: r.pct(15),
        last_newline: !r.pct(20),
        extra: r.pct(40),
        bad,
        end,
    }
}

fn pub_answer(r: &mut Rng, faults: bool) -> PubAnswer {
    if !faults {
        return PubAnswer::Ok;
    }
    match r.below(7) {
        0 | 1 => PubAnswer::Status {
            code: *r.pick(&[400, 403, 404, 408, 429, 500, 502, 503, 599]),
            executed: r.bool(),
        },
        2 => PubAnswer::DropEarly,
        3 => PubAnswer::DropLate,
        4 => PubAnswer::Reset,
        5 => PubAnswer::CutHead { at: r.below(256) as u8 },
        _ => PubAnswer::Truncated,
    }
}

pub fn generate(seed: u64) -> PubPlan {
    let mut r = Rng::new(mix(seed, 0x9b5b));
    let pct = *r.pick(&[0, 20, 50]);
    let topics = r.range(1, 3);
    let first = r.below(TOPICS.len() as u64);
    let mut ops = vec![];
    for _ in 0..r.range(2, 16) {
        let t = match r.below(60) {
            0 => 255,
            _ => (first + r.below(topics)) as u8,
        };
        let faults = r.pct(pct);
        ops.push(match r.below(20) {
            0 if faults => Op::Down { ops: r.range(1, 3) as u8 },
            0..=12 => Op::Pub {
                topic: t,
                len: match r.below(48) {
                    0..=3 => 0,
                    4..=7 => r.range(500, 2500) as u16,
                    8 => r.range(2500, 65000) as u16,
                    _ => r.skewed(80) as u16,
                },
                seed: r.u64(),
                answer: pub_answer(&mut r, faults),
            },
            _ => Op::Sub {
                topic: t,
                answer: sub_answer(&mut r, faults),
                take: if r.pct(15) { Some(r.below(4) as u8) } else { None },
            },
        });
    }
    let last = pct > 0 && r.bool();
    ops.push(Op::Sub {
        topic: first as u8,
        answer: sub_answer(&mut r, last),
        take: None,
    });
    PubPlan { ops }
}

pub fn shrink(p: &PubPlan) -> Vec<PubPlan> {
    let mut res = vec![];
    let n = p.ops.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut from = 0;
        while from < n {
            let to = (from + size).min(n);
            let mut q = p.clone();
            q.ops.drain(from..to);
            res.push(q);
            from = to;
        }
        size /= 2;
    }
    for i in 0..n {
        let mut alt = vec![];
        match &p.ops[i] {
            Op::Pub { topic, len, seed, answer } => {
                for l in [0, 1, len / 2] {
                    if l < *len {
                        alt.push(Op::Pub { topic: *topic, len: l, seed: *seed, answer: *answer });
                    }
                }
                if *answer != PubAnswer::Ok {
                    alt.push(Op::Pub { topic: *topic, len: *len, seed: *seed, answer: PubAnswer::Ok });
                }
            }
            Op::Sub { topic, answer, take } => {
                let mut f = |a: SubAnswer, take: Option<u8>| {
                    if a != *answer || take != p.take(i) {
                        alt.push(Op::Sub { topic: *topic, answer: a, take })
                    }
                };
                f(answer.clone(), None);
                f(SubAnswer { bad: vec![], ..answer.clone() }, *take);
                f(SubAnswer { end: SubEnd::Regular, ..answer.clone() }, *take);
                f(SubAnswer { cuts: Cut::Events, ..answer.clone() }, *take);
                f(SubAnswer { cuts: Cut::All, ..answer.clone() }, *take);
                f(SubAnswer { close: false, last_newline: true, extra: false, ..answer.clone() }, *take);
            }
            Op::Down { .. } => {}
        }
        for op in alt {
            let mut q = p.clone();
            q.ops[i] = op;
            res.push(q);
        }
    }
    res
}

impl PubPlan {
    fn take(&self, i: usize) -> Option<u8> {
        match &self.ops[i] {
            Op::Sub { take, .. } => *take,
            _ => None,
        }
    }
}

struct World {
    d: &'static Daemon,
    rt: tokio::runtime::Runtime,
    down: u8,
    res: RunResult,
    trace: bool,
}

fn short(t: &str) -> &str {
    t.get(..20).unwrap_or(t)
}

/// length of percent encoded data
fn url_len(x: &[u8]) -> usize {
    x.iter().map(|c| if c.is_ascii_alphanumeric() { 1 } else { 3 }).sum()
}

fn violation<T>(class: &str, msg: String) -> R<T> {
    Err(Stop::Violation { class: class.into(), msg })
}

impl World {
    fn say(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let s = f();
            self.res.trace.push(s);
        }
    }
    fn count(&mut self, k: &'static str) {
        *self.res.stats.entry(k).or_default() += 1;
    }
    fn odd(&mut self) -> R {
        match self.d.state().odd.first() {
            Some(x) => violation("request", format!("the daemon got a request that it can not understand: {}", x)),
            None => Ok(()),
        }
    }

    fn publish(&mut self, t: &str, data: Vec<u8>, answer: PubAnswer) -> R {
        phase("publish", &["C27"]);
        self.d.state().pubsub = Some(PubSub::Pub(answer));
        let before = self.d.state().topic(t);
        let out = {
            let rt = &self.rt;
            let data = &data;
            guard(move || {
                rt.block_on(async move {
                    match tokio::time::timeout(Duration::from_secs(8), pubsub_pub(t, data)).await {
                        Ok(x) => x,
                        Err(_) => panic!("no answer"),
                    }
                })
            })
        };
        self.odd()?;
        let after = self.d.state().topic(t);
        let added = after.len() - before.len();
        let fault = answer != PubAnswer::Ok || self.down > 0;
        self.count("publish");
        self.count(if self.down > 0 { "fault_refused" } else { answer.name() });
        self.res.nontrivial |= fault;
        self.say(|| format!("publish {} bytes to {:?}, answer {:?}: {}", data.len(), short(t), answer, out.describe()));
        mixh(&mut self.res.hash, out.is_ok() as u64 * 2 + added as u64);
        if added > 1 || after[before.len()..].iter().any(|x| *x != data) {
            return violation(
                "publish-data",
                format!("publishing {} bytes to {:?} makes {} messages, or with other content", data.len(), t, added),
            );
        }
        let others: usize = self.d.state().topics.values().map(|x| x.len()).sum();
        self.res.states.push(mix(others as u64, hash64(3, &data) ^ added as u64));
        // the message is part of the URL, and very long ones do not fit
        let room = 65_534 - url_len(t.as_bytes()).min(65_534);
        if url_len(&data) + 200 >= room {
            self.count("publish_large");
            if let Out::Err(_) = out {
                return Ok(());
            }
        }
        match out {
            Out::Ok(()) if added == 1 && !fault => Ok(()),
            Out::Ok(()) => violation(
                "publish-lost",
                format!("publishing to {:?} succeeds although the answer is {:?} (published: {})", t, answer, added),
            ),
            Out::Err(_) if fault => Ok(()),
            x => violation("publish", format!("publishing {} bytes to {:?}: {}", data.len(), t, x.describe())),
        }
    }

    fn subscribe(&mut self, t: &str, answer: &SubAnswer, take: Option<u8>) -> R {
        phase("subscribe", &["C27"]);
        self.d.state().pubsub = Some(PubSub::Sub(answer.clone()));
        let events = self.d.state().topic(t);
        let out: Out<(Vec<Result<Vec<u8>, String>>, bool)> = {
            let rt = &self.rt;
            guard(move || {
                rt.block_on(async move {
                    let s = pubsub_sub(t)?;
                    futures::pin_mut!(s);
                    let mut res = vec![];
                    let max = take.map(|x| x as usize).unwrap_or(events.len() + 40);
                    let mut ended = false;
                    while res.len() < max {
                        match tokio::time::timeout(Duration::from_secs(8), s.next()).await {
                            Ok(Some(x)) => res.push(x.map_err(|e| format!("{:#}", e))),
                            Ok(None) => {
                                ended = true;
                                break;
                            }
                            Err(_) => panic!("nothing arrives"),
                        }
                    }
                    Ok((res, ended))
                })
            })
        };
        self.odd()?;
        let events = self.d.state().topic(t);
        self.count("subscribe");
        let refused = self.down > 0;
        if refused {
            self.count("fault_refused");
        } else {
            self.count(answer.end.name());
            for (i, b) in &answer.bad {
                if (*i as usize) <= events.len() {
                    self.count(b.name());
                }
            }
            self.count(answer.cuts.name());
        }
        self.say(|| {
            format!(
                "subscribe to {:?} with {} messages, take {:?}, answer {:?}: {}",
                short(t),
                events.len(),
                take,
                answer,
                match &out {
                    Out::Ok((x, e)) => format!(
                        "{} messages, {} errors, ended {}",
                        x.iter().filter(|x| x.is_ok()).count(),
                        x.iter().filter(|x| x.is_err()).count(),
                        e
                    ),
                    x => x.describe(),
                }
            )
        });
        let (got, ended) = match out {
            Out::Ok(x) => x,
            // does not fit into a request
            Out::Err(_) if url_len(t.as_bytes()) + 200 > 65_534 => return Ok(()),
            x => return violation("subscribe", format!("subscribing to {:?}: {} (answer {:?})", t, x.describe(), answer)),
        };
        if take.is_none() && !ended {
            return violation("subscribe-end", format!("the messages of {:?} do not end (answer {:?})", t, answer));
        }
        let exp = if refused {
            Expect { min: 0, max: 0, error: true, may_error: true }
        } else {
            answer.expect(t, &events)
        };
        self.res.nontrivial |= exp.may_error || answer.cuts != Cut::Events;
        let mut pos = 0;
        let mut errors = 0u64;
        let mut first_error = None;
        for x in &got {
            match x {
                Ok(data) => {
                    // the messages come in the order in which they were published
                    if pos >= events.len() || *data != events[pos] {
                        return violation(
                            "subscribe-data",
                            format!(
                                "message {} of {:?} is wrong ({} bytes), there are {} messages (answer {:?})",
                                pos, t, data.len(), events.len(), answer
                            ),
                        );
                    }
                    pos += 1;
                }
                Err(e) => {
                    errors += 1;
                    first_error.get_or_insert_with(|| (pos, e.clone()));
                }
            }
        }
        if !matches!(answer.end, SubEnd::Reset { .. }) {
            mixh(&mut self.res.hash, pos as u64);
            self.res.states.push(mix(pos as u64, errors));
        }
        if pos > exp.max {
            return violation(
                "subscribe-data",
                format!("{} messages of {:?} arrive, but only {} have been sent (answer {:?})", pos, t, exp.max, answer),
            );
        }
        if errors > 0 && !exp.may_error {
            return violation(
                "subscribe-error",
                format!("error after {} messages of {:?}: {:?} (answer {:?})", pos, t, first_error, answer),
            );
        }
        if take.is_some() {
            return Ok(());
        }
        if pos < exp.min {
            return violation(
                "subscribe-lost",
                format!("{} of {} messages of {:?} arrive, error: {:?} (answer {:?})", pos, exp.min, t, first_error, answer),
            );
        }
        if errors == 0 && exp.error {
            return violation(
                "subscribe-silent",
                format!("{} of {} messages of {:?} and no error (answer {:?})", pos, events.len(), t, answer),
            );
        }
        Ok(())
    }

    fn step(&mut self, op: &Op) -> R {
        match op {
            Op::Pub { topic: t, len, seed, answer } => self.publish(topic(*t), content(*len, *seed), *answer),
            Op::Sub { topic: t, answer, take } => self.subscribe(topic(*t), answer, *take),
            Op::Down { ops } => {
                if self.down == 0 {
                    self.d.down();
                    self.down = ops + 1;
                    self.say(|| "daemon stops".into());
                }
                Ok(())
            }
        }
    }
}

pub fn run(p: &PubPlan, trace: bool) -> RunResult {
    let d = Daemon::get();
    d.up();
    d.reset();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    let mut w = World {
        d,
        rt,
        down: 0,
        res: RunResult::default(),
        trace,
    };
    for op in &p.ops {
        let r = w.step(op);
        w.res.sim_time += 1;
        if w.down > 0 {
            w.down -= 1;
            if w.down == 0 {
                d.up();
            }
        }
        match r {
            Ok(()) => {}
            Err(Stop::End) => break,
            Err(Stop::Violation { class, msg }) => {
                w.res.violation = Some((class, msg));
                break;
            }
            Err(Stop::Foreign(x)) => {
                w.res.foreign = Some(x);
                break;
            }
        }
    }
    d.up();
    w.res
}

pub fn about() -> About {
    About {
        rule: "a case is a seeded sequence of publications and subscriptions with a scripted way in which the daemon answers, splits its answer, and fails; non-trivial: at least one answer was not one event per chunk without faults",
        real: "banyan-utils pubsub_pub, pubsub_sub; reqwest, hyper and tokio with real loopback connections",
        stub: "the IPFS daemon (an HTTP server inside the process, reached through the http_proxy setting instead of port 5001), its topics",
        measure: "hash of (number of published messages, last message) after every publication, and of the number of messages and errors of every subscription",
        assumptions: &[
            "a subscription delivers what was published on the topic so far and then ends; messages that arrive later, and streams that stay open, are not simulated",
            "one event per line, as the daemon writes them",
        ],
        min_runs: 600,
    }
}
