//! A stand-in for the IPFS daemon: HTTP over a loopback connection. What it answers to each request
//! comes from a script, so it is as reproducible as everything else.
use banyan_utils::tags::Sha256Digest;
use libipld::Cid;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::net::{Ipv4Addr, SocketAddrV4, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, MutexGuard, OnceLock};
use std::thread::JoinHandle;
use std::time::Duration;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Framing {
    Length,
    /// chunks of this size
    Chunked(u16),
    /// the end of the connection is the end of the body
    Close,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum BodyKind {
    /// error message in JSON
    Message,
    /// the regular answer
    Regular,
    Empty,
    Html,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum WrongKey {
    /// link of another block
    Other,
    RawCodec,
    PbCodec,
    /// CIDv0
    V0,
    Sha512,
    Identity,
    Short,
    Empty,
    Garbage,
    Number,
    Missing,
    Null,
    List,
    /// more than one JSON value
    Twice,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Answer {
    Ok { framing: Framing, frag: u16 },
    Status { code: u16, body: BodyKind, framing: Framing },
    /// the connection ends after some part (in 1/256) of the body
    Truncated { framing: Framing, at: u8 },
    /// status line or headers incomplete
    CutHead { at: u8 },
    /// success, but nothing in it
    Empty { framing: Framing },
    /// get: one byte changed; put: damaged JSON
    Damaged { at: u16, framing: Framing },
    /// something that is longer
    Longer { n: u8, framing: Framing },
    /// another block
    OtherBlock { framing: Framing },
    /// connection ends before the request was read
    DropEarly,
    /// connection ends after the request was executed
    DropLate,
    /// connection is reset after the request was executed
    Reset,
    NotHttp { n: u8 },
    /// only for puts, otherwise ok
    Key { kind: WrongKey, framing: Framing },
}

impl State {
    pub fn topic(&self, t: &str) -> Vec<Vec<u8>> {
        self.topics.get(t).cloned().unwrap_or_default()
    }
}

impl Answer {
    pub fn is_ok(&self) -> bool {
        matches!(self, Answer::Ok { .. })
    }
    pub fn name(&self) -> &'static str {
        match self {
            Answer::Ok { .. } => "answer_ok",
            Answer::Status { .. } => "fault_error_status",
            Answer::Truncated { .. } => "fault_truncated",
            Answer::CutHead { .. } => "fault_cut_head",
            Answer::Empty { .. } => "fault_empty",
            Answer::Damaged { .. } => "fault_damaged",
            Answer::Longer { .. } => "fault_longer",
            Answer::OtherBlock { .. } => "fault_other_block",
            Answer::DropEarly => "fault_dropped_early",
            Answer::DropLate => "fault_dropped_late",
            Answer::Reset => "fault_reset",
            Answer::NotHttp { .. } => "fault_not_http",
            Answer::Key { .. } => "fault_wrong_key",
        }
    }
}

pub const OK: Answer = Answer::Ok {
    framing: Framing::Length,
    frag: 0,
};

/// where the body of a subscription is split into chunks
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cut {
    /// one event per chunk
    Events,
    /// one chunk
    All,
    Every(u16),
    Random(u64),
}

impl Cut {
    pub fn name(&self) -> &'static str {
        match self {
            Cut::Events => "chunk_per_event",
            Cut::All => "chunks_merged",
            Cut::Every(_) | Cut::Random(_) => "chunks_split",
        }
    }
}

/// what is there instead of an event
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Event {
    NotJson,
    BadBase64,
    NoData,
    Number,
    Message,
    NotUtf8,
}

impl Event {
    pub fn name(&self) -> &'static str {
        match self {
            Event::NotJson => "fault_event_not_json",
            Event::BadBase64 => "fault_event_bad_base64",
            Event::NoData => "fault_event_without_data",
            Event::Number => "fault_event_wrong_type",
            Event::Message => "fault_event_is_error_message",
            Event::NotUtf8 => "fault_event_not_utf8",
        }
    }
    fn line(&self) -> Vec<u8> {
        match self {
            Event::NotJson => b"<html>".to_vec(),
            Event::BadBase64 => b"{\"from\":\"x\",\"data\":\"*\",\"seqno\":\"x\",\"topicIDs\":[]}".to_vec(),
            Event::NoData => b"{\"from\":\"x\",\"seqno\":\"x\",\"topicIDs\":[]}".to_vec(),
            Event::Number => b"{\"from\":\"x\",\"data\":17,\"seqno\":\"x\",\"topicIDs\":[]}".to_vec(),
            Event::Message => message(500).into_bytes(),
            Event::NotUtf8 => b"{\"from\":\"x\",\"data\":\"eHh4\xff\",\"seqno\":\"x\",\"topicIDs\":[]}".to_vec(),
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum SubEnd {
    Regular,
    /// the connection ends after some part (in 1/256) of the body
    Truncated { at: u8 },
    /// same, but it is reset
    Reset { at: u8 },
    Status { code: u16, events: bool },
    DropEarly,
    CutHead { at: u8 },
}

impl SubEnd {
    pub fn name(&self) -> &'static str {
        match self {
            SubEnd::Regular => "answer_ok",
            SubEnd::Truncated { .. } => "fault_truncated",
            SubEnd::Reset { .. } => "fault_reset",
            SubEnd::Status { .. } => "fault_error_status",
            SubEnd::DropEarly => "fault_dropped_early",
            SubEnd::CutHead { .. } => "fault_cut_head",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SubAnswer {
    pub cuts: Cut,
    /// the end of the connection is the end of the body
    pub close: bool,
    pub last_newline: bool,
    /// more fields and white space
    pub extra: bool,
    /// something else before the event with this number
    pub bad: Vec<(u8, Event)>,
    pub end: SubEnd,
}

/// a line with its newline, and if it is an event
type Line = (Vec<u8>, bool);

impl SubAnswer {
    fn lines(&self, topic: &str, events: &[Vec<u8>]) -> Vec<Line> {
        let mut res: Vec<Line> = vec![];
        for i in 0..=events.len() {
            for (_, b) in self.bad.iter().filter(|x| x.0 as usize == i) {
                res.push((b.line(), false));
            }
            if let Some(e) = events.get(i) {
                let t = serde_json::to_string(topic).unwrap();
                let d = base64::encode(e);
                let l = if self.extra {
                    format!(
                        " {{ \"topicIDs\" : [{}], \"more\" : {{\"data\":\"x\"}}, \"seqno\":\"{}\", \"data\" : \"{}\", \"from\":\"\" }} \r",
                        t, i, d
                    )
                } else {
                    format!("{{\"from\":\"stub\",\"data\":\"{}\",\"seqno\":\"{:x}\",\"topicIDs\":[{}]}}", d, i, t)
                };
                res.push((l.into_bytes(), true));
            }
        }
        let n = res.len();
        for (i, l) in res.iter_mut().enumerate() {
            if i + 1 < n || self.last_newline {
                l.0.push(b'\n');
            }
        }
        res
    }
    pub fn expect(&self, topic: &str, events: &[Vec<u8>]) -> Expect {
        let lines = self.lines(topic, events);
        let total: usize = lines.iter().map(|x| x.0.len()).sum();
        let (cut, http) = match self.end {
            SubEnd::Regular => (total, false),
            SubEnd::Truncated { at } => (total * at as usize / 256, !self.close),
            SubEnd::Reset { at } => (total * at as usize / 256, true),
            _ => (0, true),
        };
        let mut res = Expect {
            min: 0,
            max: 0,
            error: http,
            may_error: http,
        };
        let mut pos = 0;
        for (i, (l, event)) in lines.iter().enumerate() {
            let end = pos + l.len();
            // the rest is white space
            let text = pos + l.iter().rposition(|x| !x.is_ascii_whitespace()).map_or(0, |x| x + 1);
            let complete = cut >= end && (cut > text || i + 1 == lines.len());
            if complete {
                if *event {
                    res.min += 1;
                    res.max += 1;
                } else {
                    res.error = true;
                    res.may_error = true;
                }
            } else {
                if cut >= text && *event {
                    // nothing but the newline is missing
                    res.max += 1;
                }
                if cut > pos {
                    res.may_error = true;
                    // white space is no error
                    if cut < text && l[..cut - pos].iter().any(|x| !x.is_ascii_whitespace()) && cut + 3 < text {
                        res.error = true;
                    }
                }
                break;
            }
            pos = end;
        }
        if http && !(self.close && matches!(self.end, SubEnd::Truncated { .. })) {
            // what has arrived before an error of the connection can be lost
            res.min = 0;
        }
        res
    }
}

/// what a subscription has to deliver
pub struct Expect {
    pub min: usize,
    pub max: usize,
    pub error: bool,
    pub may_error: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum PubAnswer {
    Ok,
    Status { code: u16, executed: bool },
    DropEarly,
    DropLate,
    Reset,
    CutHead { at: u8 },
    /// status 200, but not all of the body
    Truncated,
}

impl PubAnswer {
    pub fn name(&self) -> &'static str {
        match self {
            PubAnswer::Ok => "answer_ok",
            PubAnswer::Status { .. } => "fault_error_status",
            PubAnswer::DropEarly => "fault_dropped_early",
            PubAnswer::DropLate => "fault_dropped_late",
            PubAnswer::Reset => "fault_reset",
            PubAnswer::CutHead { .. } => "fault_cut_head",
            PubAnswer::Truncated => "fault_truncated",
        }
    }
}

#[derive(Clone, Debug)]
pub enum PubSub {
    Pub(PubAnswer),
    Sub(SubAnswer),
}

#[derive(Default)]
pub struct State {
    /// the next request is expected to be this
    pub pubsub: Option<PubSub>,
    pub topics: BTreeMap<String, Vec<Vec<u8>>>,
    pub blocks: BTreeMap<String, Vec<u8>>,
    /// answers to the next requests, then `OK`
    pub script: VecDeque<Answer>,
    /// what the requests were answered with
    pub log: Vec<(bool, Answer)>,
    /// requests that make no sense
    pub odd: Vec<String>,
    pub bytes: u64,
}

pub struct Daemon {
    state: Arc<Mutex<State>>,
    addr: SocketAddrV4,
    stop: Arc<AtomicBool>,
    server: Mutex<Option<JoinHandle<()>>>,
}

static DAEMON: OnceLock<Daemon> = OnceLock::new();

impl Daemon {
    /// one per process
    pub fn get() -> &'static Daemon {
        DAEMON.get_or_init(|| {
            let pid = std::process::id();
            let part = |n: u32| 1 + ((pid >> n) & 127) as u8;
            let ip = Ipv4Addr::new(127, part(14), part(7), part(0));
            let l = TcpListener::bind(SocketAddrV4::new(ip, 0)).expect("bind");
            let addr = match l.local_addr().expect("addr") {
                std::net::SocketAddr::V4(x) => x,
                _ => unreachable!(),
            };
            let d = Daemon {
                state: Default::default(),
                addr,
                stop: Default::default(),
                server: Mutex::new(None),
            };
            // requests to http://localhost:5001 are sent here
            for v in ["no_proxy", "NO_PROXY", "HTTP_PROXY", "ALL_PROXY", "all_proxy", "REQUEST_METHOD"] {
                std::env::remove_var(v);
            }
            std::env::set_var("http_proxy", format!("http://{}", d.addr));
            d.serve(l);
            d
        })
    }
    fn serve(&self, l: TcpListener) {
        let state = self.state.clone();
        let stop = self.stop.clone();
        stop.store(false, Ordering::SeqCst);
        let h = std::thread::spawn(move || {
            for s in l.incoming() {
                if stop.load(Ordering::SeqCst) {
                    return;
                }
                match s {
                    Ok(s) => {
                        let _ = s.set_nodelay(true);
                        let _ = s.set_read_timeout(Some(Duration::from_secs(5)));
                        let _ = s.set_write_timeout(Some(Duration::from_secs(5)));
                        let _ = handle(s, &state);
                    }
                    Err(_) => return,
                }
            }
        });
        *self.server.lock().unwrap() = Some(h);
    }
    /// connections are refused from now on
    pub fn down(&self) {
        if let Some(h) = self.server.lock().unwrap().take() {
            self.stop.store(true, Ordering::SeqCst);
            let _ = TcpStream::connect(self.addr);
            let _ = h.join();
        }
    }
    pub fn up(&self) {
        if self.server.lock().unwrap().is_none() {
            for _ in 0..200 {
                if let Ok(l) = TcpListener::bind(self.addr) {
                    self.serve(l);
                    return;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            panic!("can not listen again");
        }
    }
    pub fn state(&self) -> MutexGuard<'_, State> {
        match self.state.lock() {
            Ok(x) => x,
            Err(x) => x.into_inner(),
        }
    }
    pub fn reset(&self) {
        *self.state() = State::default();
    }
}

fn read_request(s: &mut TcpStream) -> std::io::Result<(String, Vec<u8>)> {
    let mut buf = vec![];
    let mut tmp = [0u8; 16384];
    let head = loop {
        if let Some(p) = find(&buf, b"\r\n\r\n") {
            break p;
        }
        let n = s.read(&mut tmp)?;
        if n == 0 {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        buf.extend_from_slice(&tmp[..n]);
    };
    let text = String::from_utf8_lossy(&buf[..head]).to_string();
    let mut body = buf[head + 4..].to_vec();
    let header = |name: &str| {
        text.lines().skip(1).find_map(|l| {
            let (k, v) = l.split_once(':')?;
            if k.trim().eq_ignore_ascii_case(name) {
                Some(v.trim().to_string())
            } else {
                None
            }
        })
    };
    if let Some(n) = header("content-length").and_then(|x| x.parse::<usize>().ok()) {
        while body.len() < n {
            let k = s.read(&mut tmp)?;
            if k == 0 {
                return Err(std::io::ErrorKind::UnexpectedEof.into());
            }
            body.extend_from_slice(&tmp[..k]);
        }
        body.truncate(n);
    } else if header("transfer-encoding").map(|x| x.contains("chunked")).unwrap_or(false) {
        let mut raw = body;
        let mut pos = 0;
        body = vec![];
        loop {
            let line = loop {
                if let Some(p) = find(&raw[pos..], b"\r\n") {
                    break pos + p;
                }
                let k = s.read(&mut tmp)?;
                if k == 0 {
                    return Err(std::io::ErrorKind::UnexpectedEof.into());
                }
                raw.extend_from_slice(&tmp[..k]);
            };
            let n = usize::from_str_radix(String::from_utf8_lossy(&raw[pos..line]).trim(), 16)
                .map_err(|_| std::io::Error::from(std::io::ErrorKind::InvalidData))?;
            pos = line + 2;
            while raw.len() < pos + n + 2 {
                let k = s.read(&mut tmp)?;
                if k == 0 {
                    return Err(std::io::ErrorKind::UnexpectedEof.into());
                }
                raw.extend_from_slice(&tmp[..k]);
            }
            body.extend_from_slice(&raw[pos..pos + n]);
            pos += n + 2;
            if n == 0 {
                break;
            }
        }
    }
    Ok((text, body))
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

/// content of the only part
fn multipart(head: &str, body: &[u8]) -> Option<Vec<u8>> {
    let b = head.lines().find_map(|l| {
        let l2 = l.to_ascii_lowercase();
        if l2.starts_with("content-type:") {
            l.split("boundary=").nth(1).map(|x| x.trim().trim_matches('"').to_string())
        } else {
            None
        }
    })?;
    let start = format!("--{}\r\n", b).into_bytes();
    let end = format!("\r\n--{}--", b).into_bytes();
    let p = find(body, &start)? + start.len();
    let q = p + find(&body[p..], b"\r\n\r\n")? + 4;
    let r = (q.saturating_sub(2)..=body.len().saturating_sub(end.len())).rev().find(|i| body[*i..].starts_with(&end))?;
    if r < q {
        return Some(vec![]);
    }
    Some(body[q..r].to_vec())
}

fn message(code: u16) -> String {
    format!("{{\"Message\":\"injected error {}\",\"Code\":0,\"Type\":\"error\"}}", code)
}

/// answer to a request without faults
enum Reg {
    Data(Vec<u8>),
    Stored(Sha256Digest),
    NotFound,
    Bad(String),
}

fn execute(state: &mut State, head: &str, body: &[u8]) -> (bool, Reg) {
    let line = head.lines().next().unwrap_or("").to_string();
    let mut it = line.split(' ');
    let (method, target) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
    let path = match target.find("/api/v0/") {
        Some(p) => &target[p + 8..],
        None => return (false, Reg::Bad(line)),
    };
    let (cmd, query) = path.split_once('?').unwrap_or((path, ""));
    let param = |k: &str| query.split('&').find_map(|x| x.strip_prefix(k)?.strip_prefix('=').map(|x| x.to_string()));
    if method != "POST" {
        return (false, Reg::Bad(line));
    }
    match cmd {
        "block/get" => {
            let arg = param("arg").unwrap_or_default();
            match state.blocks.get(&arg) {
                Some(x) => (false, Reg::Data(x.clone())),
                None if arg.parse::<Cid>().is_ok() => (false, Reg::NotFound),
                None => (false, Reg::Bad(line)),
            }
        }
        "block/put" => match (param("format").as_deref(), multipart(head, body)) {
            (Some("cbor"), Some(data)) => {
                let l = Sha256Digest::digest(&data);
                state.bytes += data.len() as u64;
                state.blocks.insert(Cid::from(l).to_string(), data);
                (true, Reg::Stored(l))
            }
            (f, b) => (true, Reg::Bad(format!("{} format {:?} body {:?}", line, f, b.map(|x| x.len())))),
        },
        _ => (false, Reg::Bad(line)),
    }
}

fn key_json(kind: WrongKey, right: &Sha256Digest) -> String {
    use libipld::multihash::{Code, Multihash, MultihashDigest};
    let cid: Cid = (*right).into();
    let digest = cid.hash().digest().to_vec();
    let k = match kind {
        WrongKey::Other => Cid::from(Sha256Digest::digest(b"something else")).to_string(),
        WrongKey::RawCodec => Cid::new_v1(0x55, *cid.hash()).to_string(),
        WrongKey::PbCodec => Cid::new_v1(0x70, *cid.hash()).to_string(),
        WrongKey::V0 => Cid::new_v0(*cid.hash()).map(|x| x.to_string()).unwrap_or_default(),
        WrongKey::Sha512 => Cid::new_v1(0x71, Code::Sha2_512.digest(&digest)).to_string(),
        WrongKey::Identity => {
            Cid::new_v1(0x71, Multihash::wrap(0, &digest).unwrap()).to_string()
        }
        WrongKey::Short => Cid::new_v1(0x71, Multihash::wrap(0x12, &digest[..20]).unwrap()).to_string(),
        WrongKey::Empty => String::new(),
        WrongKey::Garbage => "no cid at all \u{1F600}".into(),
        WrongKey::Number => return "{\"Key\":17,\"Size\":3}".into(),
        WrongKey::Missing => return "{\"Size\":3}".into(),
        WrongKey::Null => return "{\"Key\":null,\"Size\":3}".into(),
        WrongKey::List => return format!("[\"{}\"]", cid),
        WrongKey::Twice => return format!("{{\"Key\":\"{}\",\"Size\":3}}{{\"Key\":\"{}\",\"Size\":3}}", cid, cid),
    };
    format!("{{\"Key\":\"{}\",\"Size\":3}}", k)
}

fn head(code: u16, framing: Framing, len: usize) -> Vec<u8> {
    let mut h = format!("HTTP/1.1 {} X\r\nContent-Type: text/plain\r\nServer: stub\r\n", code);
    match framing {
        Framing::Length => h += &format!("Content-Length: {}\r\n", len),
        Framing::Chunked(_) => h += "Transfer-Encoding: chunked\r\n",
        Framing::Close => {}
    }
    if code == 301 || code == 302 || code == 307 {
        h += "Location: /elsewhere\r\n";
    }
    h += "Connection: close\r\n\r\n";
    h.into_bytes()
}

/// `cut`: send only so much of the body
fn respond(s: &mut TcpStream, code: u16, framing: Framing, body: &[u8], cut: Option<usize>, frag: u16) -> std::io::Result<()> {
    let mut out = head(code, framing, body.len());
    let end = cut.unwrap_or(body.len()).min(body.len());
    match framing {
        Framing::Length | Framing::Close => out.extend_from_slice(&body[..end]),
        Framing::Chunked(n) => {
            for c in body[..end].chunks(n.max(1) as usize) {
                out.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                out.extend_from_slice(c);
                out.extend_from_slice(b"\r\n");
            }
            if cut.is_none() {
                out.extend_from_slice(b"0\r\n\r\n");
            }
        }
    }
    if frag == 0 {
        s.write_all(&out)?;
    } else {
        for c in out.chunks((frag as usize).max(out.len() / 50)) {
            s.write_all(c)?;
            s.flush()?;
        }
    }
    s.flush()
}

fn decode(x: &str) -> Vec<u8> {
    let b = x.as_bytes();
    let mut res = vec![];
    let mut i = 0;
    while i < b.len() {
        let hex = b.get(i + 1..i + 3).and_then(|x| u8::from_str_radix(std::str::from_utf8(x).ok()?, 16).ok());
        match (b[i], hex) {
            (b'%', Some(h)) => {
                res.push(h);
                i += 3;
            }
            (b'+', _) => {
                res.push(b' ');
                i += 1;
            }
            (x, _) => {
                res.push(x);
                i += 1;
            }
        }
    }
    res
}

fn handle_pubsub(mut s: TcpStream, state: &Arc<Mutex<State>>, ps: PubSub) -> std::io::Result<()> {
    if matches!(
        ps,
        PubSub::Pub(PubAnswer::DropEarly)
            | PubSub::Sub(SubAnswer {
                end: SubEnd::DropEarly,
                ..
            })
    ) {
        return Ok(());
    }
    let (text, _) = read_request(&mut s)?;
    let line = text.lines().next().unwrap_or("").to_string();
    let cmd = match ps {
        PubSub::Pub(_) => "/api/v0/pubsub/pub?",
        PubSub::Sub(_) => "/api/v0/pubsub/sub?",
    };
    let query = match line.split_once(cmd) {
        Some((_, x)) if line.starts_with("POST ") => x.split(' ').next().unwrap_or("").to_string(),
        _ => {
            state.lock().unwrap().odd.push(line);
            return respond(&mut s, 400, Framing::Length, message(400).as_bytes(), None, 0);
        }
    };
    let args: Vec<Vec<u8>> = query.split('&').filter_map(|x| x.strip_prefix("arg=").map(decode)).collect();
    let topic = args.first().cloned().map(String::from_utf8);
    let topic = match (topic, args.len()) {
        (Some(Ok(x)), n) if n == if cmd.contains("pub?") { 2 } else { 1 } => x,
        _ => {
            state.lock().unwrap().odd.push(line);
            return respond(&mut s, 400, Framing::Length, message(400).as_bytes(), None, 0);
        }
    };
    match ps {
        PubSub::Pub(a) => {
            if !matches!(a, PubAnswer::Status { executed: false, .. }) {
                state.lock().unwrap().topics.entry(topic).or_default().push(args[1].clone());
            }
            match a {
                PubAnswer::Ok => respond(&mut s, 200, Framing::Length, &[], None, 0),
                PubAnswer::Status { code, .. } => respond(&mut s, code, Framing::Length, message(code).as_bytes(), None, 0),
                PubAnswer::DropEarly | PubAnswer::DropLate => Ok(()),
                PubAnswer::Reset => {
                    linger(&s);
                    Ok(())
                }
                PubAnswer::CutHead { at } => {
                    let h = head(200, Framing::Length, 0);
                    s.write_all(&h[..(h.len() - 1) * at as usize / 256])?;
                    s.flush()
                }
                PubAnswer::Truncated => respond(&mut s, 200, Framing::Length, b"{}\n", Some(1), 0),
            }
        }
        PubSub::Sub(a) => {
            let events = state.lock().unwrap().topic(&topic);
            let lines = a.lines(&topic, &events);
            let mut body: Vec<u8> = lines.iter().flat_map(|x| x.0.iter().copied()).collect();
            let total = body.len();
            let mut whole = true;
            match a.end {
                SubEnd::Regular => {}
                SubEnd::Truncated { at } | SubEnd::Reset { at } => {
                    body.truncate(total * at as usize / 256);
                    whole = false;
                }
                SubEnd::Status { code, events } => {
                    let b = if events { body } else { message(code).into_bytes() };
                    return respond(&mut s, code, Framing::Chunked(60000), &b, None, 0);
                }
                SubEnd::DropEarly => return Ok(()),
                SubEnd::CutHead { at } => {
                    let h = head(200, Framing::Chunked(1), 0);
                    s.write_all(&h[..(h.len() - 1) * at as usize / 256])?;
                    return s.flush();
                }
            }
            // ends of the chunks
            let mut ends: Vec<usize> = vec![];
            let mut r = match a.cuts {
                Cut::Random(x) => simcore::rng::Rng::new(x),
                _ => simcore::rng::Rng::new(0),
            };
            let mut pos = 0;
            match a.cuts {
                Cut::Events => {
                    for l in &lines {
                        pos += l.0.len();
                        ends.push(pos);
                    }
                }
                Cut::All => {}
                Cut::Every(n) => {
                    let n = (n as usize).max(body.len() / 1000).max(1);
                    ends.extend((0..body.len()).step_by(n));
                }
                Cut::Random(_) => {
                    let max = (1 + r.skewed(400)).max(body.len() as u64 / 200);
                    while pos < body.len() {
                        pos += 1 + r.below(max) as usize;
                        ends.push(pos);
                    }
                }
            }
            ends.push(body.len());
            let mut out = head(200, if a.close { Framing::Close } else { Framing::Chunked(1) }, 0);
            let mut from = 0;
            for e in ends {
                let e = e.min(body.len());
                if e > from {
                    if !a.close {
                        out.extend_from_slice(format!("{:x}\r\n", e - from).as_bytes());
                    }
                    out.extend_from_slice(&body[from..e]);
                    if !a.close {
                        out.extend_from_slice(b"\r\n");
                    }
                    from = e;
                }
            }
            if whole && !a.close {
                out.extend_from_slice(b"0\r\n\r\n");
            }
            s.write_all(&out)?;
            s.flush()?;
            if matches!(a.end, SubEnd::Reset { .. }) {
                linger(&s);
            }
            Ok(())
        }
    }
}

fn handle(mut s: TcpStream, state: &Arc<Mutex<State>>) -> std::io::Result<()> {
    let ps = state.lock().unwrap().pubsub.take();
    if let Some(ps) = ps {
        return handle_pubsub(s, state, ps);
    }
    let answer = {
        let mut st = state.lock().unwrap();
        st.script.pop_front().unwrap_or(OK)
    };
    if answer == Answer::DropEarly {
        state.lock().unwrap().log.push((false, answer));
        return Ok(());
    }
    let (text, body) = match read_request(&mut s) {
        Ok(x) => x,
        Err(e) => {
            state.lock().unwrap().odd.push(format!("incomplete request: {}", e));
            return Err(e);
        }
    };
    let (_, reg) = {
        let mut st = state.lock().unwrap();
        // says what would have been the answer, but does nothing
        let dry = matches!(answer, Answer::Status { code, body: BodyKind::Regular, .. } if code >= 500);
        let before = if dry { Some(st.blocks.clone()) } else { None };
        let r = execute(&mut st, &text, &body);
        if let Some(x) = before {
            st.blocks = x;
        }
        st.log.push((r.0, answer));
        if let Reg::Bad(x) = &r.1 {
            st.odd.push(x.clone());
        }
        r
    };
    let (code, data, link) = match &reg {
        Reg::Data(x) => (200, x.clone(), None),
        Reg::Stored(l) => (200, format!("{{\"Key\":\"{}\",\"Size\":{}}}\n", Cid::from(*l), body.len()).into_bytes(), Some(*l)),
        Reg::NotFound => (500, message(500).into_bytes(), None),
        Reg::Bad(_) => (400, message(400).into_bytes(), None),
    };
    let ok = code == 200;
    match answer {
        Answer::Ok { framing, frag } => respond(&mut s, code, framing, &data, None, frag),
        _ if !ok => respond(&mut s, code, Framing::Length, &data, None, 0),
        Answer::Status { code, body, framing } => {
            let b = match body {
                BodyKind::Message => message(code).into_bytes(),
                BodyKind::Regular => data,
                BodyKind::Empty => vec![],
                BodyKind::Html => b"<html><body>bad gateway</body></html>".to_vec(),
            };
            respond(&mut s, code, framing, &b, None, 0)
        }
        Answer::Truncated { framing, at } => {
            let cut = data.len() * at as usize / 256;
            respond(&mut s, 200, framing, &data, Some(cut), 0)
        }
        Answer::CutHead { at } => {
            let h = head(200, Framing::Length, data.len());
            let n = (h.len() - 1) * at as usize / 256;
            s.write_all(&h[..n])?;
            s.flush()
        }
        Answer::Empty { framing } => respond(&mut s, 200, framing, &[], None, 0),
        Answer::Damaged { at, framing } => {
            let mut d = data;
            if !d.is_empty() {
                let p = at as usize % d.len();
                d[p] ^= 0x20;
            }
            respond(&mut s, 200, framing, &d, None, 0)
        }
        Answer::Longer { n, framing } => {
            let mut d = data;
            d.extend(std::iter::repeat(b'x').take(1 + n as usize));
            respond(&mut s, 200, framing, &d, None, 0)
        }
        Answer::OtherBlock { framing } => {
            let other = {
                let st = state.lock().unwrap();
                st.blocks.values().find(|x| **x != data).cloned().unwrap_or_else(|| b"other".to_vec())
            };
            respond(&mut s, 200, framing, &other, None, 0)
        }
        Answer::DropEarly => Ok(()),
        Answer::DropLate => Ok(()),
        Answer::Reset => {
            // unread data makes the kernel send a reset when closing; there is none, so use linger
            linger(&s);
            Ok(())
        }
        Answer::NotHttp { n } => {
            let x = vec![b'#' + n % 64; 1 + n as usize];
            s.write_all(&x)?;
            s.write_all(b"\r\n\r\n")?;
            s.flush()
        }
        Answer::Key { kind, framing } => match link {
            Some(l) => respond(&mut s, 200, framing, key_json(kind, &l).as_bytes(), None, 0),
            None => respond(&mut s, code, framing, &data, None, 0),
        },
    }
}

fn linger(s: &TcpStream) {
    use std::os::unix::io::AsRawFd;
    #[repr(C)]
    struct Linger {
        on: i32,
        secs: i32,
    }
    extern "C" {
        fn setsockopt(fd: i32, level: i32, name: i32, value: *const Linger, len: u32) -> i32;
    }
    let l = Linger { on: 1, secs: 0 };
    unsafe {
        setsockopt(s.as_raw_fd(), 1, 13, &l, 8);
    }
}
