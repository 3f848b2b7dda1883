//! A model of the broker and the fake clients that drive the real one through loopback sockets.
//! One runtime thread runs the broker and the clients; the broker's clock stands still unless
//! the case moves it. After every operation all packets the clients receive are compared with
//! what the model expects.
use crate::gen;
use crate::hex::short;
use crate::net::*;
use crate::refcodec::{self, *};
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::net::SocketAddr;
use std::time::{Duration, Instant};
use vaux_broker::{Broker, Config};

pub const PORT: u16 = 18830;

// ------------------------------------------------------------------ a fake peer

enum Io {
    Plain(std::net::TcpStream),
    Tls(Box<rustls::StreamOwned<rustls::ClientConnection, std::net::TcpStream>>),
}

impl Io {
    fn tcp(&self) -> &std::net::TcpStream {
        match self {
            Io::Plain(s) => s,
            Io::Tls(s) => &s.sock,
        }
    }
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self {
            Io::Plain(s) => s.write(b),
            Io::Tls(s) => s.write(b),
        }
    }
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match self {
            Io::Plain(s) => s.read(b),
            Io::Tls(s) => {
                // what could not be written before
                let _ = s.flush();
                s.read(b)
            }
        }
    }
}

pub struct Peer {
    io: Option<Io>,
    buf: Vec<u8>,
    at: usize,
    pub eof: bool,
}

impl Peer {
    pub fn connect(addr: SocketAddr) -> Result<Peer, Fail> {
        let io = std::net::TcpStream::connect(addr).map_err(harness("connect"))?;
        Peer::new(io)
    }
    pub fn new(io: std::net::TcpStream) -> Result<Peer, Fail> {
        io.set_nonblocking(true).map_err(harness("nonblocking"))?;
        let _ = io.set_nodelay(true);
        quick_ack(&io);
        Ok(Peer { io: Some(Io::Plain(io)), buf: vec![], at: 0, eof: false })
    }
    /// Connects with TLS
    pub async fn connect_tls(addr: SocketAddr) -> Result<Peer, Fail> {
        let name = "localhost".try_into().map_err(harness("server name"))?;
        Peer::tls_to(addr, name, tls().client.clone()).await
    }
    pub async fn tls_to(
        addr: SocketAddr,
        name: rustls::pki_types::ServerName<'static>,
        cfg: std::sync::Arc<rustls::ClientConfig>,
    ) -> Result<Peer, Fail> {
        let mut p = Peer::connect(addr)?;
        let Some(Io::Plain(io)) = p.io.take() else { return Ok(p) };
        let c = rustls::ClientConnection::new(cfg, name).map_err(harness("tls"))?;
        let mut s = rustls::StreamOwned::new(c, io);
        let w = Wait::new();
        while s.conn.is_handshaking() {
            match s.conn.complete_io(&mut s.sock) {
                Ok(_) => {}
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                Err(e) => return soft(format!("the TLS handshake fails: {e}")),
            }
            if !w.pause().await {
                return soft("the TLS handshake does not complete");
            }
        }
        p.io = Some(Io::Tls(Box::new(s)));
        Ok(p)
    }
    pub async fn open(addr: SocketAddr, tls: bool) -> Result<Peer, Fail> {
        if tls {
            Peer::connect_tls(addr).await
        } else {
            Peer::connect(addr)
        }
    }
    pub fn std(&self) -> Option<&std::net::TcpStream> {
        self.io.as_ref().map(Io::tcp)
    }
    /// false if the other end has closed the connection
    pub async fn send(&mut self, b: &[u8]) -> Result<bool, Fail> {
        let mut at = 0;
        let start = Instant::now();
        while at < b.len() {
            let Some(io) = &mut self.io else { return Ok(false) };
            match io.write(&b[at..]) {
                Ok(n) => at += n,
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    turns(2).await;
                    if start.elapsed() > Duration::from_millis(20) {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                    if start.elapsed() > SOON {
                        return soft("sent bytes are not taken");
                    }
                }
                Err(_) => return Ok(false),
            }
        }
        Ok(true)
    }
    /// As much as the socket takes now
    pub fn send_some(&mut self, b: &[u8]) -> usize {
        let Some(io) = &mut self.io else { return 0 };
        io.write(b).unwrap_or(0)
    }
    /// Takes what has arrived
    pub fn pump(&mut self) {
        let Some(io) = &mut self.io else { return };
        let mut b = [0u8; 16384];
        loop {
            match io.read(&mut b) {
                Ok(0) => {
                    self.eof = true;
                    return;
                }
                Ok(n) => {
                    self.buf.extend_from_slice(&b[..n]);
                    quick_ack(io.tcp());
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => {
                    self.eof = true;
                    return;
                }
            }
        }
    }
    /// The next packet that has arrived
    pub fn next(&mut self) -> Result<Option<Pk>, Fail> {
        Ok(self.next_raw()?.map(|x| x.0))
    }
    pub fn next_raw(&mut self) -> Result<Option<(Pk, Vec<u8>)>, Fail> {
        self.pump();
        match refcodec::decode(&self.buf[self.at..]) {
            Ok((p, n)) => {
                let raw = self.buf[self.at..self.at + n].to_vec();
                self.at += n;
                if self.at > 100_000 {
                    self.buf.drain(..self.at);
                    self.at = 0;
                }
                Ok(Some((p, raw)))
            }
            Err(DecErr::Short) => {
                if self.eof && self.at < self.buf.len() {
                    let rest = &self.buf[self.at..];
                    return hard(format!("the connection ends within a packet: {}", short(rest)));
                }
                Ok(None)
            }
            Err(DecErr::Malformed(e)) => {
                hard(format!("an invalid packet is sent: {e}: {}", short(&self.buf[self.at..])))
            }
        }
    }
    /// Gives up the memory of what was received
    pub fn compact(&mut self) {
        self.buf.drain(..self.at);
        self.buf.shrink_to_fit();
        self.at = 0;
    }
    pub fn buffered(&self) -> usize {
        self.buf.len() - self.at
    }
    /// Waits for the next packet; None at the end of the stream
    pub async fn recv(&mut self, what: &str) -> Result<Option<Pk>, Fail> {
        let w = Wait::new();
        loop {
            if let Some(p) = self.next()? {
                return Ok(Some(p));
            }
            if self.eof {
                return Ok(None);
            }
            if !w.pause().await {
                return soft(format!("{what}: nothing is received"));
            }
        }
    }
    /// Waits for the end of the stream, gives the packets received before it
    pub async fn rest(&mut self, what: &str) -> Result<Vec<Pk>, Fail> {
        let mut v = vec![];
        while let Some(p) = self.recv(what).await? {
            v.push(p);
        }
        Ok(v)
    }
    pub fn fin(&mut self) {
        if let Some(io) = &mut self.io {
            if let Io::Tls(s) = io {
                s.conn.send_close_notify();
                let _ = s.flush();
            }
            let _ = io.tcp().shutdown(std::net::Shutdown::Write);
        }
    }
    pub fn rst(&mut self) {
        if let Some(io) = self.io.take() {
            linger0(io.tcp());
        }
    }
    /// orderly close of both directions
    pub fn close(&mut self) {
        self.io = None;
    }
    pub fn is_open(&self) -> bool {
        self.io.is_some()
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        self.rst();
    }
}

/// Acknowledges at once, or the other end's small writes wait for a timer
pub fn quick_ack(s: &std::net::TcpStream) {
    use std::os::fd::AsRawFd;
    let v: libc::c_int = 1;
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::IPPROTO_TCP,
            libc::TCP_QUICKACK,
            &v as *const _ as *const libc::c_void,
            std::mem::size_of_val(&v) as u32,
        );
    }
}

pub fn linger0(s: &std::net::TcpStream) {
    use std::os::fd::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of_val(&l) as u32,
        );
    }
}

/// Waiting with patience for something other tasks of this thread do
pub struct Wait {
    start: Instant,
    n: std::cell::Cell<u32>,
    patience: Duration,
}

impl Wait {
    pub fn new() -> Wait {
        Wait { start: Instant::now(), n: std::cell::Cell::new(0), patience: SOON }
    }
    pub fn of(patience: Duration) -> Wait {
        Wait { patience, ..Wait::new() }
    }
    /// false when it has taken too long
    pub async fn pause(&self) -> bool {
        turns(3).await;
        let n = self.n.get() + 1;
        self.n.set(n);
        if n > 100 {
            std::thread::sleep(Duration::from_micros(if n > 1000 { 1000 } else { 100 }));
            return self.start.elapsed() < self.patience;
        }
        true
    }
}

/// Lets everything that is under way on this thread complete
pub async fn settle() {
    turns(14).await;
}

pub async fn start_broker(f: impl Fn(&mut Config)) -> Result<(Broker, SocketAddr), Fail> {
    let mut last = String::new();
    for _ in 0..20 {
        let addr = address(PORT);
        let mut cfg = Config { listen_addr: addr, session_channel_size: 2000, ..Config::default() };
        f(&mut cfg);
        let mut b = Broker::new_with_config(cfg);
        match b.run().await {
            Ok(()) => return Ok((b, addr)),
            Err(e) => last = e.to_string(),
        }
    }
    Err(Fail::Harness(format!("the broker does not start: {last}")))
}

// ------------------------------------------------------------------ cases

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Cfg {
    // seconds, what does not fit the packets' fields counts as their maximum
    pub default_ka: u32,
    pub max_ka: u32,
    pub expiry: u64,
    pub max_active: Option<u32>,
}

impl Cfg {
    fn ka(&self, requested: u16) -> u16 {
        let cut = |x: u32| x.min(u16::MAX as u32) as u16;
        requested.clamp(cut(self.default_ka), cut(self.max_ka))
    }
    fn expiry(&self) -> u32 {
        self.expiry.min(u32::MAX as u64) as u32
    }
}


#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Body {
    pub len: u32,
    pub seed: u64,
    pub props: Props,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct WillOp {
    pub topic: u8,
    pub qos: u8,
    pub retain: bool,
    pub delay: Option<u32>,
    pub body: Body,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    Connect {
        slot: u8,
        /// none for an identifier assigned by the broker
        id: Option<u8>,
        clean: bool,
        expiry: Option<u32>,
        ka: u16,
        will: Option<WillOp>,
        login: bool,
    },
    /// 0 DISCONNECT, 1 DISCONNECT with will, 2 DISCONNECT with an error, 3 end of stream, 4 reset,
    /// 5 closed socket
    Close { slot: u8, kind: u8, expiry: Option<u32> },
    Sub { slot: u8, filters: Vec<(u8, u8, bool)> },
    Unsub { slot: u8, filters: Vec<u8> },
    Pub { slot: u8, topic: u8, qos: u8, retain: bool, dup: bool, body: Body },
    Hold { slot: u8, hold: bool },
    /// acknowledge one of the messages held back
    Ack { slot: u8, which: u8 },
    Advance { secs: u32, ping: bool },
    Ping { slot: u8 },
    Violate { slot: u8, kind: u8 },
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    pub cfg: Cfg,
    pub topics: Vec<String>,
    pub filters: Vec<String>,
    /// subscribe everybody to everything first
    pub observer: bool,
    #[serde(default)]
    pub tls: bool,
    pub ops: Vec<Op>,
}

pub const SLOTS: u8 = 4;
pub const IDS: &[&str] = &["alpha", "b", "client/3 ü", "+"];

/// The topic matching rules of MQTT 5, 4.7
pub fn matches(filter: &str, topic: &str) -> bool {
    if topic.starts_with('$') && (filter.starts_with('+') || filter.starts_with('#')) {
        return false;
    }
    let mut f = filter.split('/');
    let mut t = topic.split('/');
    loop {
        match (f.next(), t.next()) {
            (Some("#"), _) => return true,
            (Some("+"), Some(_)) => {}
            (Some(a), Some(b)) if a == b => {}
            (None, None) => return true,
            _ => return false,
        }
    }
}

pub fn valid_filter(f: &str) -> bool {
    let n = f.split('/').count();
    !f.is_empty()
        && f.split('/').enumerate().all(|(i, l)| match l {
            "+" => true,
            "#" => i + 1 == n,
            _ => !l.contains('+') && !l.contains('#'),
        })
}

pub fn valid_topic(t: &str) -> bool {
    !t.is_empty() && !t.contains('+') && !t.contains('#')
}

// ------------------------------------------------------------------ the model

#[derive(Clone, Debug, PartialEq)]
struct Msg {
    topic: String,
    payload: Vec<u8>,
    props: Props,
    retain: bool,
}

/// A message a connection is to receive
#[derive(Clone, Debug)]
struct Due {
    msg: Msg,
    qos: Vec<u8>,
    /// identifier it must have again
    again: Option<u16>,
    optional: bool,
    /// may have been tried before
    dup: bool,
    /// of equal groups any may come first
    group: u64,
}

#[derive(Clone, Debug)]
enum Reply {
    ConnAck { present: bool, refused: bool },
    PubAck(u16),
    /// the packet identifier of a QoS 2 message
    Rec(u16),
    /// to a PUBREC; whether the message is known
    Rel(u16, bool),
    Comp(u16, bool),
    SubAck { id: u16, filters: Vec<Filter> },
    UnsubAck { id: u16, reasons: Vec<u8> },
    Pong,
}

struct Conn {
    peer: Peer,
    session: String,
    /// CONNACK received
    up: bool,
    replies: VecDeque<Reply>,
    due: VecDeque<Due>,
    /// PUBREL to receive again
    rels: Vec<u16>,
    /// closed by the broker: (reason of the DISCONNECT required, DISCONNECT allowed)
    closing: Option<(Option<u8>, bool)>,
    closed: bool,
    ka: u64,
    last_sent: u64,
    requested_ka: u16,
    requested_expiry: u32,
    hold: bool,
    next_id: u16,
}

#[derive(Clone, Debug)]
struct Held {
    msg: Msg,
    qos: u8,
    id: u16,
    /// PUBREC was sent
    released: bool,
}

#[derive(Default)]
struct Sess {
    subs: BTreeMap<String, (u8, bool)>,
    expiry: u64,
    held: Vec<Held>,
    /// QoS 2 messages sent to the broker, not released
    sent: Vec<(u16, Msg)>,
    offline: Vec<(Msg, Vec<u8>)>,
    conn: Option<usize>,
    since: u64,
    will: Option<(Msg, u8, u64)>,
    delayed: Option<(u64, Msg, u8)>,
}

pub struct Sim<'a> {
    case: &'a Case,
    addr: SocketAddr,
    /// milliseconds
    now: u64,
    conns: Vec<Conn>,
    slots: Vec<Option<usize>>,
    sessions: BTreeMap<String, Sess>,
    group: u64,
    /// connections that end in this step, which may or may not receive its messages
    recent: Vec<(usize, String, BTreeMap<String, (u8, bool)>)>,
    serial: u64,
    /// compare the negotiated values with the configuration
    strict: bool,
    obs: &'a mut Obs,
    pub stats: BTreeMap<&'static str, u64>,
}

fn clean_props(p: &Props) -> Props {
    p.iter().filter(|(i, _)| !matches!(i, 0x0b | 0x23 | 0x18)).cloned().collect()
}

pub fn ordered(p: &Props) -> Props {
    let mut p: Props = p
        .iter()
        .filter(|(_, v)| !matches!(v, Val::Bin(b) if b.is_empty()))
        // a payload format indicator of 0 is the same as none
        .filter(|(i, v)| !(*i == 1 && *v == Val::Byte(0)))
        .cloned()
        .collect();
    p.sort_by_key(|(i, _)| *i);
    p
}

impl<'a> Sim<'a> {
    fn stat(&mut self, s: &'static str) {
        *self.stats.entry(s).or_default() += 1;
        self.obs.label(s);
    }

    fn body(&mut self, b: &Body) -> (Vec<u8>, Props) {
        self.serial += 1;
        let mut payload = format!("{}:", self.serial).into_bytes();
        payload.extend(gen::fill(b.len as usize, b.seed));
        (payload, clean_props(&b.props))
    }

    fn who(&self, c: usize) -> String {
        format!("connection {c} of {:?}", self.conns[c].session)
    }

    async fn send(&mut self, c: usize, pk: &Pk) -> Result<(), Fail> {
        self.obs.step();
        let who = self.who(c);
        self.obs.log(|| format!("{who} sends {}", brief(pk)));
        self.conns[c].last_sent = self.now;
        let ok = self.conns[c].peer.send(&pk.encode()).await?;
        if !ok {
            return hard(format!("{who} cannot send {}: closed by the broker", pk.name()));
        }
        Ok(())
    }

    // -------------------------------------------------------------- receiving

    fn absorb(&mut self) -> Result<Vec<(usize, Pk)>, Fail> {
        let mut answers = vec![];
        for c in 0..self.conns.len() {
            if self.conns[c].closed {
                continue;
            }
            let who = self.who(c);
            loop {
                let pk = match self.conns[c].peer.next() {
                    Ok(Some(p)) => p,
                    Ok(None) => break,
                    Err(Fail::Hard(m)) => return hard(format!("{who}: {m}")),
                    Err(f) => return Err(f),
                };
                self.obs.log(|| format!("  {who} receives {}", brief(&pk)));
                if let Some(a) = self.one(c, pk).map_err(|f| match f {
                    Fail::Hard(m) => Fail::Hard(format!("{who}: {m}")),
                    f => f,
                })? {
                    answers.push((c, a));
                }
            }
            if self.conns[c].peer.eof {
                let x = &mut self.conns[c];
                x.closed = true;
                x.peer.rst();
                match x.closing {
                    None => return hard(format!("{who} is closed by the broker without cause")),
                    Some((Some(r), _)) => {
                        return hard(format!("{who} is closed without the DISCONNECT {r:#x}"))
                    }
                    _ => {}
                }
                self.obs.log(|| format!("  {who} is closed"));
                if let Some(r) = self.conns[c].replies.front() {
                    return hard(format!("{who} is closed without the reply {r:?}"));
                }
            }
        }
        Ok(answers)
    }

    fn one(&mut self, c: usize, pk: Pk) -> Result<Option<Pk>, Fail> {
        let up = self.conns[c].up;
        match pk {
            Pk::Publish(p) => {
                if !up {
                    return hard("PUBLISH before CONNACK");
                }
                return self.delivered(c, p);
            }
            Pk::Disconnect { reason, .. } => {
                match self.conns[c].closing {
                    Some((Some(want), _)) if want == reason => {
                        self.conns[c].closing = Some((None, false))
                    }
                    Some((None, true)) if reason >= 0x80 => {
                        self.conns[c].closing = Some((None, false))
                    }
                    w => return hard(format!("DISCONNECT {reason:#x}, expected {w:?}")),
                }
                return Ok(None);
            }
            _ => {}
        }
        if let Pk::Ack { kind: 6, id, reason, .. } = &pk {
            let x = &mut self.conns[c];
            if let Some(i) = x.rels.iter().position(|r| r == id) {
                if !up || *reason != 0 {
                    return hard(format!("{} with reason {reason:#x}, connected: {up}", brief(&pk)));
                }
                x.rels.remove(i);
                self.stat("PUBREL sent again");
                return Ok(self.finish(c, *id));
            }
        }
        let Some(want) = self.conns[c].replies.pop_front() else {
            return hard(format!("unexpected {}", brief(&pk)));
        };
        if !up && !matches!(pk, Pk::ConnAck { .. }) {
            return hard(format!("{} before CONNACK", pk.name()));
        }
        match (&want, &pk) {
            (Reply::ConnAck { present, refused }, Pk::ConnAck { present: p, reason, props }) => {
                if *refused != (*reason >= 0x80) {
                    return hard(format!("CONNACK {reason:#x}, expected refusal: {refused}"));
                }
                if *refused {
                    if *p {
                        return hard("session present in a refusing CONNACK");
                    }
                    return Ok(None);
                }
                if *reason != 0 {
                    return hard(format!("CONNACK reason {reason:#x}"));
                }
                if p != present {
                    return hard(format!("session present is {p}, expected {present}"));
                }
                let x = &mut self.conns[c];
                x.up = true;
                let ka = match prop(props, 0x13) {
                    Some(Val::U16(k)) => *k,
                    _ => x.requested_ka,
                };
                if self.strict {
                    let cfg = &self.case.cfg;
                    let want = cfg.ka(x.requested_ka);
                    if ka != want {
                        return hard(format!(
                            "keep alive {ka} is in force, expected {want} for the requested {}",
                            x.requested_ka
                        ));
                    }
                }
                x.ka = ka as u64 * 1500;
                let expiry = match prop(props, 0x11) {
                    Some(Val::U32(e)) => *e,
                    _ => x.requested_expiry,
                };
                if self.strict {
                    let want = x.requested_expiry.min(self.case.cfg.expiry());
                    if expiry != want {
                        return hard(format!(
                            "session expiry interval {expiry} is in force, expected {want} for the requested {}",
                            x.requested_expiry
                        ));
                    }
                }
                let assigned = match prop(props, 0x12) {
                    Some(Val::Str(s)) => Some(s.clone()),
                    _ => None,
                };
                let mut id = x.session.clone();
                match assigned {
                    Some(a) if id.starts_with('\u{1}') => {
                        // assigned by the broker
                        if a.is_empty() || self.sessions.contains_key(&a) {
                            return hard(format!("assigned client identifier {a:?} is in use"));
                        }
                        if let Some(s) = self.sessions.remove(&id) {
                            self.sessions.insert(a.clone(), s);
                        }
                        self.conns[c].session = a.clone();
                        id = a;
                    }
                    None if id.starts_with('\u{1}') => {
                        return hard("no client identifier is assigned")
                    }
                    Some(a) => return hard(format!("client identifier {a:?} assigned to {id:?}")),
                    None => {}
                }
                if let Some(s) = self.sessions.get_mut(&id) {
                    s.expiry = expiry as u64 * 1000;
                }
                Ok(None)
            }
            (Reply::PubAck(id), Pk::Ack { kind: 4, id: i, reason, .. }) => {
                if id != i || (*reason != 0 && *reason != 0x10) {
                    return hard(format!("PUBACK {i} reason {reason:#x}, expected {id}"));
                }
                Ok(None)
            }
            (Reply::Rec(id), Pk::Ack { kind: 5, id: i, reason, .. }) => {
                if id != i || (*reason != 0 && *reason != 0x10) {
                    return hard(format!("PUBREC {i} reason {reason:#x}, expected {id}"));
                }
                let x = &self.conns[c];
                if x.hold || x.closing.is_some() {
                    return Ok(None);
                }
                let session = x.session.clone();
                if let Some(s) = self.sessions.get_mut(&session) {
                    s.sent.retain(|(i, _)| i != id);
                }
                self.conns[c].replies.push_back(Reply::Comp(*id, true));
                self.stat("QoS 2 message released");
                Ok(Some(Pk::Ack { kind: 6, id: *id, reason: 0, props: vec![] }))
            }
            (Reply::Comp(id, known), Pk::Ack { kind: 7, id: i, reason, .. }) => {
                if id != i || (*reason != 0 && (*known || *reason != 0x92)) {
                    return hard(format!("PUBCOMP {i} reason {reason:#x}, expected {want:?}"));
                }
                Ok(None)
            }
            (Reply::Rel(id, known), Pk::Ack { kind: 6, id: i, reason, .. }) => {
                if id != i || (*reason != 0 && (*known || *reason != 0x92)) {
                    return hard(format!("PUBREL {i} reason {reason:#x}, expected {want:?}"));
                }
                Ok(if *known { self.finish(c, *id) } else { None })
            }
            (Reply::SubAck { id, filters }, Pk::SubAck { id: i, reasons, .. }) => {
                if id != i || filters.len() != reasons.len() {
                    return hard(format!("SUBACK {i} with {reasons:?} for {id} with {filters:?}"));
                }
                let session = self.conns[c].session.clone();
                for (f, r) in filters.iter().zip(reasons) {
                    if !valid_filter(&f.filter) {
                        if *r < 0x80 {
                            return hard(format!("invalid filter {:?} is granted", f.filter));
                        }
                        continue;
                    }
                    if *r > f.qos {
                        return hard(format!("SUBACK {r:#x} for {:?} at QoS {}", f.filter, f.qos));
                    }
                    if let Some(s) = self.sessions.get_mut(&session) {
                        s.subs.insert(f.filter.clone(), (*r, f.no_local));
                    }
                }
                Ok(None)
            }
            (Reply::UnsubAck { id, reasons }, Pk::UnsubAck { id: i, reasons: r, .. }) => {
                if id != i || reasons != r {
                    return hard(format!("UNSUBACK {i} {r:x?}, expected {id} {reasons:x?}"));
                }
                Ok(None)
            }
            (Reply::Pong, Pk::PingResp) => Ok(None),
            _ => hard(format!("{}, expected {want:?}", brief(&pk))),
        }
    }

    /// After a PUBREL
    fn finish(&mut self, c: usize, id: u16) -> Option<Pk> {
        if self.conns[c].hold || self.conns[c].closing.is_some() {
            return None;
        }
        let session = self.conns[c].session.clone();
        self.sessions.get_mut(&session)?.held.retain(|h| h.id != id);
        self.stat("QoS 2 delivery completed");
        Some(Pk::Ack { kind: 7, id, reason: 0, props: vec![] })
    }

    fn delivered(&mut self, c: usize, p: refcodec::Publish) -> Result<Option<Pk>, Fail> {
        let got = Msg {
            topic: p.topic.clone(),
            payload: p.payload.clone(),
            props: ordered(&p.props),
            retain: p.retain,
        };
        fn fits(d: &Due, got: &Msg, p: &refcodec::Publish) -> Result<(), String> {
            let m = &d.msg;
            if m.payload != got.payload {
                return Err(format!("payload {}, expected {}", short(&got.payload), short(&m.payload)));
            }
            if m.topic != got.topic {
                return Err(format!("topic {:?}, expected {:?}", got.topic, m.topic));
            }
            let want = ordered(&m.props);
            // what remains of the expiry of a message sent again is not judged
            let strip = |p: &Props| -> Props {
                p.iter().filter(|(i, _)| !(d.again.is_some() && *i == 2)).cloned().collect()
            };
            if strip(&want) != strip(&got.props) {
                return Err(format!("properties {:?}, expected {want:?}", got.props));
            }
            if !d.qos.contains(&p.qos) {
                return Err(format!("QoS {}, expected {:?}", p.qos, d.qos));
            }
            if got.retain && !m.retain {
                return Err("RETAIN is set".into());
            }
            match d.again {
                Some(id) if p.id != id => {
                    return Err(format!("sent again with identifier {}, was {id}", p.id))
                }
                Some(_) if !p.dup => return Err("sent again without DUP".into()),
                None if p.dup && !d.dup => return Err("DUP is set the first time".into()),
                _ => Ok(()),
            }
        }
        let mut why = vec![];
        let mut found = None;
        let mut group = None;
        for (i, d) in self.conns[c].due.iter().enumerate() {
            if group.is_some_and(|g| g != d.group) {
                break;
            }
            match fits(d, &got, &p) {
                Ok(()) => {
                    found = Some(i);
                    break;
                }
                Err(e) => why.push(e),
            }
            if !d.optional {
                // nothing of a later group before this one
                group = Some(d.group);
            }
        }
        let Some(i) = found else {
            return if why.is_empty() {
                hard(format!("unexpected message {}", brief(&Pk::Publish(p))))
            } else {
                hard(format!("message {}: {}", brief(&Pk::Publish(p)), why.join("; or ")))
            };
        };
        let g = self.conns[c].due[i].group;
        let d = self.conns[c].due.remove(i).expect("index");
        // optional copies of earlier messages will not come any more
        self.conns[c].due.retain(|d| !d.optional || d.group >= g);
        self.stat("message delivered");
        if p.qos == 0 {
            return Ok(None);
        }
        if p.id == 0 {
            return hard("packet identifier 0");
        }
        let hold = self.conns[c].hold || self.conns[c].closing.is_some();
        let session = self.conns[c].session.clone();
        let Some(s) = self.sessions.get_mut(&session) else {
            // ended meanwhile
            return Ok(None);
        };
        if d.again.is_none() {
            if s.held.iter().any(|h| h.id == p.id) {
                return hard(format!("packet identifier {} is in use", p.id));
            }
            s.held.push(Held { msg: d.msg, qos: p.qos, id: p.id, released: false });
        }
        if hold {
            return Ok(None);
        }
        if p.qos == 2 {
            for h in s.held.iter_mut().filter(|h| h.id == p.id) {
                h.released = true;
            }
            self.conns[c].replies.push_back(Reply::Rel(p.id, true));
            return Ok(Some(Pk::Ack { kind: 5, id: p.id, reason: 0, props: vec![] }));
        }
        s.held.retain(|h| h.id != p.id);
        self.conns[c].last_sent = self.now;
        Ok(Some(Pk::Ack { kind: 4, id: p.id, reason: 0, props: vec![] }))
    }

    fn open_expectations(&self) -> Option<String> {
        for c in 0..self.conns.len() {
            let x = &self.conns[c];
            if x.closed {
                continue;
            }
            if let Some(r) = x.replies.front() {
                return Some(format!("{} does not receive {r:?}", self.who(c)));
            }
            if let Some(d) = x.due.iter().find(|d| !d.optional) {
                return Some(format!(
                    "{} does not receive the message {} on {:?}{}",
                    self.who(c),
                    short(&d.msg.payload),
                    d.msg.topic,
                    if d.again.is_some() { " again" } else { "" }
                ));
            }
            if let Some(id) = x.rels.first() {
                return Some(format!("{} does not receive PUBREL {id} again", self.who(c)));
            }
            if let Some(w) = x.closing {
                return Some(format!("{} is not closed, expected {w:x?}", self.who(c)));
            }
        }
        None
    }

    /// Waits until everything expected has happened, and looks for what is not expected
    async fn check(&mut self) -> Res {
        let w = Wait::new();
        loop {
            let answers = self.absorb()?;
            let answered = !answers.is_empty();
            for (c, a) in answers {
                self.send(c, &a).await?;
            }
            match self.open_expectations() {
                None if !answered => break,
                None => {}
                Some(what) => {
                    if !w.pause().await {
                        return soft(what);
                    }
                }
            }
        }
        settle().await;
        for (c, a) in self.absorb()? {
            self.send(c, &a).await?;
        }
        settle().await;
        Ok(())
    }

    // -------------------------------------------------------------- what the broker has to do

    /// A message to everybody subscribed; `from` the publishing session
    fn route(&mut self, msg: &Msg, qos: u8, from: &str, group: u64) {
        let mut n = 0;
        for (id, s) in self.sessions.iter_mut() {
            let granted: Vec<u8> = s
                .subs
                .iter()
                .filter(|(f, (_, nl))| matches(f, &msg.topic) && !(*nl && id == from))
                .map(|(_, (q, _))| (*q).min(qos))
                .collect();
            if granted.is_empty() {
                continue;
            }
            n += 1;
            let max = granted.iter().copied().max().unwrap_or(0);
            match s.conn {
                Some(c) if self.recent.iter().any(|r| r.0 == c) => {
                    s.offline.push((msg.clone(), granted));
                }
                Some(c) => {
                    // at least one copy, at most one for each subscription
                    for i in 0..granted.len() {
                        self.conns[c].due.push_back(Due {
                            msg: msg.clone(),
                            qos: if granted.len() == 1 { vec![max] } else { granted.clone() },
                            again: None,
                            optional: i > 0,
                            dup: false,
                            group,
                        });
                    }
                }
                None if max > 0 => s.offline.push((msg.clone(), granted)),
                None => {}
            }
        }
        for (c, id, subs) in &self.recent {
            for (_, (q, _)) in subs.iter().filter(|(f, (_, nl))| matches(f, &msg.topic) && !(*nl && id == from)) {
                self.conns[*c].due.push_back(Due {
                    msg: msg.clone(),
                    qos: vec![(*q).min(qos)],
                    again: None,
                    optional: true,
                    dup: false,
                    group,
                });
            }
        }
        if n > 1 {
            self.stat("message to several sessions");
        } else if n == 0 {
            self.stat("message to nobody");
        }
    }

    fn group(&mut self) -> u64 {
        self.group += 1;
        self.group
    }

    fn end_session(&mut self, id: &str) {
        self.sessions.remove(id);
    }

    /// The connection of a session has ended, not by takeover
    fn ended(&mut self, c: usize, with_will: bool, group: u64) {
        let id = self.conns[c].session.clone();
        let now = self.now;
        let Some(s) = self.sessions.get_mut(&id) else { return };
        if s.conn != Some(c) {
            return;
        }
        s.conn = None;
        s.since = now;
        let will = s.will.take().filter(|_| with_will);
        let expiry = s.expiry;
        if let Some((msg, qos, delay)) = will {
            let delay = delay.min(expiry);
            if delay == 0 {
                // the session's own subscriptions: it is not connected any more
                self.stat("will published");
                let mut own = None;
                if expiry == 0 {
                    own = self.sessions.remove(&id);
                }
                self.route(&msg, qos, "", group);
                if let Some(s) = own {
                    self.sessions.insert(id.clone(), s);
                }
            } else {
                self.stat("will delayed");
                if let Some(s) = self.sessions.get_mut(&id) {
                    s.delayed = Some((now + delay, msg, qos));
                }
            }
        }
        if expiry == 0 {
            self.end_session(&id);
        }
    }

    /// The broker has to close the connection
    fn expect_close(&mut self, c: usize, disconnect: Option<u8>, allowed: bool) {
        self.conns[c].closing = Some((disconnect, allowed));
        self.slots.iter_mut().filter(|s| **s == Some(c)).for_each(|s| *s = None);
    }

    fn expire(&mut self) {
        let now = self.now;
        self.sessions
            .retain(|_, s| s.conn.is_some() || s.delayed.is_some() || now < s.since + s.expiry);
    }

    // -------------------------------------------------------------- time

    fn deadlines(&self) -> Vec<u64> {
        let mut d = vec![];
        for s in self.sessions.values() {
            match s.conn {
                Some(c) if self.conns[c].up && self.conns[c].ka > 0 => {
                    d.push(self.conns[c].last_sent + self.conns[c].ka)
                }
                Some(_) => {}
                None => d.push(s.since + s.expiry),
            }
            if let Some((t, _, _)) = &s.delayed {
                d.push(*t);
            }
        }
        d
    }

    async fn step_to(&mut self, t: u64) {
        if t > self.now {
            tokio::time::advance(Duration::from_millis(t - self.now)).await;
            self.now = t;
            settle().await;
        }
    }

    async fn fire(&mut self) -> Res {
        let now = self.now;
        let group = self.group();
        // wills first: they are due whatever happens to their sessions
        let due: Vec<String> = self
            .sessions
            .iter()
            .filter(|(_, s)| s.delayed.as_ref().is_some_and(|d| d.0 <= now))
            .map(|(i, _)| i.clone())
            .collect();
        let mut expired = vec![];
        for c in 0..self.conns.len() {
            let x = &self.conns[c];
            let alive = self.sessions.get(&x.session).is_some_and(|s| s.conn == Some(c));
            if alive && x.up && x.ka > 0 && x.last_sent + x.ka <= now {
                expired.push(c);
            }
        }
        self.recent = expired
            .iter()
            .map(|c| {
                let id = self.conns[*c].session.clone();
                let subs = self.sessions.get(&id).map(|s| s.subs.clone()).unwrap_or_default();
                (*c, id, subs)
            })
            .collect();
        for id in due {
            if let Some((_, msg, qos)) = self.sessions.get_mut(&id).and_then(|s| s.delayed.take()) {
                self.stat("delayed will published");
                self.route(&msg, qos, "", group);
            }
        }
        for c in &expired {
            self.stat("keep alive expired");
            self.expect_close(*c, Some(0x8d), true);
        }
        for c in &expired {
            self.ended(*c, true, group);
        }
        self.recent.clear();
        for c in &expired {
            // a connection that ends within a message cannot say why
            if !self.conns[*c].due.is_empty() {
                self.conns[*c].closing = Some((None, true));
            }
        }
        self.expire();
        self.check().await
    }

    async fn advance(&mut self, d: u64, ping: bool) -> Res {
        let mut target = self.now + d;
        let mut n = 0;
        loop {
            n += 1;
            if n > 8000 {
                return Err(Fail::Harness("time does not pass".into()));
            }
            if ping {
                // everybody stays connected
                for c in 0..self.conns.len() {
                    let x = &self.conns[c];
                    let alive = self.sessions.get(&x.session).is_some_and(|s| s.conn == Some(c));
                    if alive && x.up && x.ka > 0 && self.now >= x.last_sent + x.ka / 2 {
                        self.conns[c].replies.push_back(Reply::Pong);
                        self.send(c, &Pk::PingReq).await?;
                    }
                }
                self.check().await?;
                let next = self
                    .conns
                    .iter()
                    .enumerate()
                    .filter(|(c, x)| {
                        self.sessions.get(&x.session).is_some_and(|s| s.conn == Some(*c))
                            && x.up
                            && x.ka > 0
                    })
                    .map(|(_, x)| x.last_sent + x.ka / 2 + 1)
                    .min();
                let dead = self.deadlines().into_iter().filter(|t| *t > self.now).min();
                if let Some(p) = next {
                    if p < target && dead.is_none_or(|t| p + 60 < t) {
                        self.step_to(p).await;
                        continue;
                    }
                }
            }
            let next = self.deadlines().into_iter().filter(|t| *t > self.now).min();
            match next {
                Some(t) if t <= target + 60 => {
                    if t > self.now + 60 {
                        self.step_to(t - 50).await;
                        // nothing yet
                        self.check().await?;
                    }
                    let mut at = t + 50;
                    while self.deadlines().iter().any(|d| d.abs_diff(at) <= 5) {
                        at += 11;
                    }
                    self.step_to(at).await;
                    target = target.max(at);
                    self.fire().await?;
                }
                _ => {
                    self.step_to(target).await;
                    return self.check().await;
                }
            }
        }
    }

    // -------------------------------------------------------------- operations

    async fn op(&mut self, op: &Op) -> Res {
        let live = |s: &Self, slot: u8| s.slots[slot as usize % s.slots.len()];
        match op {
            Op::Connect { slot, id, clean, expiry, ka, will, login } => {
                if live(self, *slot).is_some() {
                    return Ok(());
                }
                self.connect(*slot, *id, *clean, *expiry, *ka, will.as_ref(), *login).await
            }
            Op::Close { slot, kind, expiry } => {
                let Some(c) = live(self, *slot) else { return Ok(()) };
                self.close(c, *kind, *expiry).await
            }
            Op::Sub { slot, filters } => {
                let Some(c) = live(self, *slot) else { return Ok(()) };
                if filters.is_empty() {
                    return Ok(());
                }
                let filters: Vec<Filter> = filters
                    .iter()
                    .map(|(i, q, nl)| Filter {
                        filter: self.case.filters[*i as usize % self.case.filters.len()].clone(),
                        qos: *q,
                        no_local: *nl,
                        rap: *i % 2 == 0,
                        rh: *i % 3,
                    })
                    .collect();
                let id = self.next_id(c);
                self.conns[c].replies.push_back(Reply::SubAck { id, filters: filters.clone() });
                self.stat("subscribe");
                self.send(c, &Pk::Subscribe { id, props: vec![], filters }).await?;
                self.check().await
            }
            Op::Unsub { slot, filters } => {
                let Some(c) = live(self, *slot) else { return Ok(()) };
                if filters.is_empty() {
                    return Ok(());
                }
                let filters: Vec<String> = filters
                    .iter()
                    .map(|i| self.case.filters[*i as usize % self.case.filters.len()].clone())
                    .collect();
                let id = self.next_id(c);
                let session = self.conns[c].session.clone();
                let mut reasons = vec![];
                for f in &filters {
                    let had =
                        self.sessions.get_mut(&session).is_some_and(|s| s.subs.remove(f).is_some());
                    reasons.push(if had { 0 } else { 0x11 });
                    self.stat(if had { "unsubscribe" } else { "unsubscribe, no subscription" });
                }
                self.conns[c].replies.push_back(Reply::UnsubAck { id, reasons });
                self.send(c, &Pk::Unsubscribe { id, props: vec![], filters }).await?;
                self.check().await
            }
            Op::Pub { slot, topic, qos, retain, dup, body } => {
                let Some(c) = live(self, *slot) else { return Ok(()) };
                let from = self.conns[c].session.clone();
                let again = match self.sessions.get(&from) {
                    Some(s) if *qos == 2 && *dup && !s.sent.is_empty() => {
                        Some(s.sent[*topic as usize % s.sent.len()].clone())
                    }
                    _ => None,
                };
                let (id, msg) = match again {
                    // not to be passed on again
                    Some((id, msg)) => {
                        self.stat("QoS 2 message repeated");
                        (id, msg)
                    }
                    None => {
                        let topic = self.case.topics[*topic as usize % self.case.topics.len()].clone();
                        let (payload, props) = self.body(body);
                        let msg = Msg { topic, payload, props, retain: *retain };
                        let id = if *qos > 0 { self.next_id(c) } else { 0 };
                        if let (2, Some(s)) = (*qos, self.sessions.get_mut(&from)) {
                            s.sent.push((id, msg.clone()));
                        }
                        let group = self.group();
                        self.route(&msg, *qos, &from, group);
                        (id, msg)
                    }
                };
                match *qos {
                    0 => {}
                    1 => self.conns[c].replies.push_back(Reply::PubAck(id)),
                    _ => self.conns[c].replies.push_back(Reply::Rec(id)),
                }
                self.stat(["publish QoS 0", "publish QoS 1", "publish QoS 2"][*qos as usize]);
                self.send(
                    c,
                    &Pk::Publish(refcodec::Publish {
                        dup: *dup && *qos > 0,
                        qos: *qos,
                        retain: msg.retain,
                        topic: msg.topic.clone(),
                        id,
                        props: msg.props.clone(),
                        payload: msg.payload.clone(),
                    }),
                )
                .await?;
                // processed when the ping is answered
                self.conns[c].replies.push_back(Reply::Pong);
                self.send(c, &Pk::PingReq).await?;
                self.check().await
            }
            Op::Hold { slot, hold } => {
                if let Some(c) = live(self, *slot) {
                    self.conns[c].hold = *hold;
                }
                Ok(())
            }
            Op::Ack { slot, which } => {
                // of somebody who has something to acknowledge, mostly
                let any = |c: &usize| {
                    let s = self.sessions.get(&self.conns[*c].session);
                    s.is_some_and(|s| s.held.len() + s.sent.len() > 0)
                };
                let other = (0..SLOTS).filter_map(|i| live(self, slot.wrapping_add(i))).find(any);
                let c = match (other, live(self, *slot)) {
                    (Some(c), _) if *which < 230 => c,
                    (_, Some(c)) => c,
                    _ => return Ok(()),
                };
                let session = self.conns[c].session.clone();
                let Some(s) = self.sessions.get_mut(&session) else { return Ok(()) };
                let n = s.held.len() + s.sent.len();
                let which = *which as usize;
                if n == 0 {
                    // of no message
                    let id = 1 + *slot as u16 + (which as u16) * 250;
                    match which % 4 {
                        0 => {
                            self.conns[c].replies.push_back(Reply::Comp(id, false));
                            self.send(c, &Pk::Ack { kind: 6, id, reason: 0, props: vec![] }).await?;
                        }
                        1 => {
                            self.conns[c].replies.push_back(Reply::Rel(id, false));
                            self.send(c, &Pk::Ack { kind: 5, id, reason: 0, props: vec![] }).await?;
                        }
                        k => {
                            let kind = [4, 7][k - 2];
                            self.send(c, &Pk::Ack { kind, id, reason: 0, props: vec![] }).await?;
                        }
                    }
                    self.stat("acknowledgement of nothing");
                    return self.check().await;
                }
                let (i, how) = (which % n, which / n % 4);
                let props = match (which ^ *slot as usize) % 3 {
                    0 => vec![(0x1f, Val::Str("why".into())), (0x26, Val::Pair("k".into(), "v".into()))],
                    _ => vec![],
                };
                let ack = |kind, id, reason| Pk::Ack { kind, id, reason, props: props.clone() };
                let refusal = [0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99][which % 7];
                let pk = if i >= s.held.len() {
                    let (id, _) = s.sent.remove(i - s.held.len());
                    self.conns[c].replies.push_back(Reply::Comp(id, true));
                    self.stat("late PUBREL");
                    ack(6, id, 0)
                } else {
                    let h = &mut s.held[i];
                    let id = h.id;
                    match (h.qos, h.released, how) {
                        (1, ..) => {
                            s.held.remove(i);
                            self.stat(if how == 3 { "message refused" } else { "late acknowledgement" });
                            ack(4, id, [0, 0, 0x10, refusal][how])
                        }
                        (_, false, 3) => {
                            s.held.remove(i);
                            self.stat("QoS 2 message refused");
                            ack(5, id, refusal)
                        }
                        (_, false, _) | (_, true, 3) => {
                            h.released = true;
                            self.conns[c].replies.push_back(Reply::Rel(id, true));
                            self.stat("late PUBREC");
                            ack(5, id, if how == 2 { 0x10 } else { 0 })
                        }
                        (_, true, _) => {
                            s.held.remove(i);
                            self.stat("late PUBCOMP");
                            ack(7, id, 0)
                        }
                    }
                };
                self.send(c, &pk).await?;
                self.check().await
            }
            Op::Advance { secs, ping } => {
                self.stat("time passes");
                // odd milliseconds keep apart what happens at different times
                self.advance(*secs as u64 * 1000 + 7, *ping).await
            }
            Op::Ping { slot } => {
                let Some(c) = live(self, *slot) else { return Ok(()) };
                self.conns[c].replies.push_back(Reply::Pong);
                self.send(c, &Pk::PingReq).await?;
                self.check().await
            }
            Op::Violate { slot, kind } => {
                let Some(c) = live(self, *slot) else { return Ok(()) };
                self.violate(c, *kind).await
            }
        }
    }

    fn next_id(&mut self, c: usize) -> u16 {
        let x = &mut self.conns[c];
        let sent = self.sessions.get(&x.session).map(|s| s.sent.as_slice()).unwrap_or_default();
        loop {
            x.next_id = x.next_id.checked_add(1).unwrap_or(1);
            if !sent.iter().any(|(id, _)| *id == x.next_id) {
                return x.next_id;
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    async fn connect(
        &mut self,
        slot: u8,
        id: Option<u8>,
        clean: bool,
        expiry: Option<u32>,
        ka: u16,
        will: Option<&WillOp>,
        login: bool,
    ) -> Res {
        self.expire();
        let c = self.conns.len();
        let session = match id {
            Some(i) => IDS[i as usize % IDS.len()].to_string(),
            None => format!("\u{1}{c}"),
        };
        let group = self.group();
        let will = will.map(|w| {
            let topic = self.case.topics[w.topic as usize % self.case.topics.len()].clone();
            let (mut payload, mut props) = self.body(&w.body);
            // binary data
            payload.truncate(65_535);
            props.retain(|(i, _)| allowed(At::Will).iter().any(|(j, _)| i == j));
            (Msg { topic, payload, props, retain: w.retain }, w.qos, w.delay)
        });
        let existing = self.sessions.get(&session);
        let active = self.sessions.values().filter(|s| s.conn.is_some()).count() as u32;
        let owner = existing.and_then(|s| s.conn);
        let refused =
            owner.is_none() && self.case.cfg.max_active.is_some_and(|max| active >= max);
        let mut props = vec![];
        if let Some(e) = expiry {
            props.push((0x11, Val::U32(e)));
        }
        let pk = Pk::Connect(refcodec::Connect {
            clean,
            keep_alive: ka,
            props,
            client_id: if id.is_some() { session.clone() } else { String::new() },
            will: will.as_ref().map(|(m, q, d)| Will {
                qos: *q,
                retain: m.retain,
                props: {
                    let mut p = m.props.clone();
                    if let Some(d) = d {
                        p.push((0x18, Val::U32(*d)));
                    }
                    p
                },
                topic: m.topic.clone(),
                payload: m.payload.clone(),
            }),
            username: login.then(|| "user".to_string()),
            password: login.then(Vec::new),
        });
        self.conns.push(Conn {
            peer: Peer::open(self.addr, self.case.tls).await?,
            session: session.clone(),
            up: false,
            replies: VecDeque::new(),
            due: VecDeque::new(),
            rels: vec![],
            closing: None,
            closed: false,
            ka: 0,
            last_sent: self.now,
            requested_ka: ka,
            requested_expiry: expiry.unwrap_or(0),
            hold: false,
            next_id: 0,
        });
        if refused {
            self.stat("refused at capacity");
            self.conns[c].replies.push_back(Reply::ConnAck { present: false, refused: true });
            self.conns[c].closing = Some((None, true));
            self.send(c, &pk).await?;
            return self.check().await;
        }
        let ends = owner.is_some() && existing.is_some_and(|s| s.expiry == 0);
        let present = existing.is_some() && !clean && !ends;
        if let Some(old) = owner {
            self.stat(if present { "takeover, resumed" } else { "takeover, session ends" });
            self.expect_close(old, Some(0x8e), true);
            let mut due = None;
            if let Some(s) = self.sessions.get_mut(&session) {
                s.conn = None;
                if let Some((msg, qos, delay)) = s.will.take() {
                    if !present || delay == 0 {
                        due = Some((msg, qos));
                    }
                }
            }
            if !present {
                self.end_session(&session);
            }
            if let Some((msg, qos)) = due {
                // published while the session changes hands: the new connection of a resumed
                // session may or may not receive it
                self.stat("will published by takeover");
                let mine = self.sessions.get(&session).map(|s| s.subs.clone());
                if let Some(s) = self.sessions.get_mut(&session) {
                    s.subs.clear();
                }
                self.route(&msg, qos, "", group);
                if let (Some(s), Some(subs)) = (self.sessions.get_mut(&session), mine) {
                    let granted: Vec<u8> = subs
                        .iter()
                        .filter(|(f, _)| matches(f, &msg.topic))
                        .map(|(_, (q, _))| (*q).min(qos))
                        .collect();
                    s.subs = subs;
                    for _ in 0..granted.len() {
                        self.conns[c].due.push_back(Due {
                            msg: msg.clone(),
                            qos: granted.clone(),
                            again: None,
                            optional: true,
                            dup: true,
                            group: group + 1_000_000,
                        });
                    }
                }
            }
        } else if present {
            self.stat("session resumed");
        } else if existing.is_some() {
            self.stat("session replaced");
            let delayed = self.sessions.get_mut(&session).and_then(|s| s.delayed.take());
            self.end_session(&session);
            if let Some((_, msg, qos)) = delayed {
                // the session ends before the delay has passed
                self.stat("delayed will of a replaced session");
                self.route(&msg, qos, "", group);
            }
        } else {
            self.stat("session created");
        }
        let s = self.sessions.entry(session.clone()).or_default();
        s.conn = Some(c);
        s.delayed = None;
        s.will = will.map(|(m, q, d)| (m, q, d.unwrap_or(0) as u64 * 1000));
        s.expiry = expiry.unwrap_or(0) as u64 * 1000;
        // what was not acknowledged comes again, in order
        let mut again: VecDeque<Due> = VecDeque::new();
        let mut base = self.group + 1;
        self.conns[c].rels = s.held.iter().filter(|h| h.released).map(|h| h.id).collect();
        for h in s.held.iter().filter(|h| !h.released) {
            again.push_back(Due {
                msg: h.msg.clone(),
                qos: vec![h.qos],
                again: Some(h.id),
                optional: false,
                dup: true,
                group: base,
            });
            base += 1;
        }
        if !again.is_empty() {
            *self.stats.entry("messages sent again").or_default() += 1;
            self.obs.label("messages sent again");
        }
        for (m, q) in s.offline.drain(..) {
            // queueing for sessions that are not connected is a known gap
            for _ in 0..q.len() {
                again.push_back(Due {
                    msg: m.clone(),
                    qos: q.clone(),
                    again: None,
                    optional: true,
                    dup: true,
                    group: base,
                });
            }
            base += 1;
        }
        self.group = base;
        again.append(&mut self.conns[c].due);
        self.conns[c].due = again;
        self.conns[c].replies.push_back(Reply::ConnAck { present, refused: false });
        self.slots[slot as usize % SLOTS as usize] = Some(c);
        self.send(c, &pk).await?;
        self.check().await?;
        // a will at a takeover is only certain not to come any more
        self.conns[c].due.retain(|d| d.group < 1_000_000);
        Ok(())
    }

    async fn close(&mut self, c: usize, kind: u8, expiry: Option<u32>) -> Res {
        let group = self.group();
        let session = self.conns[c].session.clone();
        let kind = kind % 6;
        self.stat(
            ["DISCONNECT", "DISCONNECT with will", "DISCONNECT error", "end of stream", "reset", "closed"]
                [kind as usize],
        );
        match kind {
            0..=2 => {
                let mut props = vec![];
                if let (Some(e), Some(s)) = (expiry, self.sessions.get_mut(&session)) {
                    // may not be set if it was zero
                    if s.expiry > 0 {
                        props.push((0x11, Val::U32(e)));
                        s.expiry = (e as u64).min(self.case.cfg.expiry() as u64) * 1000;
                    }
                }
                let reason = [0u8, 4, 0x82][kind as usize];
                self.expect_close(c, None, false);
                self.ended(c, kind != 0, group);
                self.send(c, &Pk::Disconnect { reason, props }).await?;
            }
            3 => {
                self.expect_close(c, None, false);
                self.ended(c, true, group);
                self.conns[c].peer.fin();
            }
            _ => {
                self.expect_close(c, None, false);
                self.ended(c, true, group);
                if kind == 4 {
                    self.conns[c].peer.rst();
                } else {
                    self.conns[c].peer.close();
                }
                self.conns[c].closed = true;
                settle().await;
                std::thread::sleep(Duration::from_micros(300));
                settle().await;
            }
        }
        self.check().await
    }

    async fn violate(&mut self, c: usize, kind: u8) -> Res {
        let publish = |topic: &str, props: Props, qos: u8| {
            Pk::Publish(refcodec::Publish {
                dup: false,
                qos,
                retain: false,
                topic: topic.into(),
                id: if qos > 0 { 9 } else { 0 },
                props,
                payload: b"forbidden".to_vec(),
            })
            .encode()
        };
        let topic = self.case.topics[0].clone();
        let (name, b): (&'static str, Vec<u8>) = match kind % 14 {
            0 => (
                "second CONNECT",
                Pk::Connect(refcodec::Connect {
                    clean: true,
                    keep_alive: 60,
                    props: vec![],
                    client_id: "other".into(),
                    will: None,
                    username: None,
                    password: None,
                })
                .encode(),
            ),
            1 => ("CONNACK", Pk::ConnAck { present: false, reason: 0, props: vec![] }.encode()),
            2 => ("SUBACK", Pk::SubAck { id: 1, props: vec![], reasons: vec![0] }.encode()),
            3 => ("UNSUBACK", Pk::UnsubAck { id: 1, props: vec![], reasons: vec![0] }.encode()),
            4 => ("PINGRESP", Pk::PingResp.encode()),
            5 => ("PUBLISH to a wildcard", publish(&format!("{topic}/#"), vec![], 0)),
            6 => ("PUBLISH to a wildcard", publish("+", vec![], 1)),
            7 => ("PUBLISH without topic", publish("", vec![], 0)),
            8 => ("PUBLISH with topic alias", publish(&topic, vec![(0x23, Val::U16(1))], 1)),
            9 => ("AUTH", vec![0xf0, 0]),
            10 => ("reserved packet type", vec![0, 0]),
            11 => ("QoS 3", vec![0x36, 6, 0, 1, b'a', 0, 1, 0]),
            12 => ("remaining length", vec![0x30, 0xff, 0xff, 0xff, 0xff, 0x7f]),
            _ => ("malformed", vec![0x82, 5, 0, 1, 0, 0, 9]),
        };
        self.stat("protocol violation");
        self.obs.label(format!("violation: {name}"));
        let who = self.who(c);
        self.obs.log(|| format!("{who} violates: {name}"));
        let group = self.group();
        self.expect_close(c, None, true);
        self.ended(c, true, group);
        self.conns[c].peer.send(&b).await?;
        self.check().await
    }
}

fn brief(pk: &Pk) -> String {
    let s = match pk {
        Pk::Publish(p) => format!(
            "PUBLISH {:?} qos {} id {} dup {} {} {:?}",
            p.topic,
            p.qos,
            p.id,
            p.dup,
            short(&p.payload),
            p.props
        ),
        p => format!("{p:?}"),
    };
    if s.chars().count() > 400 {
        format!("{}..", s.chars().take(400).collect::<String>())
    } else {
        s
    }
}

/// Runs a case; what it did is in the labels
pub fn run(case: &Case, obs: &mut Obs) -> Result<BTreeMap<&'static str, u64>, Fail> {
    run_with(case, obs, false)
}

pub fn run_with(
    case: &Case,
    obs: &mut Obs,
    strict: bool,
) -> Result<BTreeMap<&'static str, u64>, Fail> {
    let cfg = case.cfg.clone();
    paused(async {
        let (mut broker, addr) = start_broker(|c| {
            c.default_keep_alive = Duration::from_secs(cfg.default_ka as u64);
            c.max_keep_alive = Duration::from_secs(cfg.max_ka as u64);
            c.session_expiry = Duration::from_secs(cfg.expiry);
            c.max_active_sessions = cfg.max_active;
            c.tls_acceptor = case.tls.then(|| tls().acceptor.clone());
        })
        .await?;
        let mut sim = Sim {
            case,
            addr,
            now: 0,
            conns: vec![],
            slots: vec![None; SLOTS as usize + 1],
            sessions: BTreeMap::new(),
            group: 0,
            recent: vec![],
            serial: 0,
            strict,
            obs,
            stats: BTreeMap::new(),
        };
        if case.observer {
            sim.observer().await?;
        }
        for (i, op) in case.ops.iter().enumerate() {
            sim.obs.log(|| format!("[{i}] {op:?}"));
            sim.op(op).await.map_err(|f| match f {
                Fail::Hard(m) => Fail::Hard(format!("operation {i}: {m}")),
                Fail::Soft(m) => Fail::Soft(format!("operation {i}: {m}")),
                f => f,
            })?;
        }
        // everybody still there answers, nothing else comes
        for c in 0..sim.conns.len() {
            let x = &sim.conns[c];
            if sim.sessions.get(&x.session).is_some_and(|s| s.conn == Some(c)) {
                sim.conns[c].replies.push_back(Reply::Pong);
                sim.send(c, &Pk::PingReq).await?;
            }
        }
        sim.check().await.map_err(|f| match f {
            Fail::Hard(m) => Fail::Hard(format!("at the end: {m}")),
            Fail::Soft(m) => Fail::Soft(format!("at the end: {m}")),
            f => f,
        })?;
        let stats = sim.stats.clone();
        drop(sim);
        broker.stop().await;
        settle().await;
        Ok(stats)
    })
}

impl Sim<'_> {
    /// A client of its own slot that receives everything
    async fn observer(&mut self) -> Res {
        let c = self.conns.len();
        self.connect(0, None, true, None, 0, None, false).await?;
        if self.conns[c].closing.is_some() {
            return Ok(());
        }
        self.slots[0] = None;
        self.slots[SLOTS as usize] = Some(c);
        // the observer pings when time passes; with a keep alive of 0 it never has to
        let id = self.next_id(c);
        let filters = ["#", "$s/#"]
            .iter()
            .map(|f| Filter { filter: f.to_string(), qos: 1, no_local: false, rap: false, rh: 0 })
            .collect::<Vec<_>>();
        self.conns[c].replies.push_back(Reply::SubAck { id, filters: filters.clone() });
        self.send(c, &Pk::Subscribe { id, props: vec![], filters }).await?;
        self.check().await
    }
}

// ------------------------------------------------------------------ generators

const LEVELS: &[&str] = &["a", "b", "", "a", "é中", "a b", "$x", "temp", "A"];

pub fn topic() -> BoxedStrategy<String> {
    let level = || proptest::sample::select(LEVELS);
    prop_oneof![
        10 => proptest::collection::vec(level(), 1..5).prop_map(|l| l.join("/")),
        1 => (proptest::collection::vec(level(), 0..3)).prop_map(|l| {
            let mut t = vec!["$s"];
            t.extend(l);
            t.join("/")
        }),
        1 => (2usize..40, level()).prop_map(|(n, l)| vec![l; n].join("/")),
        1 => (1usize..3000).prop_map(|n| "x".repeat(n)),
    ]
    .prop_map(|t| if t.is_empty() { "/".to_string() } else { t })
    .boxed()
}

/// A filter made from a topic, so that they often match
pub fn filter_from(topic: String) -> BoxedStrategy<String> {
    let n = topic.split('/').count();
    (
        proptest::collection::vec(
            prop_oneof![6 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)],
            n,
        ),
        prop_oneof![5 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8)],
        any::<proptest::sample::Index>(),
    )
        .prop_map(move |(subst, end, at)| {
            let mut l: Vec<String> = topic
                .split('/')
                .zip(&subst)
                .map(|(l, s)| match s {
                    0 => l.to_string(),
                    1 => "+".to_string(),
                    _ => "b".to_string(),
                })
                .collect();
            match end {
                1 => {
                    l.truncate(at.index(l.len()));
                    l.push("#".into());
                }
                2 => l.push("#".into()),
                3 => l.push("+".into()),
                4 => {
                    if l.len() > 1 {
                        l.pop();
                    }
                }
                _ => {}
            }
            let f = l.join("/");
            if f.is_empty() {
                "+".to_string()
            } else {
                f
            }
        })
        .boxed()
}

fn bad_filter() -> BoxedStrategy<String> {
    proptest::sample::select(&["", "a#", "#/a", "a/#/b", "a+", "+a/b", "a/b+/c", "##", "a/##", "++"][..])
        .prop_map(String::from)
        .boxed()
}

/// (topics, filters)
pub fn names(bad: bool) -> BoxedStrategy<(Vec<String>, Vec<String>)> {
    proptest::collection::vec(topic(), 1..6)
        .prop_flat_map(move |topics| {
            let t = topics.clone();
            let one = (0..t.len()).prop_flat_map(move |i| filter_from(t[i].clone()));
            let general = proptest::sample::select(&["#", "+", "+/+", "/#", "+/#", "a/#", "$s/#", "$s/+", "/+"][..])
                .prop_map(String::from);
            let f = if bad {
                prop_oneof![12 => one, 2 => general, 1 => bad_filter()].boxed()
            } else {
                prop_oneof![12 => one, 2 => general].boxed()
            };
            (Just(topics), proptest::collection::vec(f, 1..8))
        })
        .boxed()
}

pub fn body() -> BoxedStrategy<Body> {
    let len = prop_oneof![20 => 0u32..20, 3 => 0u32..5000, 1 => 60_000u32..90_000];
    (len, any::<u64>(), prop_oneof![3 => Just(vec![]), 1 => small_props()])
        .prop_map(|(len, seed, props)| Body { len, seed, props })
        .boxed()
}

pub fn small_props() -> BoxedStrategy<Props> {
    gen::props(At::Publish)
        .prop_map(|p| {
            clean_props(&p)
                .into_iter()
                .filter(|(_, v)| match v {
                    Val::Str(s) => s.len() < 300,
                    Val::Bin(b) => b.len() < 300,
                    Val::Pair(a, b) => a.len() + b.len() < 300,
                    _ => true,
                })
                // message expiry far enough away not to matter
                .map(|(i, v)| match v {
                    Val::U32(x) if i == 2 => (i, Val::U32(x.max(1_000_000))),
                    v => (i, v),
                })
                .collect()
        })
        .boxed()
}

#[derive(Clone, Copy)]
pub struct Weights {
    pub connect: u32,
    pub close: u32,
    pub sub: u32,
    pub unsub: u32,
    pub publish: u32,
    pub hold: u32,
    pub ack: u32,
    pub advance: u32,
    pub ping: u32,
    pub violate: u32,
    /// of ten connects that many have a will
    pub will: u32,
    /// of ten times that many without pings
    pub silent: u32,
    /// identifiers used
    pub ids: u8,
    pub qos2: bool,
    pub ka: bool,
}

pub const BASE: Weights = Weights {
    connect: 6,
    close: 4,
    sub: 6,
    unsub: 2,
    publish: 12,
    hold: 1,
    ack: 1,
    advance: 1,
    ping: 1,
    violate: 0,
    will: 1,
    silent: 0,
    ids: 4,
    qos2: true,
    ka: false,
};

pub fn secs() -> BoxedStrategy<u32> {
    prop_oneof![3 => 0u32..4, 4 => 1u32..60, 2 => 30u32..200, 1 => 100u32..1500].boxed()
}

fn expiry() -> BoxedStrategy<Option<u32>> {
    prop_oneof![
        3 => Just(None),
        1 => Just(Some(0u32)),
        4 => (1u32..120).prop_map(Some),
        2 => (100u32..1000).prop_map(Some),
        1 => Just(Some(u32::MAX)),
    ]
    .boxed()
}

pub fn op(w: Weights) -> BoxedStrategy<Op> {
    let slot = 0..SLOTS;
    let will = (any::<u8>(), 0u8..3, any::<bool>(), prop_oneof![3 => Just(None), 1 => Just(Some(0)), 4 => (1u32..100).prop_map(Some)], body())
        .prop_map(|(topic, qos, retain, delay, body)| WillOp { topic, qos, retain, delay, body });
    let will = if w.will == 0 {
        Just(None).boxed()
    } else {
        proptest::option::weighted((w.will as f64 / 10.0).min(1.0), will).boxed()
    };
    let ka = if w.ka {
        prop_oneof![1 => Just(0u16), 3 => 1u16..40, 3 => 10u16..200, 1 => any::<u16>()].boxed()
    } else {
        Just(0u16).boxed()
    };
    let q = if w.qos2 { 3u8 } else { 2u8 };
    let mut all: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (
            w.connect,
            (
                slot.clone(),
                proptest::option::weighted(0.92, 0..w.ids),
                any::<bool>(),
                expiry(),
                ka,
                will,
                prop::bool::weighted(0.1),
            )
                .prop_map(|(slot, id, clean, expiry, ka, will, login)| Op::Connect {
                    slot,
                    id,
                    clean,
                    expiry,
                    ka,
                    will,
                    login,
                })
                .boxed(),
        ),
        (
            w.close,
            (slot.clone(), 0u8..6, proptest::option::weighted(0.3, secs()))
                .prop_map(|(slot, kind, expiry)| Op::Close { slot, kind, expiry })
                .boxed(),
        ),
        (
            w.sub,
            (slot.clone(), proptest::collection::vec((any::<u8>(), 0..q, prop::bool::weighted(0.25)), 1..4))
                .prop_map(|(slot, filters)| Op::Sub { slot, filters })
                .boxed(),
        ),
        (
            w.unsub,
            (slot.clone(), proptest::collection::vec(any::<u8>(), 1..4))
                .prop_map(|(slot, filters)| Op::Unsub { slot, filters })
                .boxed(),
        ),
        (
            w.publish,
            (slot.clone(), any::<u8>(), 0..q, prop::bool::weighted(0.15), prop::bool::weighted(0.1), body())
                .prop_map(|(slot, topic, qos, retain, dup, body)| Op::Pub {
                    slot,
                    topic,
                    qos,
                    retain,
                    dup,
                    body,
                })
                .boxed(),
        ),
        (
            w.hold,
            (slot.clone(), prop::bool::weighted(0.75))
                .prop_map(|(slot, hold)| Op::Hold { slot, hold })
                .boxed(),
        ),
        (
            w.ack,
            (slot.clone(), any::<u8>()).prop_map(|(slot, which)| Op::Ack { slot, which }).boxed(),
        ),
        (
            w.advance,
            (secs(), 0u32..10)
                .prop_map(move |(secs, x)| (secs, x >= w.silent))
                .prop_map(|(secs, ping)| Op::Advance { secs, ping })
                .boxed(),
        ),
        (w.ping, slot.clone().prop_map(|slot| Op::Ping { slot }).boxed()),
        (
            w.violate,
            (slot, any::<u8>()).prop_map(|(slot, kind)| Op::Violate { slot, kind }).boxed(),
        ),
    ];
    all.retain(|(w, _)| *w > 0);
    proptest::strategy::Union::new_weighted(all).boxed()
}

pub fn cfg(ka: bool, cap: bool) -> BoxedStrategy<Cfg> {
    let d = if ka { prop_oneof![16 => Just(0u32), 8 => Just(30u32), 8 => 1u32..20, 1 => 60_000u32..80_000].boxed() } else { Just(0u32).boxed() };
    let m = if ka { prop_oneof![8 => Just(120u32), 4 => 20u32..60, 4 => Just(65_535u32), 1 => 65_000u32..70_000, 1 => any::<u32>()].boxed() } else { Just(120u32).boxed() };
    let e = prop_oneof![12 => Just(600u64), 4 => 1u64..60, 4 => 500u64..5000, 1 => Just(0u64), 1 => (u32::MAX as u64 - 1)..(1 << 33), 1 => Just(u64::MAX)];
    let c = if cap { proptest::option::weighted(0.85, 1u32..5).boxed() } else { Just(None).boxed() };
    (d, m, e, c)
        .prop_map(|(default_ka, max_ka, expiry, max_active)| Cfg { default_ka, max_ka: max_ka.max(default_ka), expiry, max_active })
        .boxed()
}

/// Cases of a profile. `start` connects the slots first.
pub fn cases(w: Weights, start: bool, n: usize, ka: bool, cap: bool, bad: bool) -> BoxedStrategy<Case> {
    (
        cfg(ka, cap),
        names(bad),
        any::<bool>().prop_map(move |b| b && !cap),
        (0u8..24).prop_map(|n| n == 23),
        proptest::collection::vec((any::<bool>(), expiry()), SLOTS as usize),
        proptest::collection::vec(op(w), 1..n),
    )
        .prop_map(move |(cfg, (topics, filters), observer, tls, first, mut ops)| {
            if start {
                let mut o: Vec<Op> = first
                    .iter()
                    .enumerate()
                    .take(w.ids as usize)
                    .map(|(i, (clean, expiry))| Op::Connect {
                        slot: i as u8,
                        id: Some(i as u8),
                        clean: *clean,
                        expiry: *expiry,
                        ka: 0,
                        will: None,
                        login: false,
                    })
                    .collect();
                o.append(&mut ops);
                ops = o;
            }
            Case { cfg, topics, filters, observer, tls, ops }
        })
        .boxed()
}
