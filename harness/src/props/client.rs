//! K01 - K07: the client
use crate::bsim::{settle, Peer, Wait};
use crate::conv;
use crate::csim::{self, *};
use crate::net::*;
use crate::refcodec::{self, *};
use crate::runner::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;
use vaux_client::{ClientBuilder, MqttConnection};
use vaux_mqtt::Packet;

const ASSUME: &[&str] = &[
    "client, application and server run on one thread; what application and server do is interleaved packet by packet",
    "a write to the loopback socket is read by the other end within 12 s of real time",
];

type Stats = BTreeMap<&'static str, u64>;

fn any_of(s: &Stats, keys: &[&str]) -> bool {
    keys.iter().any(|k| s.contains_key(k))
}

fn play(keys: &'static [&'static str], c: &CCase, o: &mut Obs) -> Res {
    let s = csim::run(c, o)?;
    if any_of(&s, keys) {
        o.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------ K01

fn outgoing(_: bool) -> BoxedStrategy<CCase> {
    csim::ccases(CW { publish: 14, sack: 16, spub: 2, rel: 1, sub: 2, ..CBASE }, None)
}

fn long(_: bool) -> BoxedStrategy<CCase> {
    csim::ccases(CW { publish: 14, sack: 18, spub: 4, rel: 2, conns: 1, ops: 150, fail: 0, ..CBASE }, None)
}

const SENT: &[&str] = &["QoS 1 sent", "QoS 2 sent"];

/// More messages than there are packet identifiers
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Wrap {
    auto_ack: bool,
    /// flows kept open from the start
    open: u8,
    own: Vec<u8>,
    subs: Vec<u8>,
    /// unacknowledged at a time
    batch: u8,
    /// open as many flows as there are identifiers
    exhaust: bool,
    extra: u16,
}

fn wraps(_: bool) -> BoxedStrategy<Wrap> {
    (
        any::<bool>(),
        1u8..6,
        vec(0u8..6, 0..3),
        vec(1u8..20, 0..4),
        20u8..100,
        proptest::bool::weighted(0.2),
        1u16..300,
    )
        .prop_map(|(auto_ack, open, own, subs, batch, exhaust, extra)| Wrap { auto_ack, open, own, subs, batch, exhaust, extra })
        .boxed()
}

fn wrap(c: &Wrap, o: &mut Obs) -> Res {
    let cfg = CCfg {
        auto_ack: true,
        auto_id: true,
        recv_max: 0,
        chan: 300,
        filtered: vec![],
        pingresp: false,
        ka: 60_000,
        ka_on: true,
        expiry: None,
        id: Some("w".into()),
        user: None,
        will: None,
        max_packet: None,
        wait: None,
    };
    let m = |qos| Msg { topic: "t".into(), qos, retain: false, props: vec![], len: 0, seed: 0 };
    let mut ops = vec![];
    for i in &c.own {
        ops.push(COp::App(vec![AppOp::Pub(m(1), Some(*i))]));
    }
    ops.push(COp::App((0..c.open).map(|i| AppOp::Pub(m(1 + i % 2), None)).collect()));
    let mut seen = vec![];
    for s in &c.subs {
        if seen.contains(s) {
            continue;
        }
        seen.push(*s);
        ops.push(COp::App(vec![AppOp::Sub { un: s % 2 == 0, id: *s, filters: vec![("a".into(), 1)], helper: false }]));
    }
    let open = c.own.len() as u8 + c.open;
    let total = 65_535 + c.extra as usize;
    if c.exhaust {
        for _ in 0..total.div_ceil(200) {
            ops.push(COp::App(vec![AppOp::Pub(m(1), None); 200]));
        }
        for _ in 0..8 {
            ops.push(COp::Srv((0..60u8).map(|i| SrvOp::Ack { sel: i.wrapping_mul(37), reason: 1 }).collect()));
            ops.push(COp::Read(200));
        }
    } else {
        for _ in 0..total.div_ceil(c.batch as usize) {
            ops.push(COp::App(vec![AppOp::Pub(m(1), None); c.batch as usize]));
            ops.push(COp::Srv(vec![SrvOp::Ack { sel: open, reason: 1 }; c.batch as usize]));
            ops.push(COp::Read(200));
        }
    }
    ops.push(COp::Srv(vec![SrvOp::SubAck { sel: 0 }; 4]));
    let conn = CConn {
        clean: true,
        keep: false,
        ka: None,
        expiry: None,
        recv: None,
        extra: 0,
        ops,
        lose: 0,
        drain: true,
        end: CEnd::Stop,
        fail: None,
        split: None,
    };
    let s = csim::run(&CCase { cfg, conns: vec![conn] }, o)?;
    o.label(if c.exhaust { "all identifiers in use" } else { "identifiers used again" });
    if s.get("message published").copied().unwrap_or(0) as usize > 65_535 {
        o.nontrivial();
    }
    Ok(())
}

pub fn k01() -> Property {
    Property {
        id: "K01",
        rule: "at least one QoS 1 or QoS 2 message is completed; for the check of packet identifiers: more than 65,535 messages are sent on a connection",
        assumptions: ASSUME,
        subs: vec![
            Prop::net("outgoing", 60_000, outgoing, |c: &CCase, o: &mut Obs| play(SENT, c, o)).boxed(),
            Prop::net("long", 8_000, long, |c: &CCase, o: &mut Obs| play(SENT, c, o)).boxed(),
            Prop::net("identifiers", 16, wraps, wrap).boxed(),
        ],
    }
}

// ------------------------------------------------------------------ K02

fn incoming(_: bool) -> BoxedStrategy<CCase> {
    csim::ccases(CW { publish: 2, sack: 2, spub: 16, rel: 12, read: 6, ..CBASE }, None)
}

fn flood(_: bool) -> BoxedStrategy<CCase> {
    csim::ccases(CW { publish: 3, sack: 3, spub: 20, rel: 16, read: 10, conns: 1, ops: 150, fail: 0, ..CBASE }, None)
}

const RECEIVED: &[&str] = &["QoS 2 received", "consumer full", "QoS 2 message received again", "PUBREL received again"];

pub fn k02() -> Property {
    Property {
        id: "K02",
        rule: "a QoS 2 message is completed or received again, or the application does not keep up",
        assumptions: ASSUME,
        subs: vec![
            Prop::net("incoming", 60_000, incoming, |c: &CCase, o: &mut Obs| play(RECEIVED, c, o)).boxed(),
            Prop::net("long", 8_000, flood, |c: &CCase, o: &mut Obs| play(RECEIVED, c, o)).boxed(),
        ],
    }
}

// ------------------------------------------------------------------ K03

fn resumed(_: bool) -> BoxedStrategy<CCase> {
    csim::ccases(CW { publish: 12, sack: 6, spub: 10, rel: 4, conns: 6, ops: 8, fail: 15, ..CBASE }, None)
}

const RESUMED: &[&str] = &["message sent again", "PUBREL sent again", "acknowledgements lost", "kept for the application"];

pub fn k03() -> Property {
    Property {
        id: "K03",
        rule: "a connection resumes a session with messages, acknowledgements or deliveries left over",
        assumptions: ASSUME,
        subs: vec![Prop::net("resume", 60_000, resumed, |c: &CCase, o: &mut Obs| play(RESUMED, c, o)).boxed()],
    }
}

// ------------------------------------------------------------------ K04

fn connecting(_: bool) -> BoxedStrategy<CCase> {
    csim::ccases(CW { conns: 5, ops: 4, fail: 60, ..CBASE }, None)
}

const CONNECTED: &[&str] = &["refused", "CONNACK in parts"];

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Answer {
    Accept,
    Refuse(u8),
    Fin,
    Never,
    /// nobody listens
    Nobody,
    /// a TLS client gets no answer
    Tls,
    /// no try_start but start, bounded only by the limits built in
    TlsStart,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Try {
    max: u16,
    wait: Option<u16>,
    answer: Answer,
    /// of the time there is
    at: u8,
    late: bool,
}

fn tries(_: bool) -> BoxedStrategy<Try> {
    (
        300u16..6000,
        proptest::option::of(300u16..6000),
        prop_oneof![
            6 => Just(Answer::Accept),
            2 => (0x80u8..0x8b).prop_map(Answer::Refuse),
            1 => Just(Answer::Fin),
            1 => Just(Answer::Never),
            1 => Just(Answer::Nobody),
            1 => Just(Answer::Tls),
            1 => Just(Answer::TlsStart),
        ],
        any::<u8>(),
        proptest::bool::weighted(0.4),
    )
        .prop_map(|(max, wait, answer, at, late)| Try { max, wait, answer, at, late })
        .boxed()
}

async fn advance(ms: u64) {
    tokio::time::advance(Duration::from_millis(ms)).await;
    settle().await;
}

fn try_start(c: &Try, o: &mut Obs) -> Res {
    paused(async {
        let (l, addr) = csim::listener()?;
        let mut l = Some(l);
        let tls = matches!(c.answer, Answer::Tls | Answer::TlsStart);
        if matches!(c.answer, Answer::Nobody) {
            l = None;
        }
        let mut conn = MqttConnection::new().with_host(&addr.ip().to_string()).with_port(addr.port());
        if tls {
            conn = conn.with_tls().with_trust_store(crate::net::tls().roots.clone());
        }
        let mut b = ClientBuilder::new(conn).with_client_id("c");
        if let Some(w) = c.wait {
            b = b.with_max_connect_wait(Duration::from_millis(w as u64));
        }
        let mut client = b.build().await.map_err(harness("build"))?;
        let mut rx = client.take_packet_consumer();
        let tx = client.packet_producer();
        let max = c.max as u64;
        let wait = c.wait.map(u64::from).unwrap_or(5000);
        // how long the server may take
        let time = max.min(wait);
        let late = c.late && matches!(c.answer, Answer::Accept | Answer::Refuse(_));
        let at = if late { max + 60 + c.at as u64 * 3 } else { (time - 160) * c.at as u64 / 256 };
        let ok = matches!(c.answer, Answer::Accept) && !late;
        let mut now = 0;
        let mut peer: Option<Peer> = None;
        let answer = match &c.answer {
            Answer::Accept => Pk::ConnAck { present: false, reason: 0, props: vec![] }.encode(),
            Answer::Refuse(r) => Pk::ConnAck { present: false, reason: *r, props: vec![] }.encode(),
            _ => vec![],
        };
        let mut socket = None;
        let mut answered = false;
        if matches!(c.answer, Answer::TlsStart) {
            let f = client.start(true);
            tokio::pin!(f);
            let mut r = None;
            // no more than a minute
            for _ in 0..600 {
                r = poll_once(&mut f).await;
                if r.is_some() {
                    break;
                }
                advance(100).await;
            }
            o.nontrivial();
            return match r {
                None => hard("start() waits for a TLS handshake for more than a minute"),
                Some(Ok(_)) => hard("start() succeeds without TLS handshake"),
                Some(Err(_)) => Ok(()),
            };
        }
        let result = {
            let f = client.try_start(Duration::from_millis(max), true);
            tokio::pin!(f);
            let mut result;
            loop {
                result = poll_once(&mut f).await;
                settle().await;
                if result.is_none() {
                    result = poll_once(&mut f).await;
                }
                if result.is_some() {
                    break;
                }
                if let Some(l) = &l {
                    if socket.is_none() && peer.is_none() {
                        let w = Wait::new();
                        let io = loop {
                            match l.accept() {
                                Ok((io, _)) => break io,
                                Err(_) if w.pause().await => {
                                    let _ = poll_once(&mut f).await;
                                }
                                Err(e) => return Err(Fail::Harness(format!("accept: {e}"))),
                            }
                        };
                        if tls {
                            socket = Some(io);
                        } else {
                            let mut p = Peer::new(io)?;
                            let w = Wait::new();
                            loop {
                                if let Some(x) = p.next()? {
                                    if !matches!(x, Pk::Connect(_)) {
                                        return hard(format!("{x:?} instead of CONNECT"));
                                    }
                                    break;
                                }
                                result = poll_once(&mut f).await;
                                if result.is_some() {
                                    return hard("try_start ends before CONNECT is sent");
                                }
                                if !w.pause().await {
                                    return soft("no CONNECT");
                                }
                            }
                            peer = Some(p);
                        }
                    }
                }
                if !answered && now >= at {
                    answered = true;
                    if let Some(p) = peer.as_mut() {
                        match c.answer {
                            Answer::Fin => p.fin(),
                            _ => {
                                p.send(&answer).await?;
                            }
                        }
                    }
                    for _ in 0..5 {
                        settle().await;
                    }
                    continue;
                }
                if now > max + 50 {
                    return hard(format!("try_start takes more than {max} ms"));
                }
                let step = if answered || at > now + 50 { 50 } else { at - now };
                advance(step.max(1)).await;
                now += step.max(1);
            }
            result
        };
        o.log(|| format!("after {now} ms: {}", result.as_ref().is_some_and(|r| r.is_ok())));
        o.nontrivial();
        match result {
            Some(Ok(h)) if ok => {
                o.label("connected");
                if now + 50 < at {
                    return hard("try_start succeeds before CONNACK is sent");
                }
                if !client.connected().await {
                    return hard("connected() is false after try_start");
                }
                let Some(mut p) = peer else { return Err(Fail::Harness("no peer".into())) };
                soon("produce", tx.send(Packet::PingRequest(Default::default()))).await?.map_err(harness("produce"))?;
                match p.recv("PINGREQ").await? {
                    Some(Pk::PingReq) => {}
                    x => return hard(format!("{x:?} instead of PINGREQ")),
                }
                let pk = Pk::UnsubAck { id: 1, props: vec![], reasons: vec![0] };
                p.send(&pk.encode()).await?;
                let got = match rx.as_mut() {
                    Some(rx) => soon("UNSUBACK", rx.recv()).await?,
                    None => return hard("there is no consumer"),
                };
                if got.is_none() {
                    return hard("the consumer is closed");
                }
                if let Err(e) = client.stop().await {
                    return hard(format!("stop: {e}"));
                }
                match soon("the end", h).await? {
                    Ok(Ok(_)) => {}
                    x => return hard(format!("after stop() the client ends with {x:?}")),
                }
                match p.rest("end").await?.as_slice() {
                    [Pk::Disconnect { reason: 0, .. }] => Ok(()),
                    r => hard(format!("after stop() the client sends {r:?}")),
                }
            }
            Some(Ok(_)) => hard(format!("try_start succeeds, but the server's answer is {:?}", c.answer)),
            Some(Err(e)) if ok => hard(format!("try_start fails: {e}")),
            Some(Err(_)) => {
                o.label("failed");
                if client.connected().await {
                    return hard("connected() after try_start has failed");
                }
                if matches!(c.answer, Answer::Accept | Answer::Never) && now + 50 < time {
                    return hard(format!("try_start gives up after {now} ms"));
                }
                // an answer that is late must not connect the client
                if let Some(mut p) = peer {
                    if !answered && p.is_open() && !matches!(c.answer, Answer::Fin) {
                        p.send(&answer).await?;
                    }
                    for _ in 0..4 {
                        advance(40).await;
                        if client.connected().await {
                            return hard("connected() after try_start has failed");
                        }
                    }
                    if p.is_open() {
                        match p.rest("the end of the connection").await {
                            Err(Fail::Soft(_)) => return soft("the socket stays open after try_start has failed"),
                            Ok(r) if matches!(r.as_slice(), [] | [Pk::Disconnect { .. }]) => {}
                            Ok(r) => return hard(format!("after try_start has failed the client sends {r:?}")),
                            Err(e) => return Err(e),
                        }
                    }
                }
                Ok(())
            }
            None => Err(Fail::Harness("no result".into())),
        }
    })
}

/// Limits of the builder
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Build {
    ka: u64,
    chan: u16,
    id: u32,
    will: u32,
    user: u32,
}

fn builds(_: bool) -> BoxedStrategy<Build> {
    let n = || prop_oneof![4 => 0u32..100, 1 => Just(65_535u32), 1 => Just(65_536u32), 1 => 65_537u32..70_000];
    (prop_oneof![0u64..60_000, Just(29_999u64), Just(30_000u64)], 0u16..4, n(), n(), n())
        .prop_map(|(ka, chan, id, will, user)| Build { ka, chan, id, will, user })
        .boxed()
}

fn build(c: &Build, o: &mut Obs) -> Res {
    paused(async {
        let (l, addr) = csim::listener()?;
        let text = |n: u32| "x".repeat(n as usize);
        let will = refcodec::Will { qos: 1, retain: false, props: vec![], topic: "t".into(), payload: vec![] };
        let mut w = conv::will_message(&will);
        w.topic = text(c.will);
        let conn = MqttConnection::new()
            .with_host(&addr.ip().to_string())
            .with_port(addr.port())
            .with_credentials(&text(c.user), "p");
        let b = ClientBuilder::new(conn)
            .with_client_id(&text(c.id))
            .with_keep_alive(Duration::from_millis(c.ka))
            .with_channel_size(c.chan)
            .with_will_message(w)
            .with_max_packet_size(1 << 20)
            .build()
            .await;
        let mut client = match b {
            Err(_) if c.ka < 30_000 => {
                o.label("keep alive too small");
                return Ok(());
            }
            Err(e) => return hard(format!("the client cannot be built: {e}")),
            Ok(_) if c.ka < 30_000 => return hard("a keep alive of less than 30 s is accepted"),
            Ok(x) => x,
        };
        let fits = [c.id, c.will, c.user].iter().all(|n| *n <= 65_535);
        let h = match soon("start", client.start(true)).await? {
            Ok(h) => h,
            Err(e) => return hard(format!("start: {e}")),
        };
        let wt = Wait::new();
        let io = loop {
            match l.accept() {
                Ok((io, _)) => break io,
                Err(_) if wt.pause().await => {}
                Err(e) => return Err(Fail::Harness(format!("accept: {e}"))),
            }
        };
        let mut p = Peer::new(io)?;
        if fits {
            match p.recv("CONNECT").await? {
                Some(Pk::Connect(x))
                    if x.client_id.len() == c.id as usize
                        && x.username.as_ref().is_some_and(|u| u.len() == c.user as usize)
                        && x.will.as_ref().is_some_and(|w| w.topic.len() == c.will as usize) =>
                {
                    o.label("sent");
                    if c.id.max(c.will).max(c.user) > 60_000 {
                        o.nontrivial();
                    }
                    h.abort();
                    Ok(())
                }
                x => hard(format!("{} instead of CONNECT", if x.is_some() { "something else" } else { "nothing" })),
            }
        } else {
            o.label("too long");
            o.nontrivial();
            match soon("the client does not end", h).await? {
                Ok(Ok(_)) => hard("the client stops without an error"),
                Ok(Err(_)) => match p.rest("end").await?.as_slice() {
                    [] => Ok(()),
                    r => hard(format!("the client sends {} packets", r.len())),
                },
                Err(e) => hard(format!("the client's task ends with {e}")),
            }
        }
    })
}

pub fn k04() -> Property {
    Property {
        id: "K04",
        rule: "a connection is refused or its CONNACK arrives in parts; for try_start every case; for the builder: strings of 60,000 bytes and more",
        assumptions: ASSUME,
        subs: vec![
            Prop::net("connect", 40_000, connecting, |c: &CCase, o: &mut Obs| play(CONNECTED, c, o)).boxed(),
            Prop::net("try_start", 4_000, tries, try_start).boxed(),
            Prop::net("builder", 4_000, builds, build).boxed(),
        ],
    }
}

// ------------------------------------------------------------------ K05 - K07

fn manual(_: bool) -> BoxedStrategy<CCase> {
    csim::ccases(CW { publish: 8, ack: 4, sack: 8, spub: 10, rel: 8, read: 10, conns: 4, ops: 20, ..CBASE }, Some(true))
}

fn ignored(_: bool) -> BoxedStrategy<CCase> {
    csim::ccases(CW { publish: 8, ack: 12, sack: 8, spub: 8, rel: 6, read: 6, conns: 3, ops: 20, ..CBASE }, Some(false))
}

pub fn k05() -> Property {
    Property {
        id: "K05",
        rule: "the application acknowledges at least one message, or sends an acknowledgement that has to be ignored",
        assumptions: ASSUME,
        subs: vec![
            Prop::net("manual", 40_000, manual, |c: &CCase, o: &mut Obs| {
                play(&["acknowledged by the application"], c, o)
            })
            .boxed(),
            Prop::net("ignored", 15_000, ignored, |c: &CCase, o: &mut Obs| {
                play(&["acknowledgement of the application ignored"], c, o)
            })
            .boxed(),
        ],
    }
}

fn idle(_: bool) -> BoxedStrategy<CCase> {
    csim::ccases(CW { wait: 20, publish: 4, spub: 6, ping: 2, pingresp: 6, conns: 3, ops: 12, ..CBASE }, None)
}

pub fn k06() -> Property {
    Property {
        id: "K06",
        rule: "the keep alive interval passes at least once",
        assumptions: ASSUME,
        subs: vec![Prop::net("keep alive", 30_000, idle, |c: &CCase, o: &mut Obs| play(&["keep alive ping"], c, o)).boxed()],
    }
}

fn ends(_: bool) -> BoxedStrategy<CCase> {
    csim::ccases(CW { conns: 4, ops: 6, ..CBASE }, None)
}

pub fn k07() -> Property {
    Property {
        id: "K07",
        rule: "a client that has ended is started again with the state it returned",
        assumptions: ASSUME,
        subs: vec![Prop::net("ends", 40_000, ends, |c: &CCase, o: &mut Obs| play(&["restarted"], c, o)).boxed()],
    }
}
