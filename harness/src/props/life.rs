//! Brokers that are started, stopped, started again, reconfigured
use super::broker2::*;
use crate::bsim::*;
use crate::net::*;
use crate::refcodec::{self, *};
use crate::runner::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::net::SocketAddr;
use std::time::Duration;
use vaux_broker::{config::Config, Broker};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    Run,
    Stop,
    /// somebody else listens at the address meanwhile
    Occupied,
    /// client, clean start, session expiry
    Join(u8, bool, Option<u32>),
    /// client, how: 0 DISCONNECT, 1 end of stream, 2 reset
    Leave(u8, u8),
    /// publisher, topic, QoS
    Publish(u8, u8, u8),
    Subscribe(u8, u8),
    Unsubscribe(u8, u8),
    /// seconds and milliseconds
    SetExpiry(u32, u16),
    /// a connection that has not sent CONNECT yet
    Open,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Life {
    threads: u8,
    tls: bool,
    /// which sizes the channel of a session has: 0 is 0, 1 the largest, 2 one with room
    channel: u8,
    expiry: u32,
    ops: Vec<Op>,
    drop: bool,
}

const TOPICS: [&str; 3] = ["a", "a/b", "x"];
const FILTERS: [&str; 4] = ["a", "a/#", "+", "x"];

pub fn cases(_: bool) -> BoxedStrategy<Life> {
    let secs = || prop_oneof![1 => Just(0u32), 4 => 40u32..90, 2 => 500u32..5000, 1 => any::<u32>()];
    let op = prop_oneof![
        4 => Just(Op::Run),
        3 => Just(Op::Stop),
        1 => Just(Op::Occupied),
        6 => (0u8..4, prop::bool::weighted(0.3), proptest::option::weighted(0.7, secs())).prop_map(|(c, k, e)| Op::Join(c, k, e)),
        3 => (0u8..4, 0u8..3).prop_map(|(c, h)| Op::Leave(c, h)),
        6 => (0u8..4, 0u8..3, 0u8..2).prop_map(|(c, t, q)| Op::Publish(c, t, q)),
        4 => (0u8..4, 0u8..4).prop_map(|(c, f)| Op::Subscribe(c, f)),
        1 => (0u8..4, 0u8..4).prop_map(|(c, f)| Op::Unsubscribe(c, f)),
        2 => (secs(), prop_oneof![3 => Just(0u16), 1 => 0u16..1000]).prop_map(|(s, m)| Op::SetExpiry(s, m)),
        1 => Just(Op::Open),
    ];
    (
        (1u8..4, prop::bool::weighted(0.1)),
        prop_oneof![1 => 0u8..2, 4 => Just(2u8)],
        secs(),
        vec(op, 2..25),
        any::<bool>(),
    )
        .prop_map(|((threads, tls), channel, expiry, ops, drop)| Life { threads, tls, channel, expiry, ops, drop })
        .boxed()
}

struct Client {
    peer: Option<Peer>,
    /// its session has at most this long to live after its connection; None: no session
    session: Option<u64>,
    subs: Vec<u8>,
    due: Vec<(String, Vec<u8>)>,
}

struct World<'a> {
    c: &'a Life,
    o: &'a mut Obs,
    addr: SocketAddr,
    clients: Vec<Client>,
    running: bool,
    limit: Duration,
    n: u16,
}

impl World<'_> {
    /// None: nobody answers
    async fn try_join(&self, pk: &Pk) -> Result<Option<(Peer, Pk)>, Fail> {
        let Ok(io) = std::net::TcpStream::connect(self.addr) else { return Ok(None) };
        drop(io);
        let mut p = match Peer::open(self.addr, self.c.tls).await {
            Ok(p) => p,
            Err(_) => return Ok(None),
        };
        if !p.send(&pk.encode()).await? {
            return Ok(None);
        }
        Ok(p.recv("CONNACK").await?.map(|k| (p, k)))
    }

    /// Connections are refused from now on, or soon
    async fn refused(&mut self) -> Res {
        let w = Wait::new();
        let pk = connect_pk("other", true, 0, None, None);
        let mut n = 0;
        while n < 2 {
            let open = match std::net::TcpStream::connect(self.addr) {
                Err(_) => false,
                Ok(io) if self.c.tls => {
                    drop(io);
                    true
                }
                Ok(io) => {
                    let mut p = Peer::new(io)?;
                    // not taken from the backlog: reset
                    p.send(&pk.encode()).await? && p.recv("CONNACK").await?.is_some()
                }
            };
            if !open {
                n += 1;
            } else if n > 0 {
                return hard("a stopped broker accepts a connection again");
            }
            if !w.pause().await {
                return soft("a stopped broker still accepts connections");
            }
        }
        Ok(())
    }

    async fn arrive(&mut self, i: usize) -> Res {
        let w = Wait::new();
        let c = &mut self.clients[i];
        let Some(p) = &mut c.peer else { return Ok(()) };
        while !c.due.is_empty() {
            match p.next()? {
                Some(Pk::Publish(m)) => {
                    let Some(k) = c.due.iter().position(|d| d.0 == m.topic && d.1 == m.payload) else {
                        return hard(format!("client {i} receives {:?} {:?}, which is not due", m.topic, m.payload));
                    };
                    c.due.remove(k);
                    if m.qos > 0 {
                        p.send(&Pk::Ack { kind: 4, id: m.id, reason: 0, props: vec![] }.encode()).await?;
                    }
                }
                Some(x) => return hard(format!("client {i} receives {x:?}")),
                None if p.eof => return hard(format!("the connection of client {i} is closed")),
                None if !w.pause().await => return soft(format!("client {i} does not receive {:?}", c.due)),
                None => {}
            }
        }
        Ok(())
    }

    async fn op(&mut self, b: &mut Broker, op: &Op) -> Res {
        let n = self.clients.len();
        match op {
            Op::Run if self.running => {}
            Op::Run => {
                let w = Wait::new();
                // the address may still be in use
                while let Err(e) = b.run().await {
                    if !w.pause().await {
                        return soft(format!("the broker does not run: {e}"));
                    }
                }
                self.running = true;
            }
            Op::Stop => {
                within(SOON, b.stop()).await.ok_or_else(|| Fail::Soft("stop does not return".into()))?;
                if self.running {
                    self.o.label("stopped");
                    self.running = false;
                    if self.clients.iter().any(|c| c.peer.is_some()) {
                        self.o.nontrivial();
                        self.o.label("stopped with connections");
                    }
                    self.refused().await?;
                }
            }
            Op::Occupied => {
                if self.running {
                    return Ok(());
                }
                let Ok(l) = tokio::net::TcpListener::bind(self.addr).await else { return Ok(()) };
                self.o.label("address in use");
                if b.run().await.is_ok() {
                    return hard("run succeeds though the address is in use");
                }
                drop(l);
            }
            Op::Join(i, clean, expiry) => {
                let i = *i as usize % n;
                let pk = connect_pk(&format!("c{i}"), *clean, 0, *expiry, None);
                if !self.running {
                    return match self.try_join(&pk).await? {
                        None => Ok(()),
                        Some((_, k)) => hard(format!("a broker that does not run answers {k:?}")),
                    };
                }
                let Some((peer, k)) = self.try_join(&pk).await? else {
                    return hard("a running broker does not answer");
                };
                let Pk::ConnAck { present, reason: 0, props } = k else {
                    return hard(format!("{k:?} instead of CONNACK"));
                };
                let c = &mut self.clients[i];
                if let Some(mut old) = c.peer.take() {
                    let end = old.rest("the end of a connection that is taken over").await?;
                    if !matches!(end.as_slice(), [Pk::Disconnect { reason: 0x8e, .. }]) {
                        return hard(format!("client {i} is taken over and receives {end:?}"));
                    }
                }
                let had = c.session.take().is_some();
                let resumed = had && !*clean;
                if present != resumed {
                    return hard(format!("session present is {present}, client {i} has a session: {had}, clean start {clean}"));
                }
                if !resumed {
                    c.subs.clear();
                }
                let asked = expiry.unwrap_or(0) as u64;
                let max = if self.limit >= Duration::from_secs(u32::MAX as u64) { u32::MAX as u64 } else { self.limit.as_secs() };
                let announced = match prop(&props, 0x11) {
                    Some(Val::U32(s)) => Some(*s as u64),
                    _ => None,
                };
                let granted = announced.unwrap_or(asked);
                if granted != asked.min(max) {
                    return hard(format!("the session expiry is limited to {max}, asked for is {asked}, granted {granted}"));
                }
                c.session = (granted > 0).then_some(granted);
                c.peer = Some(peer);
            }
            Op::Leave(i, how) => {
                let c = &mut self.clients[*i as usize % n];
                let Some(mut p) = c.peer.take() else { return Ok(()) };
                match how {
                    0 => {
                        p.send(&Pk::Disconnect { reason: 0, props: vec![] }.encode()).await?;
                        p.rest("the end of the connection").await?;
                    }
                    1 => {
                        p.fin();
                        p.rest("the end of the connection").await?;
                    }
                    _ => p.rst(),
                }
                if c.session.is_none() {
                    c.subs.clear();
                } else {
                    // some seconds at least; what is not resumed in time is not judged here
                }
            }
            Op::Publish(i, t, q) => {
                let i = *i as usize % n;
                let topic = TOPICS[*t as usize % 3];
                self.n += 1;
                let payload = self.n.to_be_bytes().to_vec();
                let Some(p) = &mut self.clients[i].peer else { return Ok(()) };
                if !p.send(&publish_pk(topic, *q, 7, payload.clone()).encode()).await? {
                    return hard(format!("the connection of client {i} is closed"));
                }
                if !self.running {
                    self.o.label("message on a stopped broker");
                }
                for c in &mut self.clients {
                    if c.peer.is_some() {
                        for f in &c.subs {
                            if matches(FILTERS[*f as usize], topic) {
                                c.due.push((topic.into(), payload.clone()));
                            }
                        }
                        // copies for overlapping subscriptions may be one
                        c.due.dedup();
                    }
                }
                self.publisher(i, *q, &payload, topic).await?;
                for j in 0..n {
                    self.arrive(j).await?;
                }
            }
            Op::Subscribe(i, f) | Op::Unsubscribe(i, f) => {
                let i = *i as usize % n;
                let f = *f % 4;
                let c = &mut self.clients[i];
                let Some(p) = &mut c.peer else { return Ok(()) };
                let had = c.subs.contains(&f);
                // subscriptions do not overlap
                let clash = c.subs.iter().any(|s| {
                    *s != f && TOPICS.iter().any(|t| matches(FILTERS[*s as usize], t) && matches(FILTERS[f as usize], t))
                });
                if clash {
                    return Ok(());
                }
                let (pk, want) = if matches!(op, Op::Subscribe(..)) {
                    (subscribe_pk(3, &[(FILTERS[f as usize], 0)]), 0)
                } else {
                    let pk = Pk::Unsubscribe { id: 3, props: vec![], filters: vec![FILTERS[f as usize].into()] };
                    (pk, if had { 0 } else { 0x11 })
                };
                if !p.send(&pk.encode()).await? {
                    return hard(format!("the connection of client {i} is closed"));
                }
                let mut m = vec![];
                match reply(p, "SUBACK or UNSUBACK", &mut m).await? {
                    Pk::SubAck { reasons, .. } | Pk::UnsubAck { reasons, .. } if reasons == [want] => {}
                    x => return hard(format!("{op:?} is answered with {x:?}")),
                }
                c.subs.retain(|s| *s != f);
                if matches!(op, Op::Subscribe(..)) {
                    c.subs.push(f);
                }
            }
            Op::SetExpiry(s, ms) => {
                self.limit = Duration::from_millis(*s as u64 * 1000 + *ms as u64);
                self.o.label("limit changed");
                b.set_session_expiration(self.limit).await;
            }
            Op::Open => {
                if self.running && !self.c.tls {
                    let p = Peer::connect(self.addr)?;
                    drop(p);
                }
            }
        }
        self.o.step();
        Ok(())
    }

    /// What the publisher receives: PUBACK, and its own message if it has subscribed to it
    async fn publisher(&mut self, i: usize, q: u8, payload: &[u8], topic: &str) -> Res {
        let c = &mut self.clients[i];
        let Some(p) = &mut c.peer else { return Ok(()) };
        if q == 0 {
            // shows that it has been dealt with
            p.send(&Pk::PingReq.encode()).await?;
        }
        let mut m: Vec<refcodec::Publish> = vec![];
        match reply(p, "PUBACK", &mut m).await? {
            Pk::Ack { kind: 4, id: 7, reason: 0, .. } if q > 0 => {}
            Pk::PingResp if q == 0 => {}
            x => return hard(format!("{x:?} instead of PUBACK or PINGRESP")),
        }
        for m in m {
            let Some(k) = c.due.iter().position(|d| d.0 == m.topic && d.1 == m.payload) else {
                return hard(format!("client {i} receives {:?}, sent was {payload:?} to {topic}", m.payload));
            };
            c.due.remove(k);
            if m.qos > 0 {
                p.send(&Pk::Ack { kind: 4, id: m.id, reason: 0, props: vec![] }.encode()).await?;
            }
        }
        Ok(())
    }
}

pub fn run(c: &Life, o: &mut Obs) -> Res {
    threads(c.threads.clamp(1, 4) as usize, async {
        let addr = address(PORT);
        let mut cfg = Config::new(addr);
        cfg.default_keep_alive = Duration::ZERO;
        cfg.session_expiry = Duration::from_secs(c.expiry as u64);
        cfg.session_channel_size = match c.channel {
            0 => 0,
            1 => usize::MAX,
            _ => 100,
        };
        cfg.tls_acceptor = c.tls.then(|| tls().acceptor.clone());
        let limit = cfg.session_expiry;
        let mut b = Broker::new_with_config(cfg);
        let clients = (0..4)
            .map(|_| Client { peer: None, session: None, subs: vec![], due: vec![] })
            .collect();
        let mut w = World { c, o, addr, clients, running: false, limit, n: 0 };
        for op in &c.ops {
            w.op(&mut b, op).await?;
        }
        // at last it serves, and goes
        w.op(&mut b, &Op::Run).await?;
        w.op(&mut b, &Op::Join(0, true, None)).await?;
        w.op(&mut b, &Op::Subscribe(0, 0)).await?;
        if c.drop {
            drop(b);
            w.o.label("dropped");
            w.running = false;
            w.refused().await?;
        } else {
            w.op(&mut b, &Op::Stop).await?;
        }
        let mut other = Broker::new_with_config(Config::new(addr));
        w.op(&mut other, &Op::Publish(0, 0, 1)).await?;
        // the address is free
        let x = Wait::new();
        while let Err(e) = other.run().await {
            if !x.pause().await {
                return soft(format!("the address of a broker that has ended is not free: {e}"));
            }
        }
        Ok(())
    })
}

pub fn b13() -> Property {
    Property {
        id: "B13",
        rule: "a broker with connections is stopped",
        assumptions: &["loopback TCP works", "12 s are enough for a message over loopback"],
        subs: vec![Prop::net("lives", 20_000, cases, run).boxed()],
    }
}

// ------------------------------------------------------------------ leaving with messages unread

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Unread {
    /// messages for it that it never reads: how many, how long
    unread: (u8, u16),
    /// what it sends first: 0 and 1 messages with that QoS, 2 PINGREQ, 3 SUBSCRIBE, 4 UNSUBSCRIBE
    before: Vec<u8>,
    /// the reason of its DISCONNECT
    reason: Option<u8>,
    expiry: Option<u32>,
    /// changed by DISCONNECT
    changed: Option<u32>,
    will: bool,
    /// 0: closes, 1: ends its stream first, 2: resets
    how: u8,
    /// bytes it sends at a time, 0: all
    cut: u8,
}

pub fn unread(_: bool) -> BoxedStrategy<Unread> {
    let amount = prop_oneof![
        2 => Just((0u8, 0u16)),
        4 => (1u8..10, 0u16..200),
        3 => (1u8..30, 0u16..20_000),
        1 => (80u8..130, 60_000u16..65_000),
    ];
    let some = || proptest::option::of(prop_oneof![1 => Just(0u32), 2 => 100u32..500]);
    (
        amount,
        vec(0u8..5, 0..8),
        proptest::option::weighted(0.8, prop_oneof![3 => Just(0u8), 1 => Just(4u8), 1 => Just(0x80u8)]),
        (some(), some()),
        prop::bool::weighted(0.8),
        0u8..3,
        prop_oneof![3 => Just(0u8), 1 => any::<u8>()],
    )
        .prop_map(|(unread, before, reason, (expiry, changed), will, how, cut)| Unread {
            unread,
            before,
            reason,
            expiry,
            // a client without session expiry may not set one
            changed: changed.filter(|_| expiry.unwrap_or(0) > 0),
            will,
            how,
            cut,
        })
        .boxed()
}

pub fn unread_run(c: &Unread, o: &mut Obs) -> Res {
    paused(async {
        let (_broker, addr) = start_broker(|k| k.default_keep_alive = Duration::ZERO).await?;
        let mut seer = join(addr, &connect_pk("seer", true, 0, None, None)).await?.0;
        subscribed(&mut seer, &[("seen/#", 0)]).await?;
        let mut publ = join(addr, &connect_pk("p", true, 0, None, None)).await?.0;
        let will = c.will.then(|| will_pk("seen/will", 0, b"will"));
        let pk = connect_pk("leaver", true, 0, c.expiry, will);
        let mut p = join(addr, &pk).await?.0;
        subscribed(&mut p, &[("flood", 0)]).await?;
        // nothing is read from here on
        for n in 0..c.unread.0 {
            publ.send(&publish_pk("flood", 1, 1, vec![n; c.unread.1 as usize]).encode()).await?;
            match publ.recv("PUBACK").await? {
                Some(Pk::Ack { kind: 4, id: 1, reason: 0, .. }) => {}
                x => return hard(format!("{x:?} instead of PUBACK")),
            }
        }
        settle().await;
        let mut out = vec![];
        let mut due = vec![];
        for (n, k) in c.before.iter().enumerate() {
            let pk = match k {
                0 | 1 => {
                    due.push(vec![n as u8]);
                    publish_pk("seen/message", *k, n as u16 + 1, vec![n as u8])
                }
                2 => Pk::PingReq,
                3 => subscribe_pk(n as u16 + 1, &[("other", 0)]),
                _ => Pk::Unsubscribe { id: n as u16 + 1, props: vec![], filters: vec!["other".into()] },
            };
            out.extend(pk.encode());
        }
        let mut expiry = c.expiry.unwrap_or(0);
        if let Some(reason) = c.reason {
            let props: Props = c.changed.map(|s| (0x11, Val::U32(s))).into_iter().collect();
            expiry = c.changed.unwrap_or(expiry);
            out.extend(Pk::Disconnect { reason, props }.encode());
        }
        let step = if c.cut == 0 { out.len().max(1) } else { c.cut as usize };
        for part in out.chunks(step) {
            if p.send_some(part) != part.len() {
                return Err(Fail::Harness("a few bytes are not taken".into()));
            }
            if c.cut > 0 {
                turns(1).await;
            }
        }
        match c.how {
            0 => p.close(),
            1 => {
                p.fin();
                p.close()
            }
            _ => p.rst(),
        }
        settle().await;
        if c.will && c.reason != Some(0) {
            due.push(b"will".to_vec());
        }
        let certain = c.how < 2;
        if !certain && c.unread.0 > 0 {
            o.label("reset");
        }
        if c.unread.0 > 0 && c.reason == Some(0) && c.will {
            o.nontrivial();
        }
        let mut got = vec![];
        let w = Wait::new();
        while got.len() < due.len() {
            match seer.next()? {
                Some(Pk::Publish(m)) => got.push(m.payload),
                Some(x) => return hard(format!("the other client receives {x:?}")),
                None if seer.eof => return hard("the connection of another client is closed"),
                None => {}
            }
            if !w.pause().await {
                return soft(format!("due are {due:?}, received {got:?}"));
            }
        }
        // what is not due would have come
        for _ in 0..3 {
            settle().await;
        }
        ping(&mut seer, "the other client").await?;
        if got != due {
            return hard(format!("due are {due:?}, received {got:?}"));
        }
        let pk = connect_pk("leaver", false, 0, None, None);
        let (_p, present) = join(addr, &pk).await?;
        if present != (expiry > 0) {
            return hard(format!("session present is {present}, its expiry {expiry}"));
        }
        Ok(())
    })
}

pub fn unread_sub() -> Box<dyn Sub> {
    Prop::net("unread", 12_000, unread, unread_run).boxed()
}

// ------------------------------------------------------------------ clients that send and do not read

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Unreading {
    ka: u16,
    /// messages it is sent: how many, how long
    flood: (u8, u16),
    /// what it sends after how many per cent of the time it has: 0 PINGREQ, 1 and 2 messages of
    /// that QoS less one, 3 SUBSCRIBE
    sends: Vec<(u8, u8)>,
    /// reads at last, falls silent without reading otherwise
    reads: bool,
    /// its QoS
    qos: u8,
}

pub fn unreading(_: bool) -> BoxedStrategy<Unreading> {
    let amount = prop_oneof![
        3 => (0u8..30, 0u16..20_000),
        2 => (80u8..130, 60_000u16..65_000),
    ];
    (1u16..100, amount, vec((1u8..99, 0u8..4), 1..7), any::<bool>(), 0u8..2)
        .prop_map(|(ka, flood, sends, reads, qos)| Unreading { ka, flood, sends, reads, qos })
        .boxed()
}

pub fn unreading_run(c: &Unreading, o: &mut Obs) -> Res {
    paused(async {
        let (_broker, addr) = start_broker(|k| {
            k.default_keep_alive = Duration::ZERO;
            k.max_keep_alive = Duration::from_secs(1000);
        })
        .await?;
        let mut other = join(addr, &connect_pk("other", true, 0, None, None)).await?.0;
        subscribed(&mut other, &[("seen/#", 0)]).await?;
        let will = will_pk("seen/will", 0, b"will");
        let mut p = join(addr, &connect_pk("busy", true, c.ka, None, Some(will))).await?.0;
        subscribed(&mut p, &[("flood", c.qos)]).await?;
        for n in 0..c.flood.0 {
            other.send(&publish_pk("flood", 1, 1, vec![n; c.flood.1 as usize]).encode()).await?;
            match other.recv("PUBACK").await? {
                Some(Pk::Ack { kind: 4, id: 1, reason: 0, .. }) => {}
                x => return hard(format!("{x:?} instead of PUBACK")),
            }
        }
        settle().await;
        let time = c.ka as u64 * 1500;
        // the time runs from the last packet
        if !p.send(&Pk::PingReq.encode()).await? {
            return hard("a client is disconnected at once");
        }
        settle().await;
        let (mut pongs, mut due, mut acks) = (1, vec![], vec![]);
        for (n, (part, what)) in c.sends.iter().enumerate() {
            advance((time * *part as u64 / 100).saturating_sub(100).max(1)).await;
            let id = n as u16 + 1;
            let pk = match what {
                0 => {
                    pongs += 1;
                    Pk::PingReq
                }
                1 | 2 => {
                    due.push(vec![n as u8]);
                    if *what == 2 {
                        acks.push(id);
                    }
                    publish_pk("seen/message", *what - 1, id, vec![n as u8])
                }
                _ => {
                    acks.push(id);
                    subscribe_pk(id, &[("x", 0)])
                }
            };
            let b = pk.encode();
            if p.send_some(&b) != b.len() {
                return hard(format!("a client that sends is disconnected, {n} packets after the flood"));
            }
            settle().await;
        }
        let w = Wait::new();
        let mut got = vec![];
        while got.len() < due.len() {
            match other.next()? {
                Some(Pk::Publish(m)) => got.push(m.payload),
                Some(x) => return hard(format!("the other client receives {x:?}")),
                None if other.eof => return hard("the connection of another client is closed"),
                None => {}
            }
            if !w.pause().await {
                return soft(format!("messages of a client that does not read: due {due:?}, received {got:?}"));
            }
        }
        if got != due {
            return hard(format!("messages of a client that does not read: due {due:?}, received {got:?}"));
        }
        let before = c.sends.iter().map(|s| s.0 as u64).sum::<u64>() > 110;
        if before && c.flood.0 > 60 {
            o.nontrivial();
        }
        if c.reads {
            let w = Wait::new();
            let mut n = 0;
            while n < c.flood.0 || pongs > 0 || !acks.is_empty() {
                match p.next()? {
                    Some(Pk::Publish(m)) => {
                        if m.payload != vec![n; c.flood.1 as usize] || m.qos != c.qos {
                            return hard(format!("message {n} is damaged"));
                        }
                        n += 1;
                    }
                    Some(Pk::PingResp) if pongs > 0 => pongs -= 1,
                    Some(Pk::Ack { kind: 4, id, reason: 0, .. } | Pk::SubAck { id, .. })
                        if acks.first() == Some(&id) =>
                    {
                        acks.remove(0);
                    }
                    Some(x) => return hard(format!("a client that reads at last receives {x:?}")),
                    None if p.eof => return hard("a client that sent in time is disconnected"),
                    None => {}
                }
                if !w.pause().await {
                    return soft(format!("{n} messages arrive, {pongs} PINGRESP, {acks:?} are missing"));
                }
            }
            o.label("reads at last");
        }
        // and the time is what it is
        advance(time - 50 - 1).await;
        for _ in 0..2 {
            settle().await;
        }
        ping(&mut other, "the other client").await?;
        // DISCONNECT may take its time if the client does not read
        advance(101).await;
        for _ in 0..if c.reads { 0 } else { 10 } {
            advance(6_000).await;
        }
        let w = Wait::new();
        loop {
            match other.next()? {
                Some(Pk::Publish(m)) if m.payload == b"will" => return Ok(()),
                Some(x) => return hard(format!("the other client receives {x:?}")),
                None if !w.pause().await => return soft("the will of a client that fell silent does not come"),
                None => {}
            }
        }
    })
}

pub fn unreading_sub() -> Box<dyn Sub> {
    Prop::net("unreading", 8_000, unreading, unreading_run).boxed()
}
