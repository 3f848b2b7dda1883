//! Subscribers that limit what they are sent: Receive Maximum and Maximum Packet Size
use super::broker2::*;
use crate::bsim::*;
use crate::gen::fill;
use crate::net::*;
use crate::refcodec::{self, *};
use crate::runner::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Size {
    Bytes(u16),
    /// the packet is so much larger than the limit
    Limit(i8),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Step {
    /// the next messages, one after the other
    Publish(Vec<(u8, u8, Size)>),
    /// acknowledges one of the messages it has, refuses it
    Ack { sel: u8, refuse: bool },
    AckAll,
    /// acknowledges what it never received
    Stray(u16),
    Ping,
    Subscribe,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Link {
    receive_max: Option<u16>,
    max_packet: Option<u32>,
    steps: Vec<Step>,
    /// 0 DISCONNECT, 1 the end of the stream, 2 is taken over
    end: u8,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Flow {
    threads: u8,
    tls: bool,
    links: Vec<Link>,
}

/// topics and the QoS granted for them
const TOPICS: [(&str, u8); 4] = [("a", 1), ("b", 0), ("c/d", 1), ("e", 2)];

pub fn cases(_: bool) -> BoxedStrategy<Flow> {
    let size = prop_oneof![
        4 => (0u16..60).prop_map(Size::Bytes),
        1 => (0u16..4000).prop_map(Size::Bytes),
        4 => (-2i8..3).prop_map(Size::Limit),
    ];
    let step = prop_oneof![
        6 => vec((prop_oneof![3 => 0u8..3, 2 => Just(3u8)], prop_oneof![3 => 0u8..2, 2 => Just(2u8)], size), 1..9).prop_map(Step::Publish),
        6 => (any::<u8>(), prop::bool::weighted(0.15)).prop_map(|(sel, refuse)| Step::Ack { sel, refuse }),
        2 => Just(Step::AckAll),
        1 => any::<u16>().prop_map(Step::Stray),
        1 => Just(Step::Ping),
        1 => Just(Step::Subscribe),
    ];
    let link = (
        prop_oneof![8 => (1u16..6).prop_map(Some), 1 => Just(None), 1 => Just(Some(65_535))],
        prop_oneof![3 => Just(None), 3 => (40u32..300).prop_map(Some), 1 => (40u32..20_000).prop_map(Some), 1 => Just(Some(u32::MAX))],
        vec(step, 1..12),
        0u8..3,
    )
        .prop_map(|(receive_max, max_packet, steps, end)| Link { receive_max, max_packet, steps, end });
    (1u8..4, prop::bool::weighted(0.1), vec(link, 1..4))
        .prop_map(|(threads, tls, links)| Flow { threads, tls, links })
        .boxed()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum At {
    /// has to be delivered
    Due,
    /// may be delivered: it is not certain that the broker has come to it
    Maybe,
    /// received, not acknowledged
    Open(u16),
    /// received and acknowledged by PUBREC, PUBREL is due; on the connection it was received on?
    Rec(u16, bool),
    /// PUBREL received
    Rel(u16, bool),
    Done,
}

struct Mess {
    topic: usize,
    qos: u8,
    payload: Vec<u8>,
    /// the size of the packet the broker has to send
    size: usize,
    at: At,
    /// the identifier it had on an earlier connection
    id: Option<u16>,
}

struct World<'a> {
    o: &'a mut Obs,
    msgs: Vec<Mess>,
    receive_max: usize,
    max_packet: usize,
    replies: Vec<Pk>,
}

impl World<'_> {
    fn open(&self) -> usize {
        self.msgs
            .iter()
            .filter(|m| matches!(m.at, At::Open(_) | At::Rec(_, true) | At::Rel(_, true)))
            .count()
    }

    /// The messages that have to arrive without any further acknowledgement, and those too large
    /// the broker has come to
    fn must(&self) -> (Vec<usize>, Vec<usize>) {
        // the broker may count those it releases again
        let again = self.msgs.iter().filter(|m| matches!(m.at, At::Rel(_, false))).count();
        let mut free = self.receive_max.saturating_sub(self.open() + again);
        let (mut must, mut past) = (vec![], vec![]);
        for (n, m) in self.msgs.iter().enumerate() {
            if let At::Rec(_, true) = m.at {
                must.push(n);
                continue;
            }
            if free == 0 {
                continue;
            }
            match m.at {
                At::Rec(..) => {
                    must.push(n);
                    free -= 1;
                }
                At::Due if m.size > self.max_packet => past.push(n),
                At::Due => {
                    must.push(n);
                    free -= m.qos.min(1) as usize;
                }
                At::Maybe if m.size > self.max_packet => past.push(n),
                At::Maybe => free -= m.qos.min(1) as usize,
                _ => {}
            }
        }
        (must, past)
    }

    fn received(&mut self, g: &refcodec::Publish) -> Res {
        let what = format!("message {:?}.. on {:?} at QoS {}", &g.payload[..3.min(g.payload.len())], g.topic, g.qos);
        let size = Pk::Publish(g.clone()).encode().len();
        if size > self.max_packet {
            return hard(format!("{what}: {size} bytes, the client accepts {}", self.max_packet));
        }
        let Some(n) = self.msgs.iter().position(|m| {
            m.payload == g.payload && m.qos == g.qos && TOPICS[m.topic].0 == g.topic
        }) else {
            return hard(format!("{what} was not sent"));
        };
        if !matches!(self.msgs[n].at, At::Due | At::Maybe) {
            return hard(format!("{what} is not due: {:?}", self.msgs[n].at));
        }
        let lane = |m: &Mess| (m.topic, m.qos);
        if let Some(b) = self.msgs[..n].iter().find(|m| {
            m.at == At::Due && m.size <= self.max_packet && lane(m) == lane(&self.msgs[n])
        }) {
            return hard(format!("{what} comes before {:?}", &b.payload[..3]));
        }
        if g.qos > 0 {
            let open = self.open();
            if open >= self.receive_max {
                return hard(format!(
                    "{what} comes while {open} are unacknowledged, the receive maximum is {}",
                    self.receive_max
                ));
            }
            if g.id == 0
                || self.msgs.iter().any(|m| {
                    matches!(m.at, At::Open(id) | At::Rec(id, _) | At::Rel(id, _) if id == g.id)
                })
            {
                return hard(format!("{what}: packet identifier {} is in use", g.id));
            }
            if let Some(id) = self.msgs[n].id {
                if id != g.id || !g.dup {
                    return hard(format!("{what} comes again with {} instead of {id}, DUP {}", g.id, g.dup));
                }
                self.o.label("delivered again");
            }
            self.msgs[n].id = Some(g.id);
            self.msgs[n].at = At::Open(g.id);
        } else {
            self.msgs[n].at = At::Done;
        }
        // what was too large before it has been passed
        let (before, after) = self.msgs.split_at_mut(n);
        for m in before {
            if matches!(m.at, At::Due | At::Maybe) && m.size > self.max_packet && lane(m) == lane(&after[0]) {
                self.o.label("too large, discarded");
                m.at = At::Done;
            }
        }
        self.o.step();
        Ok(())
    }

    fn released(&mut self, id: u16) -> Res {
        let m = self.msgs.iter_mut().find(|m| matches!(m.at, At::Rec(i, _) if i == id));
        match m {
            Some(m) => {
                let At::Rec(_, here) = m.at else { return Ok(()) };
                if !here {
                    self.o.label("released again");
                }
                m.at = At::Rel(id, here);
                self.o.step();
                Ok(())
            }
            None => hard(format!("PUBREL {id} for no message that waits for it")),
        }
    }

    fn pump(&mut self, p: &mut Peer) -> Res {
        while let Some(pk) = p.next()? {
            match pk {
                Pk::Publish(m) => self.received(&m)?,
                Pk::Ack { kind: 6, id, reason: 0, .. } => self.released(id)?,
                x => self.replies.push(x),
            }
        }
        if p.eof {
            return hard(format!("the subscriber's connection is closed, {:?}", self.replies));
        }
        Ok(())
    }

    /// What is due comes, and nothing else
    async fn arrive(&mut self, p: &mut Peer) -> Res {
        let w = Wait::new();
        loop {
            self.pump(p)?;
            let (must, past) = self.must();
            if must.is_empty() {
                for n in past {
                    self.o.label("too large, discarded");
                    self.msgs[n].at = At::Done;
                }
                if self.open() == self.receive_max {
                    self.o.label("at the receive maximum");
                    if self.msgs.iter().any(|m| m.at == At::Due) {
                        self.o.label("held back");
                        self.o.nontrivial();
                    }
                }
                return Ok(());
            }
            if !w.pause().await {
                let m = &self.msgs[must[0]];
                if let At::Rec(id, _) = m.at {
                    return soft(format!("no PUBREL for {id}, {} of {} are unacknowledged", self.open(), self.receive_max));
                }
                return soft(format!(
                    "message {:?} ({} bytes, limit {}) at QoS {} is not delivered, {} of {} are unacknowledged",
                    &m.payload[..3], m.size, self.max_packet, m.qos, self.open(), self.receive_max
                ));
            }
        }
    }

    async fn answer(&mut self, p: &mut Peer, what: &str) -> Result<Pk, Fail> {
        let w = Wait::new();
        loop {
            self.pump(p)?;
            if !self.replies.is_empty() {
                return Ok(self.replies.remove(0));
            }
            if !w.pause().await {
                return soft(format!("the subscriber does not receive {what}"));
            }
        }
    }
}

pub fn run(c: &Flow, o: &mut Obs) -> Res {
    threads(c.threads.clamp(1, 4) as usize, async {
        let (_broker, addr) = start_broker(|k| {
            k.default_keep_alive = Duration::ZERO;
            k.session_channel_size = 2000;
            k.tls_acceptor = c.tls.then(|| tls().acceptor.clone());
        })
        .await?;
        let mut publ = join_on(addr, &connect_pk("p", true, 0, None, None), c.tls).await?.0;
        let mut w = World { o, msgs: vec![], receive_max: 0, max_packet: 0, replies: vec![] };
        let mut sub: Option<Peer> = None;
        for (l, link) in c.links.iter().enumerate() {
            let mut pk = connect_pk("s", false, 0, Some(3600), None);
            if let Pk::Connect(k) = &mut pk {
                k.props.extend(link.receive_max.map(|n| (0x21, Val::U16(n))));
                k.props.extend(link.max_packet.map(|n| (0x27, Val::U32(n))));
            }
            w.receive_max = link.receive_max.unwrap_or(65_535) as usize;
            w.max_packet = link.max_packet.map_or(usize::MAX, |n| n as usize);
            for m in &mut w.msgs {
                m.at = match m.at {
                    At::Done => At::Done,
                    _ if m.qos == 0 => At::Done,
                    At::Open(_) => At::Due,
                    At::Rec(id, _) | At::Rel(id, _) => At::Rec(id, false),
                    // too large on a connection before, it may have been discarded as too large before the connection ended
                    At::Due | At::Maybe if m.size > m_limit(c, l) => At::Maybe,
                    x => x,
                };
            }
            let (p, present) = join_on(addr, &pk, c.tls).await?;
            if let Some(mut old) = sub.replace(p) {
                old.close();
            }
            let Some(p) = sub.as_mut() else { continue };
            if present != (l > 0) {
                return hard(format!("session present is {present} on connection {l}"));
            }
            if l == 0 {
                subscribed(p, &TOPICS).await?;
            }
            w.arrive(p).await?;
            for s in &link.steps {
                step(&mut w, s, p, &mut publ).await?;
                w.arrive(p).await?;
            }
            // a message too many would have been under way
            settle().await;
            w.pump(p)?;
            if !p.send(&Pk::PingReq.encode()).await? {
                return hard("the subscriber's connection is closed");
            }
            match w.answer(p, "PINGRESP").await? {
                Pk::PingResp => {}
                x => return hard(format!("{x:?} instead of PINGRESP")),
            }
            w.arrive(p).await?;
            match link.end {
                0 => {
                    w.o.label("DISCONNECT");
                    p.send(&Pk::Disconnect { reason: 0, props: vec![] }.encode()).await?;
                    leftover(&mut w, p).await?;
                }
                1 => {
                    w.o.label("end of stream");
                    p.fin();
                    leftover(&mut w, p).await?;
                }
                _ => w.o.label("taken over"),
            }
        }
        Ok(())
    })
}

/// The limit of the connection before
fn m_limit(c: &Flow, l: usize) -> usize {
    match l {
        0 => usize::MAX,
        l => c.links[..l].iter().filter_map(|k| k.max_packet).min().map_or(usize::MAX, |n| n as usize),
    }
}

async fn leftover(w: &mut World<'_>, p: &mut Peer) -> Res {
    for pk in p.rest("the end of the subscriber's connection").await? {
        match pk {
            Pk::Publish(m) => w.received(&m)?,
            Pk::Ack { kind: 6, id, reason: 0, .. } => w.released(id)?,
            x => return hard(format!("the subscriber receives {x:?} at its end")),
        }
    }
    Ok(())
}

async fn step(w: &mut World<'_>, s: &Step, p: &mut Peer, publ: &mut Peer) -> Res {
    let mut out = vec![];
    match s {
        Step::Publish(list) => {
            let (mut ids, mut recs) = (BTreeMap::new(), vec![]);
            for (k, (topic, qos, size)) in list.iter().enumerate() {
                let n = w.msgs.len();
                let (name, granted) = TOPICS[*topic as usize % TOPICS.len()];
                let eff = granted.min(*qos);
                let make = |len: usize, q: u8| {
                    let mut payload = vec![(n >> 8) as u8, n as u8, k as u8];
                    payload.extend(fill(len, n as u64));
                    publish_pk(name, q, k as u16 + 1, payload)
                };
                let len = match size {
                    Size::Bytes(b) => *b as usize,
                    Size::Limit(d) => {
                        let limit = w.max_packet.min(5000) as i64 + *d as i64;
                        // what is around the payload, which the remaining length is part of
                        (0..8)
                            .map(|o| limit - make(0, eff).encode().len() as i64 - o)
                            .find(|l| *l >= 0 && make(*l as usize, eff).encode().len() as i64 <= limit)
                            .unwrap_or(0) as usize
                    }
                };
                let size = make(len, eff).encode().len();
                if size == w.max_packet {
                    w.o.label("exactly the maximum packet size");
                }
                let pk = make(len, *qos);
                let Pk::Publish(m) = &pk else { continue };
                if m.qos > 0 {
                    ids.insert(m.id, m.qos);
                }
                w.msgs.push(Mess {
                    topic: *topic as usize % TOPICS.len(),
                    qos: eff,
                    payload: m.payload.clone(),
                    size,
                    at: At::Due,
                    id: None,
                });
                out.extend(pk.encode());
            }
            out.extend(Pk::PingReq.encode());
            if !publ.send(&out).await? {
                return hard("the publisher's connection is closed");
            }
            loop {
                match publ.recv("PUBACK and PINGRESP").await? {
                    Some(Pk::Ack { kind: 4, id, reason: 0, .. }) if ids.get(&id) == Some(&1) => {
                        ids.remove(&id);
                    }
                    Some(Pk::Ack { kind: 5, id, reason: 0, .. }) if ids.get(&id) == Some(&2) => {
                        ids.remove(&id);
                        recs.push(id);
                    }
                    Some(Pk::PingResp) if ids.is_empty() => break,
                    x => return hard(format!("the publisher receives {x:?}")),
                }
            }
            for id in recs {
                publ.send(&Pk::Ack { kind: 6, id, reason: 0, props: vec![] }.encode()).await?;
                match publ.recv("PUBCOMP").await? {
                    Some(Pk::Ack { kind: 7, id: i, reason: 0, .. }) if i == id => {}
                    x => return hard(format!("the publisher receives {x:?}")),
                }
            }
            return Ok(());
        }
        Step::Ack { sel, refuse } => {
            let open: Vec<usize> =
                (0..w.msgs.len()).filter(|n| matches!(w.msgs[*n].at, At::Open(_) | At::Rel(..))).collect();
            if open.is_empty() {
                return Ok(());
            }
            let n = open[*sel as usize % open.len()];
            out = acknowledge(&mut w.msgs[n], *refuse);
        }
        Step::AckAll => {
            for m in &mut w.msgs {
                out.extend(acknowledge(m, false));
            }
        }
        Step::Stray(id) => {
            // not one the broker has given to a message, received or not
            if w.msgs.iter().any(|m| m.at != At::Done) || *id == 0 {
                return Ok(());
            }
            w.o.label("stray acknowledgement");
            out = Pk::Ack { kind: 4, id: *id, reason: 0, props: vec![] }.encode();
            // before the identifier is given to a message
            out.extend(Pk::PingReq.encode());
            if !p.send(&out).await? {
                return hard("the subscriber's connection is closed");
            }
            return match w.answer(p, "PINGRESP").await? {
                Pk::PingResp => Ok(()),
                x => hard(format!("the subscriber receives {x:?}")),
            };
        }
        Step::Ping | Step::Subscribe => {
            if w.open() == w.receive_max {
                w.o.label("requests at the receive maximum");
            }
            let ping = matches!(s, Step::Ping);
            out = if ping { Pk::PingReq.encode() } else { subscribe_pk(9, &TOPICS[..2]).encode() };
            if !p.send(&out).await? {
                return hard("the subscriber's connection is closed");
            }
            return match w.answer(p, if ping { "PINGRESP" } else { "SUBACK" }).await? {
                Pk::PingResp if ping => Ok(()),
                Pk::SubAck { id: 9, .. } if !ping => Ok(()),
                x => hard(format!("the subscriber receives {x:?}")),
            };
        }
    }
    if !out.is_empty() && !p.send(&out).await? {
        return hard("the subscriber's connection is closed");
    }
    Ok(())
}

/// What the subscriber has to send next for a message
fn acknowledge(m: &mut Mess, refuse: bool) -> Vec<u8> {
    let ack = |kind, id, reason| Pk::Ack { kind, id, reason, props: vec![] }.encode();
    let reason = if refuse { 0x97 } else { 0 };
    match m.at {
        At::Open(id) if m.qos == 2 => {
            m.at = if refuse { At::Done } else { At::Rec(id, true) };
            ack(5, id, reason)
        }
        At::Open(id) => {
            m.at = At::Done;
            ack(4, id, reason)
        }
        At::Rel(id, _) => {
            m.at = At::Done;
            ack(7, id, 0)
        }
        _ => vec![],
    }
}

pub fn b14() -> Property {
    Property {
        id: "B14",
        rule: "a message is held back because of the receive maximum",
        assumptions: &["loopback TCP works", "12 s are enough for a message over loopback"],
        subs: vec![Prop::net("limits", 25_000, cases, run).boxed()],
    }
}
