//! Floods and simultaneous connections on a broker with several threads
use super::broker2::*;
use crate::bsim::*;
use crate::net::*;
use crate::refcodec::{self, *};
use crate::runner::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, VecDeque};
use std::time::Duration;

// ------------------------------------------------------------------ B03: order under load

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Sub {
    filter: u8,
    qos: u8,
    /// acknowledges every so many messages at once, 0: never
    ack: u8,
    /// reads nothing before so many steps have passed
    lazy: u8,
    expiry: bool,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Flood {
    threads: u8,
    /// 0: as large as needed
    channel: u16,
    tls: bool,
    subs: Vec<Sub>,
    /// per publisher: topic, QoS, payload length
    publishers: Vec<Vec<(u8, u8, u16)>>,
    /// what is done in turn: which publisher sends how many bytes
    steps: Vec<(u8, u16)>,
    /// connections that come and go meanwhile
    noise: u8,
}

const TOPICS: [&str; 4] = ["a", "a/b", "a/c", "x/b"];
const FILTERS: [&str; 5] = ["#", "a/#", "+/b", "a/b", "x/+"];

pub fn flood(_: bool) -> BoxedStrategy<Flood> {
    let sub = (0u8..5, 0u8..2, 0u8..4, prop_oneof![3 => Just(0u8), 1 => any::<u8>()], any::<bool>())
        .prop_map(|(filter, qos, ack, lazy, expiry)| Sub { filter, qos, ack, lazy, expiry });
    let len = prop_oneof![6 => 0u16..40, 2 => 0u16..3000, 1 => 4000u16..20000];
    (
        (1u8..4, prop_oneof![3 => Just(0u16), 1 => 1u16..40], 0u8..12),
        vec(sub, 1..4),
        vec(vec((0u8..4, 0u8..2, len), 1..60), 1..4),
        vec((any::<u8>(), prop_oneof![1u16..30, 1u16..4000]), 1..40),
        prop_oneof![2 => Just(0u8), 1 => 1u8..6],
    )
        .prop_map(|((threads, channel, tls), subs, publishers, steps, noise)| Flood {
            threads,
            channel,
            tls: tls == 0,
            subs,
            publishers,
            steps,
            noise,
        })
        .boxed()
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct Sent {
    topic: &'static str,
    qos: u8,
    payload: Vec<u8>,
    publisher: usize,
}

fn payload(p: usize, n: usize, len: u16) -> Vec<u8> {
    let mut v = vec![p as u8, (n >> 8) as u8, n as u8];
    v.resize(3 + len as usize, n as u8);
    v
}

struct Reader {
    peer: Peer,
    sub: Sub,
    got: Vec<refcodec::Publish>,
    /// identifiers received and not acknowledged
    unacked: Vec<u16>,
    acked: usize,
    end: Option<Option<u8>>,
    pong: bool,
}

impl Reader {
    async fn pump(&mut self, o: &mut Obs) -> Res {
        if self.end.is_some() {
            return Ok(());
        }
        let mut acks = vec![];
        while let Some(p) = self.peer.next()? {
            match p {
                Pk::Publish(m) => {
                    if m.qos > 0 {
                        if m.id == 0 || self.unacked.contains(&m.id) {
                            return hard(format!("packet identifier {} is used twice", m.id));
                        }
                        self.unacked.push(m.id);
                    }
                    self.got.push(m);
                    let due = match self.sub.ack {
                        0 => 0,
                        n if self.unacked.len() >= n as usize => self.unacked.len(),
                        _ => 0,
                    };
                    self.acked += due;
                    for id in self.unacked.drain(..due) {
                        acks.extend(Pk::Ack { kind: 4, id, reason: 0, props: vec![] }.encode());
                    }
                }
                Pk::Disconnect { reason, .. } => self.end = Some(Some(reason)),
                Pk::PingResp => self.pong = true,
                p => return hard(format!("a subscriber receives {p:?}")),
            }
        }
        if self.peer.eof && self.end.is_none() {
            self.end = Some(None);
        }
        if !acks.is_empty() && self.end.is_none() && !self.peer.send(&acks).await? {
            o.log(|| "acknowledgements are not taken".into());
        }
        Ok(())
    }
}

pub fn flood_run(c: &Flood, o: &mut Obs) -> Res {
    threads(c.threads.clamp(1, 4) as usize, async {
        let total: usize = c.publishers.iter().map(Vec::len).sum();
        let channel = if c.channel == 0 { total + 10 } else { c.channel as usize };
        let (mut broker, addr) = start_broker(|k| {
            k.default_keep_alive = Duration::ZERO;
            k.session_channel_size = channel;
            k.tls_acceptor = c.tls.then(|| tls().acceptor.clone());
        })
        .await?;
        let mut readers = vec![];
        for (i, s) in c.subs.iter().enumerate() {
            let pk = connect_pk(&format!("s{i}"), true, 0, s.expiry.then_some(600), None);
            let mut p = join_on(addr, &pk, c.tls).await?.0;
            subscribed(&mut p, &[(FILTERS[s.filter as usize % 5], s.qos)]).await?;
            readers.push(Reader {
                peer: p,
                sub: s.clone(),
                got: vec![],
                unacked: vec![],
                acked: 0,
                end: None,
                pong: false,
            });
        }
        let mut publishers = vec![];
        let mut all: Vec<Vec<Sent>> = vec![];
        for (i, msgs) in c.publishers.iter().enumerate() {
            let p = join_on(addr, &connect_pk(&format!("p{i}"), true, 0, None, None), c.tls).await?.0;
            let mut bytes = vec![];
            let mut acks = VecDeque::new();
            let mut sent = vec![];
            for (n, (t, q, len)) in msgs.iter().enumerate() {
                let topic = TOPICS[*t as usize % 4];
                let qos = *q % 2;
                let body = payload(i, n, *len);
                bytes.extend(publish_pk(topic, qos, n as u16 + 1, body.clone()).encode());
                if qos > 0 {
                    acks.push_back(n as u16 + 1);
                }
                sent.push(Sent { topic, qos, payload: body, publisher: i });
            }
            all.push(sent);
            publishers.push((p, bytes, 0usize, acks));
        }
        let mut noise: Vec<Peer> = vec![];
        let mut step = 0usize;
        let w = Wait::new();
        loop {
            let left = publishers.iter().any(|(_, b, at, _)| *at < b.len());
            let waiting = publishers.iter().any(|(_, _, _, acks)| !acks.is_empty());
            if !left && !waiting {
                break;
            }
            let (who, n) = c.steps[step % c.steps.len()];
            let k = publishers.len();
            let (p, b, at, _) = &mut publishers[(who as usize + step / c.steps.len()) % k];
            // no case takes long
            let n = if step > 200 { usize::MAX / 2 } else { n as usize };
            let end = (*at + n).min(b.len());
            *at += p.send_some(&b[*at..end]);
            for (i, (p, _, _, acks)) in publishers.iter_mut().enumerate() {
                while let Some(pk) = p.next()? {
                    match (pk, acks.front()) {
                        (Pk::Ack { kind: 4, id, reason: 0, .. }, Some(x)) if id == *x => {
                            acks.pop_front();
                        }
                        (pk, x) => {
                            return hard(format!("publisher {i} receives {pk:?}, PUBACK {x:?} is due"))
                        }
                    }
                }
                if p.eof {
                    return hard(format!("the connection of publisher {i} is closed"));
                }
            }
            for r in &mut readers {
                if step >= r.sub.lazy as usize {
                    r.pump(o).await?;
                }
            }
            if c.noise > 0 && step < 40 {
                let mut x = Peer::connect(addr)?;
                let id = format!("n{}", step % c.noise as usize);
                let mut b = connect_pk(&id, step % 3 == 0, 0, (step % 2 == 0).then_some(9), None).encode();
                b.extend(subscribe_pk(1, &[("#", 1), ("a/+", 0)]).encode());
                if !c.tls {
                    x.send_some(&b);
                }
                noise.push(x);
                if noise.len() > 3 {
                    match step % 3 {
                        0 => noise[0].rst(),
                        1 => noise[0].fin(),
                        _ => noise[0].close(),
                    }
                    noise.remove(0);
                }
            }
            step += 1;
            if !w.pause().await {
                let open: Vec<usize> = publishers.iter().map(|p| p.3.len()).collect();
                return soft(format!("PUBACKs are missing: {open:?}"));
            }
        }
        // all messages are routed (QoS 0 ones by a following PINGREQ)
        for (p, ..) in &mut publishers {
            ping(p, "a publisher").await?;
        }
        for (i, r) in readers.iter_mut().enumerate() {
            let due: Vec<Sent> = expected(&all, &r.sub);
            // whatever was queued comes before PINGRESP or not: wait for the messages
            let w = Wait::new();
            while r.end.is_none() && r.got.len() < due.len() {
                r.pump(o).await?;
                if !w.pause().await {
                    return soft(format!(
                        "subscriber {i} receives {} of {} messages",
                        r.got.len(),
                        due.len()
                    ));
                }
            }
            let complete = check_order(i, r, &all, &due)?;
            match r.end {
                None => {
                    o.label("all received");
                    if due.len() > 20 {
                        o.nontrivial();
                    }
                    ping(&mut r.peer, "a subscriber").await?;
                }
                Some(_) if due.len() <= channel => {
                    return hard(format!(
                        "subscriber {i} is disconnected ({:?}), {} messages were due, {channel} are queued",
                        r.end,
                        due.len()
                    ))
                }
                Some(reason) => {
                    o.label("slow subscriber disconnected");
                    o.nontrivial();
                    if reason.is_some_and(|x| x != 0x97) {
                        return hard(format!("a slow subscriber is told {reason:?}"));
                    }
                    let _ = complete;
                    if r.sub.expiry {
                        resumed(i, r, addr, c.tls, &due).await?;
                        o.label("slow subscriber resumed");
                    }
                }
            }
        }
        broker.stop().await;
        Ok(())
    })
}

fn expected(all: &[Vec<Sent>], s: &Sub) -> Vec<Sent> {
    let f = FILTERS[s.filter as usize % 5];
    all.iter()
        .flatten()
        .filter(|m| matches(f, m.topic))
        .map(|m| Sent { qos: m.qos.min(s.qos), ..m.clone() })
        .collect()
}

/// Per publisher, topic and QoS the messages received are the first of those sent, in order
fn check_order(i: usize, r: &Reader, all: &[Vec<Sent>], due: &[Sent]) -> Result<bool, Fail> {
    let mut lanes: BTreeMap<(usize, &str, u8), VecDeque<&Sent>> = BTreeMap::new();
    for m in due {
        lanes.entry((m.publisher, m.topic, m.qos)).or_default().push_back(m);
    }
    let _ = all;
    for g in &r.got {
        let p = g.payload.first().copied().unwrap_or(0) as usize;
        let next = lanes.get_mut(&(p, g.topic.as_str(), g.qos)).and_then(|l| l.pop_front());
        match next {
            Some(m) if m.payload == g.payload && !g.dup => {}
            m => {
                return hard(format!(
                    "subscriber {i} receives message {:?} of publisher {p} on {:?} qos {} dup {}, due is {:?}",
                    &g.payload[..3.min(g.payload.len())],
                    g.topic,
                    g.qos,
                    g.dup,
                    m.map(|m| &m.payload[..3])
                ))
            }
        }
    }
    Ok(lanes.values().all(|l| l.is_empty()))
}

/// What a disconnected subscriber gets when it resumes its session: the QoS 1 messages it did
/// not acknowledge, in order, and possibly more of those it did not receive
async fn resumed(i: usize, r: &mut Reader, addr: std::net::SocketAddr, tls: bool, due: &[Sent]) -> Res {
    r.peer.close();
    // the old connection may not have ended yet: taken over then
    let (mut p, present) =
        join_on(addr, &connect_pk(&format!("s{i}"), false, 0, Some(600), None), tls).await?;
    if !present {
        return hard(format!("the session of slow subscriber {i} is lost"));
    }
    let mut again = vec![];
    p.send(&Pk::PingReq.encode()).await?;
    match reply(&mut p, "PINGRESP after resuming", &mut again).await? {
        Pk::PingResp => {}
        x => return hard(format!("{x:?} instead of PINGRESP")),
    }
    let seen: Vec<_> = r.got.iter().filter(|m| m.qos > 0).collect();
    // PINGRESP may have come between them
    let w = Wait::new();
    while !seen[r.acked..].iter().all(|m| again.iter().any(|g| g.payload == m.payload)) {
        while let Some(pk) = p.next()? {
            match pk {
                Pk::Publish(m) => again.push(m),
                x => return hard(format!("subscriber {i} resumes and receives {x:?}")),
            }
        }
        if p.eof || !w.pause().await {
            return soft(format!("subscriber {i} resumes, not all messages come again"));
        }
    }
    let acked: Vec<&Vec<u8>> = seen[..r.acked].iter().map(|m| &m.payload).collect();
    let mut held: VecDeque<_> =
        seen[r.acked..].iter().map(|m| (m.id, m.topic.clone(), m.payload.clone())).collect();
    let mut lanes: BTreeMap<(usize, &str), VecDeque<&Sent>> = BTreeMap::new();
    for m in due.iter().filter(|m| m.qos > 0 && !seen.iter().any(|s| s.payload == m.payload)) {
        lanes.entry((m.publisher, m.topic)).or_default().push_back(m);
    }
    for m in &again {
        let what = format!("message {:?} on {:?}", &m.payload[..3.min(m.payload.len())], m.topic);
        if let Some((id, topic, payload)) = held.pop_front() {
            if (m.id, &m.topic, &m.payload) != (id, &topic, &payload) || !m.dup {
                // acknowledgements the broker did not read before it closed the connection
                let known = acked.contains(&&m.payload);
                if known && m.dup {
                    held.push_front((id, topic, payload));
                    continue;
                }
                return hard(format!(
                    "subscriber {i} resumes: {what} id {} dup {} instead of {:?} id {id}",
                    m.id, m.dup, &payload[..3]
                ));
            }
            continue;
        }
        if acked.contains(&&m.payload) && m.dup {
            continue;
        }
        let p = m.payload.first().copied().unwrap_or(0) as usize;
        let next = lanes.get_mut(&(p, m.topic.as_str())).and_then(|l| l.pop_front());
        match next {
            Some(s) if s.payload == m.payload => {}
            s => {
                return hard(format!(
                    "subscriber {i} resumes: {what}, due is {:?}",
                    s.map(|s| &s.payload[..3])
                ))
            }
        }
    }
    if !held.is_empty() {
        return hard(format!("subscriber {i} resumes: {} messages do not come again", held.len()));
    }
    Ok(())
}

// ------------------------------------------------------------------ B06: simultaneous connections

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Rival {
    clean: bool,
    expiry: bool,
    /// 0, 1: stays; 2 sends DISCONNECT, 3 ends its stream, right after CONNECT
    then: u8,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Rivals {
    threads: u8,
    cap: bool,
    /// rivals of one identifier that connect at the same time; the rounds follow one another
    rounds: Vec<Vec<Rival>>,
    /// how the owner leaves as the next round begins: 0 stays, 1 DISCONNECT, 2 end, 3 reset
    leave: u8,
}

pub fn rivals(_: bool) -> BoxedStrategy<Rivals> {
    let r = (any::<bool>(), any::<bool>(), 0u8..5)
        .prop_map(|(clean, expiry, then)| Rival { clean, expiry, then: then.saturating_sub(1) });
    (1u8..5, any::<bool>(), vec(vec(r, 1..5), 1..4), 0u8..4)
        .prop_map(|(threads, cap, rounds, leave)| Rivals { threads, cap, rounds, leave })
        .boxed()
}

pub fn rivals_run(c: &Rivals, o: &mut Obs) -> Res {
    threads(c.threads.clamp(1, 4) as usize, async {
        let (mut broker, addr) = start_broker(|k| {
            k.default_keep_alive = Duration::ZERO;
            k.max_active_sessions = c.cap.then_some(2);
        })
        .await?;
        let (mut w, _) = join(addr, &connect_pk("watcher", true, 0, None, None)).await?;
        subscribed(&mut w, &[("w/#", 0)]).await?;
        let mut serial = 0u8;
        let mut owner: Option<(Peer, u8)> = None;
        // wills that must come, may come
        let mut must: Vec<u8> = vec![];
        let mut may: Vec<u8> = vec![];
        let mut seen: Vec<u8> = vec![];
        for (n, round) in c.rounds.iter().enumerate() {
            let mut peers = vec![];
            for r in round {
                serial += 1;
                let p = Peer::connect(addr)?;
                let mut b = connect_pk(
                    "same",
                    r.clean,
                    0,
                    r.expiry.then_some(600),
                    Some(will_pk(&format!("w/{serial}"), 0, &[serial])),
                )
                .encode();
                if r.then == 2 {
                    b.extend(Pk::Disconnect { reason: 0, props: vec![] }.encode());
                }
                peers.push((p, b, r.clone(), serial, false));
            }
            if let Some((mut p, s)) = owner.take() {
                match c.leave {
                    0 => must.push(s),
                    1 => {
                        p.send(&Pk::Disconnect { reason: 0, props: vec![] }.encode()).await?;
                        // taken over before that is read, its will is published
                        may.push(s);
                    }
                    2 => {
                        p.fin();
                        must.push(s)
                    }
                    _ => {
                        p.rst();
                        must.push(s)
                    }
                }
                // stays to see its end
                peers.push((p, vec![], Rival { clean: false, expiry: false, then: 9 }, s, true));
            }
            for (p, b, ..) in &mut peers {
                p.send(b).await?;
            }
            for (p, _, r, ..) in &mut peers {
                match r.then {
                    3 => p.fin(),
                    _ => {}
                }
            }
            for (.., r, s, _) in &peers {
                match r.then {
                    0 | 1 | 9 => {}
                    // accepted or not, taken over or not
                    2 => may.push(*s),
                    _ => must.push(*s),
                }
            }
            // all are answered, one stays
            let stay = peers.iter().filter(|p| p.2.then <= 1).count();
            let wait = Wait::new();
            loop {
                let mut open = 0;
                for (p, _, r, s, up) in &mut peers {
                    if !p.is_open() {
                        continue;
                    }
                    while let Some(pk) = p.next()? {
                        match pk {
                            Pk::ConnAck { reason: 0, .. } if !*up => *up = true,
                            Pk::ConnAck { reason: 0x97, .. } if !*up && c.cap => {
                                return hard(format!("connection {s} is refused, it shares its identifier"))
                            }
                            Pk::Disconnect { reason: 0x8e, .. } => {}
                            pk => return hard(format!("connection {s} receives {pk:?}")),
                        }
                    }
                    if !p.eof && r.then <= 1 {
                        open += 1;
                    }
                }
                let answered = peers
                    .iter()
                    .all(|(p, _, r, _, up)| !p.is_open() || p.eof || (r.then <= 1 && *up));
                if open == 1.min(stay) && answered {
                    break;
                }
                if open == 0 && stay > 0 {
                    // the owner may have been taken over by one that left at once
                    let left = peers.iter().any(|p| (2..=3).contains(&p.2.then));
                    if left && answered {
                        break;
                    }
                    if answered {
                        return hard(format!("round {n}: all {stay} connections are closed"));
                    }
                }
                if !wait.pause().await {
                    return soft(format!("round {n}: {open} of {stay} connections stay open"));
                }
            }
            for (p, _, r, s, up) in peers {
                if p.is_open() && !p.eof && r.then <= 1 && up {
                    owner = Some((p, s));
                } else if r.then <= 1 {
                    must.push(s);
                }
            }
            if round.len() > 1 {
                o.nontrivial();
                o.label(format!("rivals: {}", round.len()));
            }
            // the connection that is left works
            // one that left at once may have taken it over, which it is still to be told
            let certain = round.iter().all(|r| r.then <= 1);
            if let Some((p, s)) = owner.as_mut().filter(|_| certain) {
                let topic = format!("t/{s}");
                subscribed(p, &[(&topic, 0)]).await?;
                w.send(&publish_pk(&topic, 0, 0, vec![*s]).encode()).await?;
                let wait = Wait::new();
                loop {
                    if let Some(pk) = p.next()? {
                        match pk {
                            Pk::Publish(m) if m.topic == topic && m.payload == [*s] => break,
                            pk => return hard(format!("the newest connection receives {pk:?}")),
                        }
                    }
                    if p.eof {
                        return hard("the connection that was left is closed");
                    }
                    if !wait.pause().await {
                        return soft("the connection that was left receives nothing");
                    }
                }
            }
        }
        if let Some((mut p, s)) = owner {
            p.rst();
            must.push(s);
        }
        // each will once
        must.sort();
        let wait = Wait::new();
        loop {
            while let Some(pk) = w.next()? {
                match pk {
                    Pk::Publish(m) if m.topic.starts_with("w/") && m.payload.len() == 1 => {
                        let s = m.payload[0];
                        if seen.contains(&s) {
                            return hard(format!("the will of connection {s} is published twice"));
                        }
                        if !must.contains(&s) && !may.contains(&s) {
                            return hard(format!("the will of connection {s} is published"));
                        }
                        seen.push(s);
                    }
                    pk => return hard(format!("the watcher receives {pk:?}")),
                }
            }
            if must.iter().all(|s| seen.contains(s)) {
                break;
            }
            if !wait.pause().await {
                let missing: Vec<_> = must.iter().filter(|s| !seen.contains(s)).collect();
                return soft(format!("the wills of connections {missing:?} are not published"));
            }
        }
        // the place is given back, nothing more comes
        let wait = Wait::new();
        loop {
            let mut p = Peer::connect(addr)?;
            p.send(&connect_pk("other", true, 0, None, None).encode()).await?;
            match p.recv("CONNACK").await? {
                Some(Pk::ConnAck { reason: 0, .. }) => break,
                Some(Pk::ConnAck { reason: 0x97, .. }) if c.cap => {}
                x => return hard(format!("{x:?} instead of CONNACK")),
            }
            if !wait.pause().await {
                return soft("the place of the last connection is not given back");
            }
        }
        w.send(&Pk::PingReq.encode()).await?;
        let mut late = vec![];
        match reply(&mut w, "PINGRESP", &mut late).await? {
            Pk::PingResp => {}
            x => return hard(format!("{x:?} instead of PINGRESP")),
        }
        for m in late {
            let s = m.payload.first().copied().unwrap_or(0);
            if seen.contains(&s) || !may.contains(&s) {
                return hard(format!("the will of connection {s} is published again"));
            }
        }
        broker.stop().await;
        Ok(())
    })
}

// ------------------------------------------------------------------ B04: identifiers wrap around

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Wrap {
    /// which messages are not acknowledged at once
    held: Vec<u32>,
    /// messages beyond the number of identifiers
    more: u32,
    batch: u32,
    /// nothing at all is acknowledged until identifiers run out
    #[serde(default)]
    all: bool,
}

pub fn wrap(_: bool) -> BoxedStrategy<Wrap> {
    let at = prop_oneof![0u32..70, 0u32..65_535, 65_530u32..65_540];
    (vec(at, 0..40), 1u32..2000, 200u32..1500, prop::bool::weighted(0.3))
        .prop_map(|(held, more, batch, all)| Wrap { held, more, batch, all })
        .boxed()
}

/// More messages than there are identifiers, none acknowledged: none is used twice, and none of
/// the messages delivered is lost, whether the broker waits or closes the connection
async fn exhaust(c: &Wrap, o: &mut Obs) -> Res {
    let (mut broker, addr) = start_broker(|k| k.default_keep_alive = Duration::ZERO).await?;
    let (mut s, _) = join(addr, &connect_pk("s", true, 0, Some(600), None)).await?;
    subscribed(&mut s, &[("t", 1)]).await?;
    let (mut p, _) = join(addr, &connect_pk("p", true, 0, None, None)).await?;
    let total = 65_535 + c.more;
    let mut open: Vec<(u16, u32)> = vec![];
    let mut used = vec![false; 65_536];
    let mut at = 0u32;
    let mut closed = false;
    while at < total {
        let end = (at + c.batch).min(total);
        let mut b = vec![];
        for n in at..end {
            b.extend(publish_pk("t", 1, (n % 60_000) as u16 + 1, n.to_be_bytes().to_vec()).encode());
        }
        p.send(&b).await?;
        for n in at..end {
            match p.recv("PUBACK").await? {
                Some(Pk::Ack { kind: 4, id, reason: 0, .. }) if id == (n % 60_000) as u16 + 1 => {}
                x => return hard(format!("{x:?} instead of PUBACK {n}")),
            }
            while let Some(pk) = s.next()? {
                closed |= fresh(pk, &mut open, &mut used)?;
            }
        }
        at = end;
    }
    // what is certain to come comes
    while open.len() < 65_535 {
        match s.recv("a message").await? {
            Some(pk) => closed |= fresh(pk, &mut open, &mut used)?,
            None => break,
        }
    }
    s.pump();
    while let Some(pk) = s.next()? {
        closed |= fresh(pk, &mut open, &mut used)?;
    }
    closed |= s.eof;
    if open.len() < 65_535 && !closed {
        return hard(format!("{} of 65,535 messages are delivered", open.len()));
    }
    o.nontrivial();
    if closed {
        o.label("closed as no identifier is free");
    } else {
        o.label("waits for identifiers");
        s.fin();
    }
    s.rest("the end of the connection").await?;
    let (mut s, present) = join(addr, &connect_pk("s", false, 0, Some(600), None)).await?;
    if !present {
        return hard("the session is lost");
    }
    for (id, n) in &open {
        match s.recv("a message sent again").await? {
            Some(Pk::Publish(m)) => {
                if (m.id, m.dup, m.payload.as_slice()) != (*id, true, n.to_be_bytes().as_slice()) {
                    return hard(format!(
                        "message {n} with identifier {id} was delivered, sent again is {:?} with {} dup {}",
                        m.payload, m.id, m.dup
                    ));
                }
            }
            x => return hard(format!("{x:?} instead of message {n} again")),
        }
    }
    broker.stop().await;
    Ok(())
}

/// True for a DISCONNECT
fn fresh(pk: Pk, open: &mut Vec<(u16, u32)>, used: &mut [bool]) -> Result<bool, Fail> {
    match pk {
        Pk::Publish(m) => {
            let n = open.len() as u32;
            if m.payload != n.to_be_bytes() || m.qos != 1 || m.dup {
                return hard(format!("message {n}: {:?} qos {} dup {}", m.payload, m.qos, m.dup));
            }
            if m.id == 0 || std::mem::replace(&mut used[m.id as usize], true) {
                return hard(format!("message {n}: identifier {} is in use", m.id));
            }
            open.push((m.id, n));
            Ok(false)
        }
        Pk::Disconnect { reason: 0x97, .. } => Ok(true),
        x => hard(format!("{x:?} instead of a message")),
    }
}

pub fn wrap_run(c: &Wrap, o: &mut Obs) -> Res {
    if c.all {
        return paused(exhaust(c, o));
    }
    paused(async {
        let (mut broker, addr) = start_broker(|k| k.default_keep_alive = Duration::ZERO).await?;
        let (mut s, _) = join(addr, &connect_pk("s", true, 0, Some(600), None)).await?;
        subscribed(&mut s, &[("t", 1)]).await?;
        let (mut p, _) = join(addr, &connect_pk("p", true, 0, None, None)).await?;
        let total = 65_535 + c.more;
        let mut held: Vec<(u16, u32)> = vec![];
        let mut at = 0u32;
        while at < total {
            let end = (at + c.batch).min(total);
            let mut b = vec![];
            for n in at..end {
                b.extend(publish_pk("t", 1, (n % 60_000) as u16 + 1, n.to_be_bytes().to_vec()).encode());
            }
            p.send(&b).await?;
            let mut acks = vec![];
            for n in at..end {
                match s.recv("a message").await? {
                    Some(Pk::Publish(m)) => {
                        if m.payload != n.to_be_bytes() || m.qos != 1 || m.dup {
                            return hard(format!("message {n}: {:?} qos {} dup {}", m.payload, m.qos, m.dup));
                        }
                        if m.id == 0 || held.iter().any(|h| h.0 == m.id) {
                            return hard(format!("message {n}: identifier {} is in use", m.id));
                        }
                        if c.held.contains(&n) {
                            held.push((m.id, n));
                        } else {
                            acks.extend(Pk::Ack { kind: 4, id: m.id, reason: 0, props: vec![] }.encode());
                        }
                    }
                    x => return hard(format!("{x:?} instead of message {n}")),
                }
            }
            s.send(&acks).await?;
            for n in at..end {
                match p.recv("PUBACK").await? {
                    Some(Pk::Ack { kind: 4, id, reason: 0, .. }) if id == (n % 60_000) as u16 + 1 => {}
                    x => return hard(format!("{x:?} instead of PUBACK {n}")),
                }
            }
            at = end;
        }
        ping(&mut s, "the subscriber").await?;
        if !held.is_empty() {
            o.nontrivial();
        }
        s.fin();
        s.rest("the end of the connection").await?;
        let (mut s, present) = join(addr, &connect_pk("s", false, 0, Some(600), None)).await?;
        if !present {
            return hard("the session is lost");
        }
        let mut again = vec![];
        while again.len() < held.len() {
            match s.recv("a message sent again").await? {
                Some(Pk::Publish(m)) => again.push(m),
                x => return hard(format!("{x:?} instead of a message sent again")),
            }
        }
        s.send(&Pk::PingReq.encode()).await?;
        match reply(&mut s, "PINGRESP", &mut again).await? {
            Pk::PingResp => {}
            x => return hard(format!("{x:?} instead of PINGRESP")),
        }
        let again: Vec<_> = again.iter().map(|m| (m.id, m.payload.clone(), m.dup)).collect();
        let want: Vec<_> = held.iter().map(|(i, n)| (*i, n.to_be_bytes().to_vec(), true)).collect();
        if again != want {
            return hard(format!("sent again: {again:?} instead of {want:?}"));
        }
        broker.stop().await;
        Ok(())
    })
}
