//! Hostile clients: arbitrary bytes before and after CONNECT, cut off packets, half-open TLS
use super::broker2::*;
use super::codec::{mutant, mutate, Mutant};
use crate::bsim::*;
use crate::gen;
use crate::hex::short;
use crate::net::*;
use crate::refcodec::{self, *};
use crate::runner::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Junk {
    Pk(Pk),
    Mutant(Mutant),
    Raw(#[serde(with = "crate::hex")] Vec<u8>),
    /// the start of a packet
    Cut(Pk, u16),
    /// a fixed header that promises a lot
    Huge(u8, u32),
    /// the start of a TLS handshake
    Hello(u16),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Offender {
    /// the keep alive it connects with, if it does; its will's QoS
    connect: Option<(u16, u8)>,
    /// on a TLS listener: what it sends is not within TLS
    raw: bool,
    junk: Vec<Junk>,
    /// bytes are sent in pieces of this size
    piece: u16,
    /// 0 end of stream, 1 reset, 2 silence, 3 close
    end: u8,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Hostile {
    tls: bool,
    offenders: Vec<Offender>,
}

fn junk() -> BoxedStrategy<Junk> {
    prop_oneof![
        6 => gen::small_pk().prop_map(Junk::Pk),
        3 => (3u8..4).prop_flat_map(gen::pk_of).prop_map(Junk::Pk),
        8 => mutant(false).prop_map(Junk::Mutant),
        2 => vec(any::<u8>(), 0..60).prop_map(Junk::Raw),
        3 => (gen::small_pk(), any::<u16>()).prop_map(|(p, n)| Junk::Cut(p, n)),
        1 => (any::<u8>(), gen::varint()).prop_map(|(b, n)| Junk::Huge(b, n)),
        1 => any::<u16>().prop_map(Junk::Hello),
    ]
    .boxed()
}

fn offender() -> BoxedStrategy<Offender> {
    (
        proptest::option::weighted(0.7, (1u16..20, 0u8..3)),
        any::<bool>(),
        vec(junk(), 0..5),
        prop_oneof![3 => Just(u16::MAX), 1 => 1u16..40],
        0u8..4,
    )
        .prop_map(|(connect, raw, junk, piece, end)| Offender { connect, raw, junk, piece, end })
        .boxed()
}

pub fn one(_: bool) -> BoxedStrategy<Hostile> {
    (0u8..12, offender()).prop_map(|(t, o)| Hostile { tls: t == 0, offenders: vec![o] }).boxed()
}

pub fn many(_: bool) -> BoxedStrategy<Hostile> {
    (0u8..5, vec(offender(), 2..6)).prop_map(|(t, o)| Hostile { tls: t == 0, offenders: o }).boxed()
}

fn bytes(o: &Offender) -> Vec<u8> {
    let mut b = vec![];
    for j in &o.junk {
        match j {
            Junk::Pk(p) => b.extend(p.encode()),
            Junk::Mutant(m) => b.extend(mutate(m)),
            Junk::Raw(r) => b.extend(r),
            Junk::Cut(p, n) => {
                let e = p.encode();
                let n = *n as usize % e.len().max(1);
                b.extend(&e[..n]);
            }
            Junk::Huge(f, n) => {
                b.push(*f);
                put_var(&mut b, *n);
            }
            Junk::Hello(n) => {
                let name = "localhost".try_into().expect("name");
                let mut c =
                    rustls::ClientConnection::new(tls().client.clone(), name).expect("tls client");
                let mut h = vec![];
                let _ = c.write_tls(&mut h);
                let n = *n as usize % (h.len() + 1);
                b.extend(&h[..n]);
            }
        }
    }
    b
}

/// What a broker has to make of the bytes
#[derive(Default, Debug)]
struct Heard {
    msgs: Vec<refcodec::Publish>,
    /// the protocol is broken
    broken: Option<String>,
    /// DISCONNECT, its reason
    left: Option<u8>,
    /// the bytes to send, what follows is not clear enough to be judged
    upto: usize,
    packets: usize,
}

fn unclear(p: &Pk, connected: bool) -> bool {
    let mut p = p.clone();
    for props in p.props_mut() {
        // subscription identifiers, a response topic with wildcards
        if props.iter().any(|(i, v)| {
            *i == 0x0b || (*i == 8 && !matches!(v, Val::Str(s) if valid_topic(s)))
        }) {
            return true;
        }
    }
    match &p {
        Pk::Connect(_) => !connected,
        Pk::Publish(m) => m.dup && m.qos == 0,
        Pk::Ack { kind, reason, .. } => !refcodec::reasons(*kind).contains(reason),
        Pk::Subscribe { filters, .. } => filters.iter().any(|f| f.filter.starts_with("$share")),
        Pk::Disconnect { reason, props } => {
            !refcodec::reasons(14).contains(reason)
                || *reason >= 0x80 && !matches!(reason, 0x80..=0x83 | 0x90 | 0x93..=0x99)
                || props.iter().any(|(i, _)| *i == 0x11 || *i == 0x1c)
        }
        _ => false,
    }
}

fn walk(b: &[u8], connected: bool) -> Heard {
    let mut h = Heard::default();
    loop {
        let rest = &b[h.upto..];
        match refcodec::decode(rest) {
            Err(DecErr::Short) => {
                // what is wrong already may be noticed now or once the packet is complete
                let wrong = rest.first().is_some_and(|f| match f >> 4 {
                    0 | 15 => true,
                    3 => f & 6 == 6,
                    6 | 8 | 10 => f & 15 != 2,
                    _ => f & 15 != 0,
                });
                if wrong {
                    return h;
                }
                h.upto = b.len();
                return h;
            }
            Err(DecErr::Malformed(why)) => {
                h.broken = Some(why);
                h.upto = b.len();
                return h;
            }
            Ok((p, n)) => {
                if unclear(&p, connected) {
                    return h;
                }
                h.packets += 1;
                h.upto += n;
                let broken = match &p {
                    Pk::PingReq => None,
                    _ if !connected => Some("before CONNECT"),
                    Pk::Publish(m) if refcodec::prop(&m.props, 0x23).is_some() => Some("alias"),
                    Pk::Publish(m) if !valid_topic(&m.topic) => Some("topic"),
                    Pk::Publish(m) => {
                        h.msgs.push(m.clone());
                        None
                    }
                    Pk::Connect(_)
                    | Pk::ConnAck { .. }
                    | Pk::SubAck { .. }
                    | Pk::UnsubAck { .. }
                    | Pk::PingResp => Some("not allowed"),
                    Pk::Disconnect { reason, .. } => {
                        h.left = Some(*reason);
                        h.upto = b.len();
                        return h;
                    }
                    _ => None,
                };
                if let Some(w) = broken {
                    h.broken = Some(format!("{} {w}", p.name()));
                    h.upto = b.len();
                    return h;
                }
            }
        }
    }
}

async fn expect(w: &mut Peer, m: &refcodec::Publish, why: &str) -> Res {
    let got = match w.recv(why).await? {
        Some(Pk::Publish(p)) => p,
        x => return hard(format!("{why}: {x:?} instead of a message on {:?}", m.topic)),
    };
    let same = got.topic == m.topic
        && got.payload == m.payload
        && got.qos == m.qos
        && ordered(&got.props) == ordered(&m.props);
    if !same {
        return hard(format!(
            "{why}: received {:?} qos {} {} {:?} instead of {:?} qos {} {} {:?}",
            got.topic,
            got.qos,
            short(&got.payload),
            got.props,
            m.topic,
            m.qos,
            short(&m.payload),
            m.props
        ));
    }
    Ok(())
}

fn will_of(i: usize, qos: u8) -> refcodec::Publish {
    refcodec::Publish {
        dup: false,
        qos,
        retain: false,
        topic: format!("will/{i}"),
        id: 0,
        props: vec![],
        payload: vec![i as u8],
    }
}

pub fn run(c: &Hostile, o: &mut Obs) -> Res {
    paused(async {
        let (mut broker, addr) = start_broker(|k| {
            k.default_keep_alive = Duration::ZERO;
            k.max_keep_alive = Duration::from_secs(1000);
            k.tls_acceptor = c.tls.then(|| tls().acceptor.clone());
        })
        .await?;
        let mut w = join_on(addr, &connect_pk("watcher", true, 0, None, None), c.tls).await?.0;
        subscribed(&mut w, &[("#", 2)]).await?;
        let mut silent: Vec<(usize, Peer, Option<refcodec::Publish>)> = vec![];
        for (i, x) in c.offenders.iter().enumerate() {
            let raw = c.tls && x.raw;
            let will = x.connect.filter(|_| !raw).map(|(_, q)| will_of(i, q));
            let mut p = match (&will, x.connect) {
                (Some(m), Some((ka, q))) => {
                    let mut p = Peer::open(addr, c.tls).await?;
                    let pk = connect_pk(
                        &format!("bad{i}"),
                        true,
                        ka,
                        None,
                        Some(will_pk(&m.topic, q, &m.payload)),
                    );
                    p.send(&pk.encode()).await?;
                    match p.recv("CONNACK").await? {
                        Some(Pk::ConnAck { reason: 0, .. }) => {}
                        x => return hard(format!("{x:?} instead of CONNACK")),
                    }
                    p
                }
                _ => Peer::open(addr, c.tls && !x.raw).await?,
            };
            let all = bytes(x);
            let mut h = if raw {
                // not even TLS
                Heard { upto: all.len(), ..Heard::default() }
            } else {
                walk(&all, will.is_some())
            };
            o.log(|| format!("client {i} sends {}: {h:?}", short(&all[..h.upto])));
            for part in all[..h.upto].chunks(x.piece.max(1) as usize) {
                if !p.send(part).await? {
                    break;
                }
                turns(3).await;
            }
            settle().await;
            // the messages before anything forbidden, nothing else
            for m in &h.msgs {
                if matches("#", &m.topic) {
                    o.label("message before");
                    expect(&mut w, m, "a message sent properly").await?;
                }
            }
            if raw {
                o.label("not TLS");
            }
            match (&h.broken, will.is_some()) {
                (Some(_), true) => o.label("broken after CONNECT"),
                (Some(_), false) => o.label("broken before CONNECT"),
                (None, _) if h.upto == all.len() && !all.is_empty() => o.label("left hanging"),
                _ => {}
            }
            let gone = h.broken.is_some() || h.left.is_some();
            let mut due = will.filter(|_| h.left != Some(0));
            if gone {
                o.nontrivial();
                if let Some(m) = due.take() {
                    o.label("will");
                    expect(&mut w, &m, "the will of a client that broke the protocol").await?;
                }
                p.rest("the end of the connection").await?;
            } else {
                match x.end % 4 {
                    0 => p.fin(),
                    1 => p.rst(),
                    3 => p.close(),
                    _ => {
                        o.label("silent");
                        if !all.is_empty() {
                            o.nontrivial();
                        }
                        silent.push((i, p, due.take()));
                    }
                }
                if let Some(m) = due {
                    o.label("will");
                    expect(&mut w, &m, "the will of a client that is gone").await?;
                }
            }
            ping(&mut w, "another client").await?;
            h.msgs.clear();
            // others are accepted
            if i % 2 == 0 {
                let id = format!("new{i}");
                let mut n = join_on(addr, &connect_pk(&id, true, 0, None, None), c.tls).await?.0;
                ping(&mut n, "a new client").await?;
            }
        }
        // those that are silent go in time
        for _ in 0..if silent.is_empty() { 0 } else { 120 } {
            advance(1000).await;
        }
        let mut wills: Vec<_> = silent.iter().filter_map(|s| s.2.clone()).collect();
        while !wills.is_empty() {
            match w.recv("the wills of silent clients").await? {
                Some(Pk::Publish(m)) => {
                    match wills.iter().position(|x| x.topic == m.topic && x.payload == m.payload) {
                        Some(k) => {
                            wills.remove(k);
                        }
                        None => return hard(format!("unexpected message on {:?}", m.topic)),
                    }
                }
                x => return hard(format!("{x:?} instead of a will")),
            }
        }
        for (i, p, _) in &mut silent {
            let what = format!("the end of the silent connection {i}");
            if c.tls && c.offenders[*i].raw {
                // what comes back is not MQTT
                let wait = Wait::new();
                while !p.eof {
                    p.pump();
                    if !wait.pause().await {
                        return soft(what);
                    }
                }
            } else {
                p.rest(&what).await?;
            }
        }
        ping(&mut w, "another client").await?;
        broker.stop().await;
        Ok(())
    })
}
