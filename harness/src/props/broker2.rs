//! Broker checks that need more than the general model: floods, stalled and hostile clients,
//! simultaneous connections, packet identifiers running out
use crate::bsim::*;
use crate::gen;
use crate::hex::short;
use crate::net::*;
use crate::refcodec::{self, *};
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::net::SocketAddr;
use std::time::Duration;

pub fn connect_pk(id: &str, clean: bool, ka: u16, expiry: Option<u32>, will: Option<Will>) -> Pk {
    Pk::Connect(refcodec::Connect {
        clean,
        keep_alive: ka,
        props: expiry.map(|e| (0x11, Val::U32(e))).into_iter().collect(),
        client_id: id.into(),
        will,
        username: None,
        password: None,
    })
}

pub fn will_pk(topic: &str, qos: u8, payload: &[u8]) -> Will {
    Will { qos, retain: false, props: vec![], topic: topic.into(), payload: payload.to_vec() }
}

pub fn publish_pk(topic: &str, qos: u8, id: u16, payload: Vec<u8>) -> Pk {
    Pk::Publish(refcodec::Publish {
        dup: false,
        qos,
        retain: false,
        topic: topic.into(),
        id,
        props: vec![],
        payload,
    })
}

pub fn subscribe_pk(id: u16, filters: &[(&str, u8)]) -> Pk {
    Pk::Subscribe {
        id,
        props: vec![],
        filters: filters
            .iter()
            .map(|(f, q)| Filter { filter: f.to_string(), qos: *q, no_local: false, rap: false, rh: 0 })
            .collect(),
    }
}

/// Waits for a packet that is not an application message; these are put aside
pub async fn reply(p: &mut Peer, what: &str, msgs: &mut Vec<refcodec::Publish>) -> Result<Pk, Fail> {
    loop {
        match p.recv(what).await? {
            Some(Pk::Publish(m)) => msgs.push(m),
            Some(pk) => return Ok(pk),
            None => return hard(format!("{what}: the connection is closed")),
        }
    }
}

/// Connects; the CONNACK
pub async fn join(addr: SocketAddr, pk: &Pk) -> Result<(Peer, bool), Fail> {
    join_on(addr, pk, false).await
}

pub async fn join_on(addr: SocketAddr, pk: &Pk, tls: bool) -> Result<(Peer, bool), Fail> {
    let mut p = Peer::open(addr, tls).await?;
    if !p.send(&pk.encode()).await? {
        return hard("a connection is closed before CONNECT");
    }
    match p.recv("CONNACK").await? {
        Some(Pk::ConnAck { present, reason: 0, .. }) => Ok((p, present)),
        x => hard(format!("{x:?} instead of CONNACK")),
    }
}

pub async fn subscribed(p: &mut Peer, filters: &[(&str, u8)]) -> Res {
    p.send(&subscribe_pk(1, filters).encode()).await?;
    let mut m = vec![];
    match reply(p, "SUBACK", &mut m).await? {
        Pk::SubAck { reasons, .. } if reasons.iter().all(|r| *r < 0x80) => Ok(()),
        x => hard(format!("{x:?} instead of SUBACK")),
    }
}

pub async fn ping(p: &mut Peer, who: &str) -> Res {
    if !p.send(&Pk::PingReq.encode()).await? {
        return hard(format!("{who} is closed"));
    }
    let mut m = vec![];
    match reply(p, &format!("PINGRESP to {who}"), &mut m).await? {
        Pk::PingResp => {
            if let Some(m) = m.first() {
                return hard(format!("{who} receives {:?}", m.topic));
            }
            Ok(())
        }
        x => hard(format!("{who}: {x:?} instead of PINGRESP")),
    }
}

pub async fn advance(ms: u64) {
    tokio::time::advance(Duration::from_millis(ms)).await;
    settle().await;
}

// ------------------------------------------------------------------ clients that stop reading

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Stalled {
    /// what it floods the broker with: 0 PINGREQ, 1 SUBSCRIBE, 2 UNSUBSCRIBE, 3 PUBLISH QoS 1
    flood: u8,
    ka: u16,
    /// 0 keep alive expires, 1 taken over, 2 it resets its connection, 3 the broker stops
    end: u8,
    expiry: Option<u32>,
    cap: bool,
}

pub fn stalled(_: bool) -> BoxedStrategy<Stalled> {
    (0u8..4, 1u16..100, 0u8..3, proptest::option::of(1u32..500), any::<bool>())
        .prop_map(|(flood, ka, end, expiry, cap)| Stalled { flood, ka, end, expiry, cap })
        .boxed()
}

pub fn stalled_run(c: &Stalled, o: &mut Obs) -> Res {
    paused(async {
        let (mut broker, addr) = start_broker(|k| {
            k.default_keep_alive = Duration::ZERO;
            k.max_keep_alive = Duration::from_secs(1000);
            k.max_active_sessions = c.cap.then_some(2);
        })
        .await?;
        let (mut watcher, _) = join(addr, &connect_pk("watcher", true, 0, None, None)).await?;
        subscribed(&mut watcher, &[("will", 0)]).await?;
        let (mut bad, _) = join(
            addr,
            &connect_pk("bad", true, c.ka, c.expiry, Some(will_pk("will", 0, b"gone"))),
        )
        .await?;
        if let Some(io) = bad.std() {
            small_buffers(io);
        }
        let one = match c.flood {
            0 => Pk::PingReq.encode(),
            1 => subscribe_pk(7, &[("x", 0); 20]).encode(),
            2 => Pk::Unsubscribe { id: 7, props: vec![], filters: vec!["y".to_string(); 20] }.encode(),
            _ => publish_pk("z", 1, 9, vec![]).encode(),
        };
        let chunk: Vec<u8> = std::iter::repeat_n(one, 200).flatten().collect();
        // until the broker takes no more
        let mut quiet = 0;
        let mut at = 0;
        let mut total = 0u64;
        // it goes on reading what has arrived before it blocks
        while quiet < 4000 {
            let n = bad.send_some(&chunk[at..]);
            at = (at + n) % chunk.len();
            total += n as u64;
            quiet = if n > 0 { 0 } else { quiet + 1 };
            turns(10).await;
            if total > 200_000_000 {
                return Err(Fail::Harness("the broker takes everything".into()));
            }
        }
        o.label("stalled");
        ping(&mut watcher, "another client").await?;
        let gone = match c.end {
            0 => {
                o.label("keep alive");
                advance(c.ka as u64 * 1500 - 50).await;
                ping(&mut watcher, "another client").await?;
                advance(100).await;
                // some patience for a last DISCONNECT nobody reads
                watcher.recv_within(SOON, "will", 60).await?
            }
            1 => {
                o.label("takeover");
                let (mut next, present) =
                    join(addr, &connect_pk("bad", false, 0, c.expiry, None)).await?;
                o.log(|| format!("present {present}"));
                if present != c.expiry.is_some() {
                    return hard(format!("session present is {present}"));
                }
                let w = watcher.recv_within(SOON, "will", 0).await?;
                let mut m = vec![];
                next.send(&Pk::PingReq.encode()).await?;
                match reply(&mut next, "PINGRESP", &mut m).await? {
                    Pk::PingResp => {}
                    x => return hard(format!("{x:?} instead of PINGRESP")),
                }
                // the old connection ends in bounded time
                closed(&mut bad, 60).await?;
                w
            }
            _ => {
                o.label("reset");
                bad.rst();
                watcher.recv_within(SOON, "will", 0).await?
            }
        };
        match gone {
            Some(Pk::Publish(p)) if p.payload == b"gone" => {}
            x => return hard(format!("{x:?} instead of the will of a stalled client")),
        }
        if c.end != 1 && c.cap {
            // its place is free
            let r = join(addr, &connect_pk("other", true, 0, None, None)).await;
            if let Err(Fail::Hard(m)) = r {
                return hard(format!("its place is not given up: {m}"));
            }
            r?;
        }
        if c.end == 0 {
            closed(&mut bad, 60).await?;
        }
        o.nontrivial();
        broker.stop().await;
        Ok(())
    })
}

fn small_buffers(s: &std::net::TcpStream) {
    use std::os::fd::AsRawFd;
    let v: libc::c_int = 8192;
    for opt in [libc::SO_SNDBUF, libc::SO_RCVBUF] {
        unsafe {
            libc::setsockopt(
                s.as_raw_fd(),
                libc::SOL_SOCKET,
                opt,
                &v as *const _ as *const libc::c_void,
                std::mem::size_of_val(&v) as u32,
            );
        }
    }
}

/// The connection is closed by the broker within some seconds of its clock; the bytes that were
/// on their way to a client that does not read are not interesting
async fn closed(p: &mut Peer, secs: u32) -> Res {
    // not reading: the end can only be seen by sending
    for _ in 0..secs {
        advance(1000).await;
    }
    let w = Wait::new();
    loop {
        p.pump();
        if p.eof {
            return Ok(());
        }
        if !w.pause().await {
            return soft("the connection of a stalled client stays open");
        }
    }
}

impl Peer {
    /// Waits, moving the broker's clock by up to `secs` seconds
    pub async fn recv_within(&mut self, patience: Duration, what: &str, secs: u32) -> Result<Option<Pk>, Fail> {
        let w = Wait::of(patience);
        let mut n = 0;
        loop {
            if let Some(p) = self.next()? {
                return Ok(Some(p));
            }
            if self.eof {
                return Ok(None);
            }
            settle().await;
            if n < secs {
                n += 1;
                advance(1000).await;
            } else if !w.pause().await {
                return soft(format!("{what}: nothing is received"));
            }
        }
    }
}

// ------------------------------------------------------------------ topics of many levels

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Deep {
    /// levels of the topic
    levels: u32,
    /// one character levels, or empty ones
    text: bool,
    /// how each filter is made of the topic: 0 equal, 1 `+` at every so many levels,
    /// 2 cut with `#`, 3 one level less, 4 one level more
    filters: Vec<(u8, u32)>,
}

pub fn deep(_: bool) -> BoxedStrategy<Deep> {
    let levels = prop_oneof![1u32..200, 200u32..32_000, Just(32_000u32), Just(32_767u32)];
    (levels, any::<bool>(), proptest::collection::vec((0u8..5, 1u32..40_000), 1..4))
        .prop_map(|(levels, text, filters)| Deep { levels, text, filters })
        .boxed()
}

impl Deep {
    fn topic(&self, levels: u32) -> String {
        let l = if self.text { "a" } else { "" };
        let mut v = vec![l; levels as usize * (2 - self.text as usize)];
        // never an empty topic
        v[0] = "a";
        v.join("/")
    }
    fn filter(&self, kind: u8, n: u32) -> String {
        let t = self.topic(self.levels);
        let mut v: Vec<&str> = t.split('/').collect();
        match kind {
            1 => v.iter_mut().enumerate().for_each(|(i, s)| {
                if i as u32 % n == n - 1 {
                    *s = "+"
                }
            }),
            2 => {
                v.truncate(n as usize);
                v.push("#");
            }
            3 => {
                if v.len() > 1 {
                    v.pop();
                }
            }
            4 => v.push("+"),
            _ => {}
        }
        v.join("/")
    }
}

pub fn deep_run(c: &Deep, o: &mut Obs) -> Res {
    let o = std::sync::Mutex::new(o);
    small_stack(|| {
        paused(async {
            let (mut broker, addr) = start_broker(|_| ()).await?;
            let topic = c.topic(c.levels);
            let (mut publisher, _) = join(addr, &connect_pk("p", true, 0, None, None)).await?;
            let mut subs = vec![];
            for (i, (kind, n)) in c.filters.iter().enumerate() {
                let f = c.filter(*kind, *n);
                if f.len() > 65_535 {
                    continue;
                }
                let (mut s, _) = join(addr, &connect_pk(&format!("s{i}"), true, 0, None, None)).await?;
                subscribed(&mut s, &[(&f, 0)]).await?;
                subs.push((s, matches(&f, &topic)));
            }
            publisher.send(&publish_pk(&topic, 1, 1, b"m".to_vec()).encode()).await?;
            let mut m = vec![];
            match reply(&mut publisher, "PUBACK", &mut m).await? {
                Pk::Ack { kind: 4, id: 1, .. } => {}
                x => return hard(format!("{x:?} instead of PUBACK")),
            }
            for (s, due) in &mut subs {
                let mut got = vec![];
                s.send(&Pk::PingReq.encode()).await?;
                match reply(s, "PINGRESP", &mut got).await? {
                    Pk::PingResp => {}
                    x => return hard(format!("{x:?} instead of PINGRESP")),
                }
                if got.len() != *due as usize || got.iter().any(|g| g.topic != topic) {
                    return hard(format!(
                        "{} messages on a topic of {} levels, matching: {due}",
                        got.len(),
                        c.levels
                    ));
                }
                if *due {
                    let mut o = o.lock().unwrap();
                    o.label("delivered");
                    if c.levels > 1000 {
                        o.nontrivial();
                    }
                }
            }
            broker.stop().await;
            Ok(())
        })
    })
}
