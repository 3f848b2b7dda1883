//! What has ended leaves nothing behind: the same history again and again, each time with other
//! names, must not make the broker larger
use super::broker2::*;
use crate::bsim::*;
use crate::net::*;
use crate::refcodec::*;
use crate::runner::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

/// Levels of a filter: 0 a name of its own each time, 1 `a`, 2 the empty level, 3 `+`, 4 `#` if last
pub type Levels = Vec<u8>;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Step {
    Subscribe(Vec<(Levels, u8)>),
    Unsubscribe(Vec<Levels>),
    Publish { topic: Levels, qos: u8, len: u16 },
    Ack,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum End {
    Disconnect,
    /// with another session expiry
    Expiry(u8),
    Fin,
    Reset,
    /// until its identifier is used again, or all ends
    Stay,
    Garbage,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Visit {
    who: u8,
    clean: bool,
    expiry: Option<u8>,
    will: Option<u8>,
    steps: Vec<Step>,
    end: End,
    wait: u8,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Leaks {
    resident: Vec<Step>,
    visits: Vec<Visit>,
    limit: Option<u8>,
}

pub fn cases(_: bool) -> BoxedStrategy<Leaks> {
    let levels = || vec(prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8)], 1..5);
    let step = move || {
        prop_oneof![
            4 => vec((levels(), 0u8..3), 1..5).prop_map(Step::Subscribe),
            3 => vec(levels(), 1..5).prop_map(Step::Unsubscribe),
            3 => (levels(), 0u8..2, 0u16..400).prop_map(|(topic, qos, len)| Step::Publish { topic, qos, len }),
            2 => Just(Step::Ack),
        ]
    };
    let end = prop_oneof![
        3 => Just(End::Disconnect),
        2 => (0u8..100).prop_map(End::Expiry),
        2 => Just(End::Fin),
        2 => Just(End::Reset),
        2 => Just(End::Stay),
        1 => Just(End::Garbage),
    ];
    let visit = (
        0u8..3,
        prop::bool::weighted(0.4),
        prop_oneof![1 => Just(None), 1 => Just(Some(0u8)), 4 => (1u8..100).prop_map(Some)],
        prop::option::weighted(0.4, prop_oneof![1 => Just(0u8), 1 => 1u8..120]),
        vec(step(), 0..5),
        end,
        prop_oneof![3 => Just(0u8), 1 => 1u8..60],
    )
        .prop_map(|(who, clean, expiry, will, steps, end, wait)| Visit { who, clean, expiry, will, steps, end, wait });
    (vec(step(), 0..6), vec(visit, 0..6), prop::option::weighted(0.2, 2u8..5))
        .prop_map(|(resident, visits, limit)| Leaks { resident, visits, limit })
        .boxed()
}

/// So many times first, until nothing grows to its final size any more, then so many more
const FIRST: usize = 4;
const MORE: usize = 60;
/// Bytes each of them may leave behind: none, but for tables that grow once or twice late
const SLACK: isize = 16;
const FIXED: isize = 1536;

fn filter(levels: &[u8], round: usize) -> String {
    let mut s = String::new();
    for (n, l) in levels.iter().enumerate() {
        if n > 0 {
            s.push('/');
        }
        match l {
            0 => s.push_str(&format!("n{round:06}")),
            1 => s.push('a'),
            2 => {}
            3 => s.push('+'),
            _ if n + 1 == levels.len() => s.push('#'),
            _ => s.push('a'),
        }
    }
    if s.is_empty() {
        s.push('a');
    }
    s
}

fn topic(levels: &[u8], round: usize) -> String {
    filter(levels, round).replace(['+', '#'], "a")
}

struct Live {
    peer: Peer,
    id: u16,
    unacked: Vec<u16>,
}

impl Live {
    /// Takes what arrives until the reply to a PINGREQ
    async fn sync(&mut self) -> Res {
        if !self.peer.send(&Pk::PingReq.encode()).await? {
            return hard("a connection in use is closed");
        }
        loop {
            match self.peer.recv("PINGRESP").await? {
                Some(Pk::PingResp) => return Ok(()),
                Some(Pk::Publish(p)) if p.qos == 1 => self.unacked.push(p.id),
                Some(_) => {}
                None => return hard("a connection in use is closed"),
            }
        }
    }

    async fn step(&mut self, s: &Step, round: usize) -> Res {
        self.id = self.id % 60_000 + 1;
        let pk = match s {
            Step::Subscribe(f) => {
                let f: Vec<(String, u8)> = f.iter().map(|(l, q)| (filter(l, round), *q)).collect();
                let f: Vec<(&str, u8)> = f.iter().map(|(f, q)| (f.as_str(), *q)).collect();
                subscribe_pk(self.id, &f)
            }
            Step::Unsubscribe(f) => Pk::Unsubscribe {
                id: self.id,
                props: vec![],
                filters: f.iter().map(|l| filter(l, round)).collect(),
            },
            Step::Publish { topic: t, qos, len } => {
                publish_pk(&topic(t, round), *qos, self.id, vec![7; *len as usize])
            }
            Step::Ack => {
                self.sync().await?;
                return self.ack().await;
            }
        };
        self.peer.send(&pk.encode()).await?;
        self.sync().await
    }

    async fn ack(&mut self) -> Res {
        for id in std::mem::take(&mut self.unacked) {
            let pk = Pk::Ack { kind: 4, id, reason: 0, props: vec![] };
            self.peer.send(&pk.encode()).await?;
        }
        self.sync().await
    }
}

/// All that was closed has been noticed
async fn tasks(most: usize, what: &str) -> Res {
    let w = Wait::new();
    loop {
        let n = tokio::runtime::Handle::current().metrics().num_alive_tasks();
        if n <= most {
            return Ok(());
        }
        if !w.pause().await {
            return soft(format!("{what}: the broker still has {n} tasks, {most} at the beginning"));
        }
    }
}

async fn pass(secs: u64) {
    settle().await;
    tokio::time::advance(Duration::from_secs(secs)).await;
    settle().await;
}

async fn round(c: &Leaks, addr: std::net::SocketAddr, resident: &mut Live, n: usize) -> Res {
    let mut open: Vec<(u8, Live)> = vec![];
    for s in &c.resident {
        resident.step(s, n).await?;
    }
    for v in &c.visits {
        let id = format!("client-{n:06}-{}", v.who);
        let will = v.will.map(|d| {
            let mut w = will_pk(&format!("n{n:06}"), 0, b"gone");
            w.props = vec![(0x18, Val::U32(d as u32))];
            w
        });
        let pk = connect_pk(&id, v.clean, 120, v.expiry.map(u32::from), will);
        let mut peer = Peer::connect(addr)?;
        peer.send(&pk.encode()).await?;
        match peer.recv("CONNACK").await? {
            Some(Pk::ConnAck { reason: 0, .. }) => {}
            Some(Pk::ConnAck { .. }) if c.limit.is_some() => {
                peer.rest("the end of a refused connection").await?;
                continue;
            }
            x => return hard(format!("{x:?} instead of CONNACK")),
        }
        if let Some(at) = open.iter().position(|(w, _)| *w == v.who) {
            let (_, mut old) = open.remove(at);
            old.peer.rest("the end of a connection taken over").await?;
        }
        let mut live = Live { peer, id: 0, unacked: vec![] };
        for s in &v.steps {
            live.step(s, n).await?;
        }
        let p = &mut live.peer;
        match v.end {
            End::Disconnect => {
                p.send(&Pk::Disconnect { reason: 0, props: vec![] }.encode()).await?;
            }
            End::Expiry(e) => {
                let expiry = (0x11, Val::U32(e as u32));
                // must not be set if there was none
                let props = if v.expiry.unwrap_or(0) > 0 { vec![expiry] } else { vec![] };
                p.send(&Pk::Disconnect { reason: 0, props }.encode()).await?;
            }
            End::Fin => p.fin(),
            End::Reset => {}
            End::Garbage => {
                p.send(&[0xf0, 0x03, 1, 2, 3]).await?;
            }
            End::Stay => {}
        }
        match v.end {
            End::Stay => open.push((v.who, live)),
            End::Reset => live.peer.rst(),
            _ => {
                live.peer.rest("the end of a connection").await?;
            }
        }
        if v.wait > 0 {
            pass(v.wait as u64).await;
            // the resident must not be silent for too long
            resident.sync().await?;
        }
    }
    drop(open);
    for s in &c.resident {
        if let Step::Subscribe(f) = s {
            let all = f.iter().map(|(l, _)| l.clone()).collect();
            resident.step(&Step::Unsubscribe(all), n).await?;
        }
    }
    resident.sync().await?;
    resident.ack().await?;
    // everything expires, the connections come first
    settle().await;
    for _ in 0..4 {
        pass(60).await;
        resident.sync().await?;
    }
    // gives what is done with the next connection its chance
    let (mut probe, _) = join(addr, &connect_pk("probe", true, 120, None, None)).await?;
    probe.send(&Pk::Disconnect { reason: 0, props: vec![] }.encode()).await?;
    probe.rest("the end of a connection").await?;
    drop(probe);
    resident.ack().await?;
    resident.peer.compact();
    settle().await;
    Ok(())
}

fn run(c: &Leaks, o: &mut Obs) -> Res {
    paused(async {
        let (broker, addr) = start_broker(|cfg| {
            cfg.session_channel_size = 100;
            cfg.max_active_sessions = c.limit.map(u32::from);
        })
        .await?;
        let (peer, _) = join(addr, &connect_pk("resident", true, 120, Some(500), None)).await?;
        let mut resident = Live { peer, id: 0, unacked: vec![] };
        resident.sync().await?;
        settle().await;
        let alive = tokio::runtime::Handle::current().metrics().num_alive_tasks();
        let mut before = 0;
        for n in 0..FIRST + MORE {
            if n == FIRST {
                before = live_bytes();
            }
            round(c, addr, &mut resident, n).await?;
            tasks(alive, "all clients have left, all sessions have expired").await?;
            o.step();
        }
        let kept = live_bytes() - before;
        o.log(|| format!("{kept} bytes more after {MORE} repetitions"));
        if kept > FIXED + SLACK * MORE as isize {
            return soft(format!(
                "all clients have left, all sessions have expired, {MORE} times: the broker keeps {kept} bytes more each {MORE} repetitions"
            ));
        }
        for v in &c.visits {
            o.label(match v.end {
                End::Disconnect => "DISCONNECT",
                End::Expiry(_) => "DISCONNECT with session expiry",
                End::Fin => "end of stream",
                End::Reset => "reset",
                End::Stay => "taken over or closed at the end",
                End::Garbage => "malformed packet",
            });
        }
        let subscribes = |s: &[Step]| s.iter().any(|s| matches!(s, Step::Subscribe(_)));
        if c.visits.iter().any(|v| v.expiry.unwrap_or(0) > 0 && subscribes(&v.steps)) {
            o.nontrivial();
            o.label("sessions with subscriptions expired");
        }
        if subscribes(&c.resident) {
            o.nontrivial();
            o.label("subscribed and unsubscribed by a client that stays");
        }
        drop(broker);
        Ok(())
    })
}

pub fn b15() -> Property {
    Property {
        id: "B15",
        rule: "sessions with subscriptions expire, or a client that stays subscribes and unsubscribes",
        assumptions: &["memory is judged by the bytes allocated and not freed after 60 repetitions of a history"],
        subs: vec![Prop::net("repeated", 2_000, cases, run).boxed()],
    }
}
