//! The client library and the broker together, over loopback, several threads, with and
//! without TLS
use crate::bsim::{matches, start_broker};
use crate::conv;
use crate::ensure;
use crate::net::*;
use crate::refcodec::Will;
use crate::runner::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::sync::mpsc::{Receiver, Sender};
use tokio::task::JoinHandle;
use vaux_broker::Broker;
use vaux_client::client::ClientError;
use vaux_client::session::SessionState;
use vaux_client::{ClientBuilder, MqttClient, MqttConnection};
use vaux_mqtt::codec::PacketType;
use vaux_mqtt::unsubscribe::Unsubscribe;
use vaux_mqtt::pubresp::PubResp;
use vaux_mqtt::{Packet, Subscribe};

const TOPICS: [&str; 6] = ["a", "a/b", "a/c", "x/b", "x//b", "/a"];
const FILTERS: [&str; 8] = ["#", "a/#", "+/b", "a/b", "x/+", "+", "x/+/b", "/+"];
const PATIENCE: Duration = Duration::from_secs(20);

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Cl {
    auto_ack: bool,
    /// 0: the default
    recv_max: u16,
    chan: u16,
    /// messages have a channel of their own, of this capacity
    filtered: Option<u8>,
    named: bool,
    will: Option<(u8, u8)>,
    /// milliseconds between the packets it reads
    slow: u8,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Change {
    Sub { filter: u8, qos: u8, no_local: bool },
    Unsub(u8),
    /// stop and start again with the session's state
    Restart { clean: bool },
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Round {
    changes: Vec<(u8, Change)>,
    /// per client the messages it sends: topic, QoS, length
    pubs: Vec<Vec<(u8, u8, u16)>>,
    /// these so many times more, large ones
    heavy: u8,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct E2e {
    threads: u8,
    tls: bool,
    clients: Vec<Cl>,
    rounds: Vec<Round>,
    /// clients that end without a DISCONNECT at last
    crash: Vec<u8>,
}

pub fn cases(_: bool) -> BoxedStrategy<E2e> {
    let cl = (
        any::<bool>(),
        prop_oneof![2 => Just(0u16), 2 => 1u16..4],
        prop_oneof![2 => 1u16..5, 1 => 10u16..200],
        proptest::option::weighted(0.3, 1u8..6),
        any::<bool>(),
        proptest::option::weighted(0.4, (0u8..6, 0u8..3)),
        prop_oneof![5 => Just(0u8), 1 => 1u8..3],
    )
        .prop_map(|(auto_ack, recv_max, chan, filtered, named, will, slow)| Cl {
            auto_ack,
            recv_max,
            chan,
            filtered,
            named,
            will,
            slow,
        });
    let change = prop_oneof![
        6 => (0u8..8, 0u8..3, prop::bool::weighted(0.2))
            .prop_map(|(filter, qos, no_local)| Change::Sub { filter, qos, no_local }),
        2 => (0u8..8).prop_map(Change::Unsub),
        2 => prop::bool::weighted(0.3).prop_map(|clean| Change::Restart { clean }),
    ];
    let len = prop_oneof![6 => 0u16..40, 2 => 0u16..3000, 1 => 4000u16..30000];
    let round = (
        vec((0u8..4, change), 0..6),
        vec(vec((0u8..6, 0u8..3, len), 0..14), 0..5),
        prop_oneof![60 => Just(0u8), 1 => 1u8..30],
    )
        .prop_map(|(changes, pubs, heavy)| Round { changes, pubs, heavy });
    (
        (1u8..4, prop::bool::weighted(0.25)),
        vec(cl, 1..5),
        vec(round, 1..5),
        vec(0u8..4, 0..3),
    )
        .prop_map(|((threads, tls), clients, rounds, crash)| E2e {
            threads,
            tls,
            clients,
            rounds,
            crash,
        })
        .boxed()
}

#[derive(Clone, Debug)]
struct Got {
    topic: String,
    qos: u8,
    dup: bool,
    payload: Vec<u8>,
}

#[derive(Default)]
struct Inbox {
    got: Vec<Got>,
    /// SUBACK and UNSUBACK: packet identifier, reasons
    acks: Vec<(u16, Vec<u8>)>,
    /// what the application answered last in each QoS 2 exchange, those it sends first. It may
    /// have been left in the channel to a client that ended
    answers: BTreeMap<(bool, u16), Packet>,
}

struct Live {
    client: MqttClient,
    tx: Sender<Packet>,
    handle: JoinHandle<Result<SessionState, ClientError>>,
    readers: Vec<JoinHandle<()>>,
}

#[derive(Clone, Debug)]
struct Sent {
    topic: &'static str,
    qos: u8,
    payload: Vec<u8>,
    by: usize,
    /// when: how many restarts there were
    epoch: usize,
    /// receiver, the QoS of each of its subscriptions that match
    to: Vec<(usize, Vec<u8>)>,
}

fn payload(who: u8, n: usize, len: u16) -> Vec<u8> {
    let mut v = vec![who, (n >> 8) as u8, n as u8];
    v.resize(3 + len as usize, n as u8);
    v
}

async fn read(
    mut rx: Receiver<Packet>,
    tx: Option<Sender<Packet>>,
    slow: u8,
    inbox: Arc<Mutex<Inbox>>,
) {
    while let Some(p) = rx.recv().await {
        let mut ack = None;
        {
            let mut i = inbox.lock().expect("inbox");
            match p {
                Packet::Publish(m) => {
                    ack = m.packet_id().map(|id| match m.qos() as u8 {
                        1 => Packet::PubAck(PubResp::new_puback_with_packet_id(id)),
                        _ => Packet::PubRec(PubResp::new_pubrec_with_packet_id(id)),
                    });
                    i.got.push(Got {
                        topic: m.topic_name.clone(),
                        qos: m.qos() as u8,
                        dup: m.dup(),
                        payload: m.payload.as_deref().unwrap_or_default().to_vec(),
                    });
                }
                Packet::SubAck(a) => {
                    i.acks.push((a.packet_id(), a.reason_codes.iter().map(|r| *r as u8).collect()))
                }
                Packet::UnsubAck(a) => {
                    i.acks.push((a.packet_id, a.reason_code.iter().map(|r| *r as u8).collect()))
                }
                Packet::PubRec(a) => {
                    ack = Some(Packet::PubRel(PubResp::new_pubrel_with_packet_id(a.packet_id)))
                }
                Packet::PubRel(a) => {
                    ack = Some(Packet::PubComp(PubResp::new_pubcomp_with_packet_id(a.packet_id)))
                }
                _ => (),
            }
        }
        if let (Some(ack), Some(tx)) = (ack, &tx) {
            let exchange = match &ack {
                Packet::PubRel(a) => Some((true, a.packet_id)),
                Packet::PubRec(a) | Packet::PubComp(a) => Some((false, a.packet_id)),
                _ => None,
            };
            if let Some(e) = exchange {
                inbox.lock().expect("inbox").answers.insert(e, ack.clone());
            }
            let _ = tx.send(ack).await;
        }
        if slow > 0 {
            tokio::time::sleep(Duration::from_millis(slow as u64)).await;
        }
    }
}

struct World<'a> {
    c: &'a E2e,
    addr: SocketAddr,
    roots: Option<Arc<rustls::RootCertStore>>,
    live: Vec<Option<Live>>,
    inbox: Vec<Arc<Mutex<Inbox>>>,
    /// filter: QoS, no local
    subs: Vec<BTreeMap<u8, (u8, bool)>>,
    /// filters it ever subscribed to
    ever: Vec<BTreeSet<u8>>,
    sent: Vec<Sent>,
    /// clients and their restarts, in order, with clean start or not
    restarts: Vec<(usize, bool)>,
    /// how often each was started
    starts: Vec<usize>,
    next_id: u16,
}

impl World<'_> {
    async fn start(&mut self, i: usize, state: Option<SessionState>, clean: bool) -> Res {
        let k = &self.c.clients[i];
        self.starts[i] += 1;
        let mut conn = MqttConnection::new()
            .with_host(&self.addr.ip().to_string())
            .with_port(self.addr.port());
        if let Some(r) = &self.roots {
            conn = conn.with_tls().with_trust_store(r.clone());
        }
        let mut b = match state {
            Some(s) => ClientBuilder::default().with_state(conn, s),
            None => {
                let mut b = ClientBuilder::new(conn).with_auto_ack(k.auto_ack);
                if k.recv_max > 0 {
                    b = b.with_receive_max(k.recv_max);
                }
                if k.named {
                    b = b.with_client_id(&format!("c{i}"));
                }
                b
            }
        }
        .with_channel_size(k.chan)
        .with_max_connect_wait(PATIENCE);
        if let Some((t, q)) = k.will {
            b = b.with_will_message(conv::will_message(&Will {
                topic: TOPICS[t as usize % TOPICS.len()].into(),
                payload: payload(100 + i as u8, self.starts[i], 5),
                qos: q,
                retain: false,
                props: vec![],
            }));
        }
        let mut filtered = None;
        if let Some(n) = k.filtered {
            let (tx, rx) = tokio::sync::mpsc::channel(n.max(1) as usize);
            b = b.with_filtered_consumer(PacketType::Publish, tx);
            filtered = Some(rx);
        }
        let mut client = match b.build().await {
            Ok(c) => c,
            Err(e) => return hard(format!("the client cannot be built: {e}")),
        };
        let tx = client.packet_producer();
        let Some(rx) = client.take_packet_consumer() else { return hard("no consumer") };
        let ack = (!k.auto_ack).then(|| tx.clone());
        let mut readers =
            vec![tokio::spawn(read(rx, ack.clone(), k.slow, self.inbox[i].clone()))];
        if let Some(rx) = filtered {
            readers.push(tokio::spawn(read(rx, ack, k.slow, self.inbox[i].clone())));
        }
        let handle = match tokio::time::timeout(PATIENCE, client.start(clean)).await {
            Ok(Ok(h)) => h,
            Ok(Err(e)) => return hard(format!("client {i} does not start: {e}")),
            Err(_) => return Err(Fail::Soft(format!("client {i} does not start in time"))),
        };
        let w = Instant::now();
        while !client.connected().await {
            if handle.is_finished() {
                let e = match handle.await {
                    Ok(Err(e)) => e.to_string(),
                    Ok(Ok(_)) => "no error".into(),
                    Err(e) => e.to_string(),
                };
                return hard(format!("client {i} does not connect: {e}"));
            }
            if w.elapsed() > PATIENCE {
                return Err(Fail::Soft(format!("client {i} does not connect")));
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        let answers = std::mem::take(&mut self.inbox[i].lock().expect("inbox").answers);
        for p in answers.into_values().filter(|_| !clean && !k.auto_ack) {
            if tx.send(p).await.is_err() {
                return hard(format!("client {i} ended by itself"));
            }
        }
        self.live[i] = Some(Live { client, tx, handle, readers });
        Ok(())
    }

    async fn stop(&mut self, i: usize) -> Result<SessionState, Fail> {
        let Some(mut l) = self.live[i].take() else { return Err(Fail::Harness("gone".into())) };
        if l.handle.is_finished() {
            return self.ended(i, l).await;
        }
        if let Err(e) = l.client.stop().await {
            return hard(format!("client {i} cannot be stopped: {e}"));
        }
        self.ended(i, l).await
    }

    async fn ended(&mut self, i: usize, l: Live) -> Result<SessionState, Fail> {
        let Live { client, tx, handle, readers } = l;
        drop(tx);
        let state = match tokio::time::timeout(PATIENCE, handle).await {
            Err(_) => return Err(Fail::Soft(format!("client {i} does not stop"))),
            Ok(Ok(Ok(s))) => s,
            Ok(Ok(Err(e))) => return hard(format!("client {i} ends with an error: {e}")),
            Ok(Err(e)) => return hard(format!("client {i}: {e}")),
        };
        if client.connected().await {
            return hard(format!("client {i} is connected after its end"));
        }
        drop(client);
        // what is in its channels is read to the end
        for r in readers {
            if tokio::time::timeout(PATIENCE, r).await.is_err() {
                return Err(Fail::Soft(format!("the channels of client {i} stay open")));
            }
        }
        Ok(state)
    }

    async fn ack(&mut self, i: usize, id: u16) -> Result<Vec<u8>, Fail> {
        let w = Instant::now();
        loop {
            {
                let mut b = self.inbox[i].lock().expect("inbox");
                if let Some(k) = b.acks.iter().position(|a| a.0 == id) {
                    return Ok(b.acks.remove(k).1);
                }
            }
            if w.elapsed() > PATIENCE {
                return Err(Fail::Soft(format!("client {i} gets no acknowledgement of {id}")));
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }

    async fn change(&mut self, i: usize, ch: &Change, o: &mut Obs) -> Res {
        if let Change::Restart { clean } = ch {
            o.label(if *clean { "restart clean" } else { "restart" });
            let s = self.stop(i).await?;
            self.restarts.push((i, *clean));
            if *clean {
                self.subs[i].clear();
            }
            return self.start(i, Some(s), *clean).await;
        }
        let Some(l) = &self.live[i] else { return Ok(()) };
        // away from the identifiers of the messages, which the client assigns
        self.next_id += 1;
        let id = 30000 + self.next_id;
        let (p, want) = match ch {
            Change::Sub { filter, qos, no_local } => {
                let mut f = conv::filter(&crate::refcodec::Filter {
                    filter: FILTERS[*filter as usize % 8].into(),
                    qos: *qos,
                    no_local: *no_local,
                    rap: false,
                    rh: 0,
                });
                f.set_no_local(*no_local);
                self.ever[i].insert(*filter % 8);
                let had = self.subs[i].insert(*filter % 8, (*qos, *no_local));
                if had.is_some() {
                    o.label("subscription replaced");
                }
                (Packet::Subscribe(Subscribe::new_with_filter(id, vec![f])), *qos)
            }
            Change::Unsub(f) => {
                let had = self.subs[i].remove(&(f % 8)).is_some();
                let t = vec![FILTERS[*f as usize % 8].to_string()];
                (Packet::Unsubscribe(Unsubscribe::new(id, t)), if had { 0 } else { 0x11 })
            }
            Change::Restart { .. } => return Ok(()),
        };
        if l.tx.send(p).await.is_err() {
            return hard(format!("client {i} ended by itself"));
        }
        let got = self.ack(i, id).await?;
        // QoS 2 is granted or reduced
        let ok = match (got.as_slice(), want) {
            ([2 | 1 | 0], 2) => true,
            ([r], w) => *r == w,
            _ => false,
        };
        ensure!(ok, "{ch:?} of client {i} is acknowledged with {got:?}");
        if let (Change::Sub { filter, no_local, .. }, [q]) = (ch, got.as_slice()) {
            self.subs[i].insert(filter % 8, (*q, *no_local));
        }
        Ok(())
    }

    fn targets(&self, by: usize, topic: &str, qos: u8) -> Vec<(usize, Vec<u8>)> {
        let mut to = vec![];
        for (j, s) in self.subs.iter().enumerate() {
            let q: Vec<u8> = s
                .iter()
                .filter(|(f, (_, nl))| {
                    matches(FILTERS[**f as usize], topic) && !(*nl && j == by)
                })
                .map(|(_, (q, _))| (*q).min(qos))
                .collect();
            if !q.is_empty() && self.live[j].is_some() {
                to.push((j, q));
            }
        }
        to
    }

    /// Waits for what is due and says what is not
    async fn arrive(&self, from: usize) -> Res {
        let w = Instant::now();
        loop {
            let mut missing = None;
            for j in 0..self.inbox.len() {
                let b = self.inbox[j].lock().expect("inbox");
                let have: BTreeSet<&[u8]> = b.got.iter().map(|g| g.payload.as_slice()).collect();
                for s in &self.sent[from..] {
                    if s.to.iter().any(|t| t.0 == j) && !have.contains(s.payload.as_slice()) {
                        missing = Some((j, s.clone()));
                    }
                }
            }
            let Some((j, s)) = missing else { return Ok(()) };
            if let Some(Some(l)) = self.live.get(j) {
                if l.handle.is_finished() {
                    return hard(format!("client {j} ended by itself"));
                }
            }
            if w.elapsed() > PATIENCE {
                return Err(Fail::Soft(format!(
                    "client {j} does not get message {:?} to {} of client {} at QoS {}",
                    &s.payload[..3],
                    s.topic,
                    s.by,
                    s.qos
                )));
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }

    fn judge(&self, o: &mut Obs) -> Res {
        for j in 0..self.inbox.len() {
            let b = self.inbox[j].lock().expect("inbox");
            let mut copies: BTreeMap<usize, usize> = BTreeMap::new();
            let mut last: BTreeMap<(usize, &str, u8), usize> = BTreeMap::new();
            for g in &b.got {
                // started again before the broker came to its DISCONNECT, it took itself over
                let early = |i: usize| {
                    self.c.clients[i].will.is_some()
                        && (1..self.starts[i]).any(|e| g.payload == payload(100 + i as u8, e, 5))
                };
                if (0..self.starts.len()).any(early) {
                    o.label("will of a client that took itself over");
                    continue;
                }
                let Some(n) = self.sent.iter().position(|s| s.payload == g.payload) else {
                    return hard(format!("client {j} gets a message nobody sent: {g:?}"));
                };
                let s = &self.sent[n];
                // whether one of these clients was started again since in a way that repeats
                // messages of the QoS: those of QoS 2 only if the session was lost
                let since = |qos: u8, who: &[usize]| {
                    qos > 0
                        && self.restarts[s.epoch..]
                            .iter()
                            .any(|(r, clean)| who.contains(r) && (*clean || qos < 2))
                };
                ensure!(s.topic == g.topic, "sent to {}, arrives with {}", s.topic, g.topic);
                let Some((_, q)) = s.to.iter().find(|t| t.0 == j) else {
                    // sent again by its sender, for whose last acknowledgement nobody waited
                    let late = since(s.qos, &[s.by])
                        && self.ever[j].iter().any(|f| matches(FILTERS[*f as usize], s.topic));
                    ensure!(late, "client {j} gets a message it has no subscription for: {g:?}");
                    continue;
                };
                // what may be sent again: connections ended since
                let again = since(s.qos, &[s.by]) || since(g.qos, &[j]);
                if g.qos == 2 {
                    o.label(if again { "QoS 2, maybe again" } else { "QoS 2, once" });
                }
                // what its sender sent again may meet other subscriptions
                let anew = since(s.qos, &[s.by]);
                ensure!(q.contains(&g.qos) || anew, "client {j} gets {g:?}, subscribed with {q:?}");
                let k = copies.entry(n).or_default();
                *k += 1;
                ensure!(
                    *k <= q.len() || again,
                    "client {j} with {} matching subscriptions gets {k} copies of {g:?}",
                    q.len()
                );
                ensure!(!g.dup || again || since(1, &[j, s.by]), "client {j} gets {g:?} as duplicate");
                if *k == 1 {
                    let l = last.entry((s.by, s.topic, g.qos)).or_insert(n);
                    ensure!(
                        n >= *l,
                        "client {j} gets message {n} after {l} of client {} to {}",
                        s.by,
                        s.topic
                    );
                    *l = n;
                }
                o.step();
            }
        }
        Ok(())
    }
}

/// A broker with a certificate for its address
async fn broker(tls: bool) -> Result<(Broker, SocketAddr, Option<Arc<rustls::RootCertStore>>), Fail> {
    if !tls {
        let (b, a) = start_broker(|_| ()).await?;
        return Ok((b, a, None));
    }
    let roots = Mutex::new(None);
    let (b, a) = start_broker(|k| {
        let (acceptor, r) = tls_for(k.listen_addr.ip());
        k.tls_acceptor = Some(acceptor);
        *roots.lock().expect("roots") = Some(r);
    })
    .await?;
    Ok((b, a, roots.into_inner().expect("roots")))
}

pub fn run(c: &E2e, o: &mut Obs) -> Res {
    // one more client gets everything, which shows that the broker has dealt with a message
    let mut with = c.clone();
    let n = with.clients.len();
    with.clients.push(Cl {
        auto_ack: true,
        recv_max: 0,
        chan: 100,
        filtered: None,
        named: false,
        will: None,
        slow: 0,
    });
    let c = &with;
    threads(c.threads.clamp(1, 4) as usize, async {
        let (_broker, addr, roots) = broker(c.tls).await?;
        if c.tls {
            o.label("tls");
        }
        let mut w = World {
            c,
            addr,
            roots,
            live: (0..=n).map(|_| None).collect(),
            inbox: (0..=n).map(|_| Arc::default()).collect(),
            subs: vec![BTreeMap::new(); n + 1],
            ever: vec![BTreeSet::new(); n + 1],
            sent: vec![],
            restarts: vec![],
            starts: vec![0; n + 1],
            next_id: 0,
        };
        for i in 0..=n {
            w.start(i, None, true).await?;
        }
        w.change(n, &Change::Sub { filter: 0, qos: 0, no_local: false }, o).await?;
        let mut delivered = false;
        for r in &c.rounds {
            for (i, ch) in &r.changes {
                w.change(*i as usize % n, ch, o).await?;
            }
            let from = w.sent.len();
            let mut senders = vec![];
            for (i, l) in r.pubs.iter().enumerate().take(n) {
                let mut packets = vec![];
                let large = (0..r.heavy as usize * l.len()).map(|n| {
                    let (t, q, len) = l[n % l.len()];
                    (t, q, 50_000 + len / 3)
                });
                // within what the broker queues for a subscriber, subscribed several times
                let large = large.take(300 / n);
                if r.heavy > 0 && !l.is_empty() {
                    o.label("heavy");
                }
                for (t, q, len) in l.iter().copied().chain(large) {
                    let (t, q, len) = (&t, &q, &len);
                    let topic = TOPICS[*t as usize % TOPICS.len()];
                    let s = Sent {
                        topic,
                        qos: *q,
                        payload: payload(i as u8, w.sent.len(), *len),
                        by: i,
                        epoch: w.restarts.len(),
                        to: w.targets(i, topic, *q),
                    };
                    let mut m = vaux_mqtt::Publish::default();
                    m.topic_name = topic.into();
                    m.set_qos(conv::qos(*q));
                    m.payload = Some(s.payload.clone().into());
                    packets.push(Packet::Publish(m));
                    delivered |= s.to.iter().any(|t| t.0 < n);
                    w.sent.push(s);
                }
                if let Some(l) = &w.live[i] {
                    let tx = l.tx.clone();
                    senders.push(tokio::spawn(async move {
                        for p in packets {
                            if tx.send(p).await.is_err() {
                                return false;
                            }
                        }
                        true
                    }));
                }
            }
            for s in senders {
                match tokio::time::timeout(PATIENCE, s).await {
                    Ok(Ok(true)) => (),
                    Ok(_) => return hard("a client ended by itself"),
                    Err(_) => return Err(Fail::Soft("a client takes no packets".into())),
                }
            }
            w.arrive(from).await?;
        }
        // clients that crash: their wills
        let from = w.sent.len();
        for i in c.crash.iter().map(|i| *i as usize % n).collect::<BTreeSet<_>>() {
            let Some(l) = w.live[i].take() else { continue };
            l.handle.abort();
            drop(l);
            o.label("crash");
            if let Some((t, q)) = c.clients[i].will {
                let topic = TOPICS[t as usize % TOPICS.len()];
                let s = Sent {
                    topic,
                    qos: q,
                    payload: payload(100 + i as u8, w.starts[i], 5),
                    by: i,
                    epoch: w.restarts.len(),
                    to: w.targets(i, topic, q),
                };
                if s.to.iter().any(|t| t.0 < n) {
                    o.label("will");
                }
                w.sent.push(s);
                w.arrive(from).await?;
            }
        }
        for i in 0..=n {
            if w.live[i].is_some() {
                w.stop(i).await?;
            }
        }
        if delivered {
            o.nontrivial();
        }
        w.judge(o)
    })
}

pub fn e01() -> Property {
    Property {
        id: "E01",
        rule: "at least one message has a subscriber",
        assumptions: &["loopback TCP works", "20 s are enough for a message over loopback"],
        subs: vec![Prop::net("histories", 2_500, cases, run).boxed()],
    }
}
