//! A model of the client, and the fake server and application that drive the real one. The
//! server end is a bare loopback socket; the client's clock stands still unless the case moves
//! it. After every operation all packets on the wire and in the application's channels are
//! compared with what the model expects.
use crate::bsim::{settle, Peer, Wait};
use crate::conv;
use crate::gen;
use crate::hex::short;
use crate::net::*;
use crate::refcodec::{self, *};
use crate::runner::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::time::Duration;
use tokio::sync::mpsc::{Receiver, Sender};
use vaux_client::client::ClientError;
use vaux_client::session::SessionState;
use vaux_client::{ClientBuilder, ErrorKind, MqttClient, MqttConnection};
use vaux_mqtt::codec::PacketType;
use vaux_mqtt::Packet;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct CCfg {
    pub auto_ack: bool,
    pub auto_id: bool,
    /// 0: not configured
    pub recv_max: u16,
    pub chan: u16,
    /// kinds with a channel of their own and its capacity
    pub filtered: Vec<(u8, u8)>,
    pub pingresp: bool,
    /// milliseconds
    pub ka: u32,
    pub ka_on: bool,
    /// None: the default
    pub expiry: Option<u64>,
    /// None: not configured
    pub id: Option<String>,
    pub user: Option<(String, String)>,
    pub will: Option<Will>,
    pub max_packet: Option<u32>,
    /// max_connect_wait in milliseconds, None: the default
    pub wait: Option<u16>,
}

/// What the server does instead of accepting the connection
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum CFail {
    Reason(u8),
    Disconnect(u8),
    Packet(u8),
    Fin,
    Rst,
    Malformed(u8),
    Silence,
    /// only so many bytes of CONNACK
    Partial(u8),
    NoId,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct CConn {
    pub clean: bool,
    /// the server kept the session
    pub keep: bool,
    pub ka: Option<u16>,
    pub expiry: Option<u32>,
    pub recv: Option<u16>,
    /// the server's limit is the one of CONNACK and further properties that change nothing
    pub extra: u8,
    pub ops: Vec<COp>,
    /// how many of the client's last acknowledgements the server does not get
    pub lose: u8,
    pub drain: bool,
    pub end: CEnd,
    pub fail: Option<CFail>,
    /// CONNACK arrives in two parts, milliseconds between
    pub split: Option<(u8, u16)>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Msg {
    pub topic: String,
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
    pub len: u16,
    pub seed: u8,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum AppOp {
    /// with a packet identifier chosen by the application
    Pub(Msg, Option<u8>),
    Sub { un: bool, id: u8, filters: Vec<(String, u8)>, helper: bool },
    Ping,
    Ack { sel: u8, refuse: bool },
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum SrvOp {
    Pub(Msg),
    Ack { sel: u8, reason: u8 },
    Rel { sel: u8 },
    SubAck { sel: u8 },
    PingResp,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum COp {
    App(Vec<AppOp>),
    Srv(Vec<SrvOp>),
    Both(Vec<AppOp>, Vec<SrvOp>),
    /// the application takes so many packets from every channel
    Read(u8),
    /// milliseconds in 1000ths of the keep alive in force, or of a minute
    Wait(u16),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum CEnd {
    Stop,
    AppDisconnect(u8),
    Fin,
    Rst,
    SrvDisconnect(u8),
    /// kind 4, 5 or 7 for an identifier the client does not use, or in the wrong state
    BadAck(u8, u8),
    Malformed(u8),
    Oversize,
    IdConflict,
    NoId,
    Exceed(u8),
    ConsumerGone,
    DropAll,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct CCase {
    pub cfg: CCfg,
    pub conns: Vec<CConn>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Out {
    /// PUBLISH sent
    Sent,
    /// PUBREC received, the application has to send PUBREL
    App,
    /// PUBREL sent
    Rel,
}

#[derive(Clone, Debug)]
struct COut {
    seq: u64,
    /// 0: not known yet
    id: u16,
    msg: refcodec::Publish,
    stage: Out,
    /// the application has read the PUBREC
    seen: bool,
    /// an answer of the server is under way
    acking: bool,
    /// not sent again since the session was resumed
    unsent: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum In {
    /// QoS 1, to be acknowledged by the application
    Ack,
    /// QoS 2, the application has to send PUBREC
    Rec,
    /// waits for PUBREL
    Rel,
    /// the application has to send PUBCOMP
    Comp,
}

#[derive(Clone, Debug)]
struct CIn {
    stage: In,
    seen: bool,
}

#[derive(Clone, Debug)]
struct SOut {
    id: u16,
    msg: refcodec::Publish,
    /// PUBREC received
    rec: bool,
    /// PUBREL is under way
    rel: bool,
}

struct Chan {
    cap: usize,
    q: VecDeque<Pk>,
    rx: Option<Receiver<Packet>>,
}

pub struct CSim<'a> {
    cfg: &'a CCfg,
    obs: &'a mut Obs,
    peer: Option<Peer>,
    client: Option<MqttClient>,
    tx: Option<Sender<Packet>>,
    handle: Option<tokio::task::JoinHandle<Result<SessionState, ClientError>>>,
    // the client's session
    cout: Vec<COut>,
    queued: VecDeque<(u16, refcodec::Publish)>,
    resend: VecDeque<u64>,
    cin: BTreeMap<u16, CIn>,
    undelivered: Option<Pk>,
    assigned: Option<String>,
    // of this connection
    send_max: usize,
    subs: BTreeMap<u16, bool>,
    inbox: VecDeque<Pk>,
    held: Option<(usize, Pk)>,
    chans: Vec<Chan>,
    ka: u64,
    now: u64,
    last_sent: u64,
    want: BTreeMap<u8, VecDeque<(u64, Pk)>>,
    /// ended by what it has just processed
    fatal: Option<&'static str>,
    // the server's session
    sout: Vec<SOut>,
    /// state before each of the acknowledgements received since the last message was sent
    undo: Vec<Vec<SOut>>,
    next_id: u16,
    seq: u64,
    npub: u64,
    /// the server has a session
    established: bool,
    inflight_max: usize,
    pub stats: BTreeMap<&'static str, u64>,
}

fn kind_type(k: u8) -> PacketType {
    PacketType::from(k << 4)
}

fn packet(pk: &Pk) -> Result<Packet, Fail> {
    let b = pk.encode();
    match conv::decode(&b) {
        Ok((p, n)) if n == b.len() => Ok(p),
        x => Err(Fail::Harness(format!("the codec does not decode {pk:?}: {x:?}"))),
    }
}

fn ack(kind: u8, id: u16, reason: u8) -> Pk {
    Pk::Ack { kind, id, reason, props: vec![] }
}

impl<'a> CSim<'a> {
    pub fn new(cfg: &'a CCfg, obs: &'a mut Obs) -> Self {
        CSim {
            cfg,
            obs,
            peer: None,
            client: None,
            tx: None,
            handle: None,
            cout: vec![],
            queued: VecDeque::new(),
            resend: VecDeque::new(),
            cin: BTreeMap::new(),
            undelivered: None,
            assigned: None,
            send_max: 65535,
            subs: BTreeMap::new(),
            inbox: VecDeque::new(),
            held: None,
            chans: vec![],
            ka: 0,
            now: 0,
            last_sent: 0,
            want: BTreeMap::new(),
            fatal: None,
            sout: vec![],
            undo: vec![],
            next_id: 0,
            seq: 0,
            npub: 0,
            established: false,
            inflight_max: 65535,
            stats: BTreeMap::new(),
        }
    }
    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }
    fn recv_max(&self) -> usize {
        if self.cfg.recv_max == 0 {
            65535
        } else {
            self.cfg.recv_max as usize
        }
    }

    // ---------------------------------------------------------------- what the client does

    fn expect(&mut self, seq: u64, pk: Pk) {
        self.obs.log(|| format!("  expect {pk:?}"));
        self.want.entry(pk.kind()).or_default().push_back((seq, pk));
    }

    fn in_flight(&self) -> usize {
        self.cout.iter().filter(|f| !f.unsent).count()
    }

    /// Sends what the server takes now
    fn flush(&mut self) {
        while let Some(seq) = self.resend.front().copied() {
            let Some(i) = self.cout.iter().position(|f| f.seq == seq) else {
                self.resend.pop_front();
                continue;
            };
            if self.in_flight() >= self.send_max {
                return;
            }
            self.resend.pop_front();
            self.cout[i].unsent = false;
            let mut m = self.cout[i].msg.clone();
            m.dup = true;
            m.id = self.cout[i].id;
            self.stat("message sent again");
            self.expect(seq, Pk::Publish(m));
        }
        while let Some((_, m)) = self.queued.front() {
            if m.qos > 0 && self.in_flight() >= self.send_max {
                self.stat("window full");
                return;
            }
            if m.qos > 0 && self.cout.len() + self.subs.len() >= 65535 {
                self.stat("no identifier left");
                return;
            }
            let (id, mut m) = self.queued.pop_front().expect("front");
            self.seq += 1;
            m.id = id;
            if m.qos > 0 {
                self.cout.push(COut {
                    seq: self.seq,
                    id,
                    msg: m.clone(),
                    stage: Out::Sent,
                    seen: false,
                    acking: false,
                    unsent: false,
                });
            }
            self.expect(self.seq, Pk::Publish(m));
        }
    }

    fn chan_of(&self, kind: u8) -> usize {
        self.cfg.filtered.iter().position(|f| f.0 == kind).map(|i| i + 1).unwrap_or(0)
    }

    fn deliver(&mut self, pk: Pk) {
        let i = self.chan_of(pk.kind());
        if self.chans[i].q.len() < self.chans[i].cap {
            self.chans[i].q.push_back(pk);
        } else {
            self.stat("consumer full");
            self.held = Some((i, pk));
        }
    }

    /// The client reads from its socket while the application keeps up
    fn process(&mut self) {
        loop {
            if let Some((i, pk)) = self.held.take() {
                if self.chans[i].q.len() < self.chans[i].cap {
                    self.chans[i].q.push_back(pk);
                } else {
                    self.held = Some((i, pk));
                    return;
                }
            }
            if self.fatal.is_some() {
                return;
            }
            let Some(pk) = self.inbox.pop_front() else { return };
            self.handle(pk);
        }
    }

    fn handle(&mut self, pk: Pk) {
        match &pk {
            Pk::Publish(p) => {
                self.stat("message received");
                match p.qos {
                    0 => self.deliver(pk),
                    1 => {
                        if self.cfg.auto_ack {
                            self.expect(0, ack(4, p.id, 0));
                        } else {
                            self.cin.insert(p.id, CIn { stage: In::Ack, seen: false });
                        }
                        self.deliver(pk)
                    }
                    _ => match self.cin.get(&p.id).map(|c| c.stage) {
                        Some(In::Rec) => {}
                        Some(In::Rel) => {
                            self.stat("QoS 2 message received again");
                            self.expect(0, ack(5, p.id, 0))
                        }
                        _ => {
                            let stage = if self.cfg.auto_ack {
                                self.expect(0, ack(5, p.id, 0));
                                In::Rel
                            } else {
                                In::Rec
                            };
                            self.cin.insert(p.id, CIn { stage, seen: false });
                            self.deliver(pk)
                        }
                    },
                }
            }
            Pk::Ack { kind: 6, id, .. } => match self.cin.get(id).map(|c| c.stage) {
                Some(In::Rel) => {
                    if self.cfg.auto_ack {
                        self.stat("QoS 2 received");
                        self.cin.remove(id);
                        self.expect(0, ack(7, *id, 0));
                    } else {
                        self.cin.insert(*id, CIn { stage: In::Comp, seen: false });
                    }
                    self.deliver(pk)
                }
                Some(In::Comp) => {}
                None => {
                    // completed before, the server did not get the PUBCOMP
                    self.stat("PUBREL received again");
                    self.expect(0, ack(7, *id, 0x92));
                }
                _ => self.fatal = Some("protocol"),
            },
            Pk::Ack { kind, id, reason, .. } => {
                let Some(i) = self.cout.iter().position(|f| f.id == *id) else {
                    self.fatal = Some("protocol");
                    return;
                };
                let (qos, stage) = (self.cout[i].msg.qos, self.cout[i].stage);
                self.cout[i].acking = false;
                match (*kind, qos, stage) {
                    (4, 1, Out::Sent) => {
                        self.stat("QoS 1 sent");
                        self.cout.remove(i);
                        self.flush();
                    }
                    (5, 2, Out::Sent) if *reason >= 0x80 => {
                        self.stat("QoS 2 refused");
                        self.cout.remove(i);
                        self.flush();
                    }
                    (5, 2, Out::Sent) => {
                        if self.cfg.auto_ack {
                            self.cout[i].stage = Out::Rel;
                            let (seq, id) = (self.cout[i].seq, *id);
                            self.expect(seq, ack(6, id, 0));
                        } else {
                            self.cout[i].stage = Out::App;
                            self.cout[i].seen = false;
                        }
                    }
                    (7, 2, Out::Rel) => {
                        self.stat("QoS 2 sent");
                        self.cout.remove(i);
                        self.flush();
                    }
                    _ => {
                        self.fatal = Some("protocol");
                        return;
                    }
                }
                self.deliver(pk)
            }
            Pk::SubAck { id, .. } | Pk::UnsubAck { id, .. } => {
                self.subs.remove(id);
                self.flush();
                self.deliver(pk)
            }
            Pk::PingResp => {
                if self.cfg.pingresp {
                    self.deliver(pk)
                }
            }
            _ => self.deliver(pk),
        }
    }

    // ---------------------------------------------------------------- the wire

    fn on_wire(&mut self, pk: Pk) -> Res {
        self.obs.log(|| format!("  wire {pk:?}"));
        self.last_sent = self.now;
        let Some((seq, want)) = self.want.get_mut(&pk.kind()).and_then(|q| q.pop_front()) else {
            return hard(format!("the client sends {pk:?}, which is not due"));
        };
        match (&pk, &want) {
            (Pk::Publish(got), Pk::Publish(w)) => {
                let mut w = w.clone();
                if w.qos > 0 && w.id == 0 {
                    if got.id == 0 {
                        return hard("a PUBLISH has packet identifier 0");
                    }
                    if self.cout.iter().any(|f| f.id == got.id) {
                        return hard(format!("packet identifier {} is in use by another message", got.id));
                    }
                    if self.subs.contains_key(&got.id) {
                        return hard(format!(
                            "packet identifier {} is in use by a SUBSCRIBE or UNSUBSCRIBE",
                            got.id
                        ));
                    }
                    if let Some(f) = self.cout.iter_mut().find(|f| f.seq == seq) {
                        f.id = got.id;
                        f.msg.id = got.id;
                    }
                    w.id = got.id;
                }
                if Pk::Publish(w.clone()).canonical() != pk.canonical() {
                    return hard(format!("the client sends {got:?} instead of {w:?}"));
                }
                // counted as the server sees them
                let n = self.in_flight() + self.sent_not_processed();
                if w.qos > 0 && n > self.inflight_max {
                    return hard(format!("{n} messages in flight, the server allows {}", self.inflight_max));
                }
            }
            (Pk::Ack { kind, id, reason, .. }, Pk::Ack { id: wid, reason: wr, .. }) => {
                if id != wid {
                    return hard(format!("the client sends {pk:?} instead of {want:?}"));
                }
                if reason != wr && *wr != 0x92 {
                    return hard(format!("the client sends {pk:?} instead of {want:?}"));
                }
                if *kind != 6 {
                    self.undo.push(self.sout.clone());
                    match (*kind, *reason >= 0x80) {
                        (5, false) => {
                            if let Some(f) = self.sout.iter_mut().find(|f| f.id == *id) {
                                f.rec = true;
                            }
                        }
                        _ => self.sout.retain(|f| f.id != *id),
                    }
                }
            }
            _ => {
                if pk.canonical() != want.canonical() {
                    return hard(format!("the client sends {pk:?} instead of {want:?}"));
                }
            }
        }
        Ok(())
    }

    /// flows of the client the server has finished but the client has not read so yet: they do
    /// not count against the server's limit, nor does the model of the client count them twice
    fn sent_not_processed(&self) -> usize {
        0
    }

    fn wanted(&self) -> bool {
        self.want.values().any(|q| !q.is_empty())
    }

    async fn sync(&mut self) -> Res {
        let w = Wait::new();
        loop {
            let mut any = false;
            while let Some(pk) = self.peer.as_mut().map(|p| p.next()).transpose()?.flatten() {
                self.on_wire(pk)?;
                any = true;
            }
            if !self.wanted() {
                break;
            }
            if self.peer.as_ref().is_some_and(|p| p.eof) || self.finished() {
                let r = self.result().await?;
                return hard(format!("the client ends ({r}) before it has sent {:?}", self.first_wanted()));
            }
            if !any && !w.pause().await {
                return soft(format!("the client does not send {:?}", self.first_wanted()));
            }
        }
        settle().await;
        while let Some(pk) = self.peer.as_mut().map(|p| p.next()).transpose()?.flatten() {
            self.on_wire(pk)?;
        }
        Ok(())
    }

    fn first_wanted(&self) -> Option<&Pk> {
        self.want.values().find_map(|q| q.front()).map(|x| &x.1)
    }

    fn finished(&self) -> bool {
        self.handle.as_ref().is_some_and(|h| h.is_finished())
    }

    async fn result(&mut self) -> Result<String, Fail> {
        let Some(h) = self.handle.take() else { return Ok("ended".into()) };
        Ok(match soon("the end of the client", h).await? {
            Ok(Ok(_)) => "stopped".into(),
            Ok(Err(e)) => format!("error {:?} {}", e.kind(), e.mqtt_error),
            Err(e) => format!("{e}"),
        })
    }

    /// Nothing may have ended the client
    async fn alive(&mut self) -> Res {
        if self.finished() {
            let r = self.result().await?;
            return hard(format!("the client ends: {r}"));
        }
        Ok(())
    }

    async fn send(&mut self, pk: &Pk) -> Res {
        let pk_ = pk.clone();
        self.obs.log(move || format!("server {pk_:?}"));
        let b = pk.encode();
        let ok = match self.peer.as_mut() {
            Some(p) => p.send(&b).await?,
            None => false,
        };
        if !ok {
            let r = self.result().await?;
            return hard(format!("the client closes the connection: {r}"));
        }
        self.inbox.push_back(pk.clone());
        Ok(())
    }

    async fn produce(&mut self, p: Packet) -> Res {
        let Some(tx) = self.tx.clone() else { return Err(Fail::Harness("no producer".into())) };
        if soon("the producer channel", tx.send(p)).await?.is_err() {
            let r = self.result().await?;
            return hard(format!("the producer channel is closed: {r}"));
        }
        Ok(())
    }

    // ---------------------------------------------------------------- operations

    fn message(&mut self, m: &Msg, server: bool) -> refcodec::Publish {
        self.npub += 1;
        let mut payload = format!("{}{}:", if server { "s" } else { "c" }, self.npub).into_bytes();
        payload.extend(gen::fill(m.len as usize, m.seed as u64));
        refcodec::Publish {
            dup: false,
            qos: m.qos,
            retain: m.retain,
            topic: m.topic.clone(),
            id: 0,
            props: m.props.clone(),
            payload,
        }
    }

    fn id_used(&self, id: u16) -> bool {
        id == 0
            || self.cout.iter().any(|f| f.id == id)
            || self.queued.iter().any(|q| q.0 == id)
            || self.subs.contains_key(&id)
    }

    /// Gives the packets to the client, updates the model
    async fn app(&mut self, ops: &[AppOp]) -> Res {
        let mut published = false;
        for op in ops {
            self.obs.step();
            match op {
                AppOp::Pub(m, id) => {
                    let mut p = self.message(m, false);
                    let mut own = 0;
                    if p.qos > 0 {
                        if !self.cfg.auto_id || id.is_some() {
                            let base = if self.cfg.auto_id { 40_000u16 } else { 1 };
                            own = base + id.unwrap_or(0) as u16;
                            while self.id_used(own) {
                                own += 1;
                            }
                            self.stat("own packet identifier");
                        }
                        published = true;
                    }
                    p.id = own;
                    let mut api = conv::publish(&refcodec::Publish { id: 1, ..p.clone() });
                    if p.qos > 0 {
                        api.set_packet_id((own != 0).then_some(own)).map_err(harness("packet id"))?;
                    }
                    self.obs.log(|| format!("app {p:?}"));
                    self.queued.push_back((own, p));
                    self.stat("message published");
                    self.flush();
                    self.produce(Packet::Publish(api)).await?;
                }
                AppOp::Sub { un, id, filters, helper } => {
                    let id = *id as u16;
                    // an identifier chosen by the client may not be known to the application
                    if published || self.id_used(id) {
                        continue;
                    }
                    self.stat("subscribe");
                    self.subs.insert(id, *un);
                    let pk = if *un {
                        Pk::Unsubscribe { id, props: vec![], filters: filters.iter().map(|f| f.0.clone()).collect() }
                    } else {
                        Pk::Subscribe {
                            id,
                            props: vec![],
                            filters: filters
                                .iter()
                                .map(|f| Filter {
                                    filter: f.0.clone(),
                                    qos: if *helper { filters[0].1 } else { f.1 },
                                    no_local: false,
                                    rap: false,
                                    rh: 0,
                                })
                                .collect(),
                        }
                    };
                    self.expect(0, pk.clone());
                    if *helper && !*un {
                        let names: Vec<&str> = filters.iter().map(|f| f.0.as_str()).collect();
                        let q = conv::qos(filters[0].1);
                        let Some(c) = self.client.as_mut() else { continue };
                        match soon("subscribe", c.subscribe(id, &names, q)).await? {
                            Ok(()) => {}
                            Err(e) => return hard(format!("subscribe: {e}")),
                        }
                    } else {
                        self.produce(packet(&pk)?).await?;
                    }
                }
                AppOp::Ping => {
                    self.expect(0, Pk::PingReq);
                    let Some(c) = self.client.as_mut() else { continue };
                    if let Err(e) = soon("ping", c.ping()).await? {
                        return hard(format!("ping: {e}"));
                    }
                }
                AppOp::Ack { sel, refuse } => self.app_ack(*sel, *refuse).await?,
            }
        }
        Ok(())
    }

    async fn app_ack(&mut self, sel: u8, refuse: bool) -> Res {
        if self.cfg.auto_ack {
            // ignored, whether it fits an open exchange or not
            self.stat("acknowledgement of the application ignored");
            let ids = self.cin.keys().copied().chain(self.cout.iter().map(|f| f.id));
            // those not sent yet have none
            let ids: Vec<u16> = ids.filter(|id| *id > 0).collect();
            let id = match ids.len() {
                0 => 1 + sel as u16,
                n => ids[sel as usize / 4 % n],
            };
            let pk = ack(4 + sel % 4, id, if refuse { 0x97 } else { 0 });
            return self.produce(packet(&pk)?).await;
        }
        if sel >= 224 {
            // of a message that is not to be released (any more)
            let ids = self.cout.iter().filter(|f| f.stage == Out::Rel).map(|f| f.id);
            let ids: Vec<u16> = ids.filter(|id| *id > 0).collect();
            let id = match ids.len() {
                n if n > 0 && sel % 2 == 0 => ids[sel as usize / 2 % n],
                _ => 1 + sel as u16 % 7 * 50,
            };
            if self.cout.iter().any(|f| f.id == id && f.stage != Out::Rel) {
                return Ok(());
            }
            self.stat("PUBREL of the application ignored");
            return self.produce(packet(&ack(6, id, 0))?).await;
        }
        let mut can: Vec<Pk> = vec![];
        for (id, c) in &self.cin {
            // answered twice, a message that is received again would be taken for a new one
            if self.inbox.iter().any(|p| matches!(p, Pk::Publish(p) if p.qos > 0 && p.id == *id)) {
                continue;
            }
            match c.stage {
                In::Ack if c.seen => can.push(ack(4, *id, if refuse { 0x97 } else { 0 })),
                In::Rec if c.seen => can.push(ack(5, *id, if refuse { 0x97 } else { 0 })),
                In::Comp if c.seen => can.push(ack(7, *id, 0)),
                _ => {}
            }
        }
        for f in &self.cout {
            if f.stage == Out::App && f.seen {
                can.push(ack(6, f.id, 0));
            }
        }
        if can.is_empty() {
            return Ok(());
        }
        let pk = can[sel as usize % can.len()].clone();
        let Pk::Ack { kind, id, reason, .. } = pk else { return Ok(()) };
        self.stat("acknowledged by the application");
        match kind {
            4 | 7 => {
                self.cin.remove(&id);
            }
            5 if reason >= 0x80 => {
                self.cin.remove(&id);
            }
            5 => {
                self.cin.insert(id, CIn { stage: In::Rel, seen: false });
            }
            _ => {
                if let Some(f) = self.cout.iter_mut().find(|f| f.id == id) {
                    f.stage = Out::Rel;
                }
            }
        }
        self.expect(0, pk.clone());
        self.produce(packet(&pk)?).await
    }

    async fn srv(&mut self, ops: &[SrvOp]) -> Res {
        for op in ops {
            self.obs.step();
            match op {
                SrvOp::Pub(m) => {
                    let mut p = self.message(m, true);
                    let max = self.cfg.max_packet.unwrap_or(65536) as usize;
                    if Pk::Publish(refcodec::Publish { id: 1, ..p.clone() }).encode().len() > max {
                        self.stat("larger than the client accepts");
                        continue;
                    }
                    if p.qos > 0 {
                        if self.sout.len() >= self.recv_max() {
                            continue;
                        }
                        loop {
                            self.next_id = self.next_id % 65_535 + 1;
                            if !self.sout.iter().any(|f| f.id == self.next_id) {
                                break;
                            }
                        }
                        p.id = self.next_id;
                        self.undo.clear();
                        self.sout.push(SOut { id: p.id, msg: p.clone(), rec: false, rel: false });
                    }
                    self.send(&Pk::Publish(p)).await?;
                }
                SrvOp::Ack { sel, reason } => {
                    let can: Vec<usize> = (0..self.cout.len())
                        .filter(|i| {
                            let f = &self.cout[*i];
                            f.id != 0 && !f.acking && !f.unsent && f.stage != Out::App
                                && !self.want.get(&3).is_some_and(|q| q.iter().any(|w| w.0 == f.seq))
                                && !self.want.get(&6).is_some_and(|q| q.iter().any(|w| matches!(&w.1, Pk::Ack { id, .. } if *id == f.id)))
                        })
                        .collect();
                    if can.is_empty() {
                        continue;
                    }
                    let i = can[*sel as usize % can.len()];
                    let f = &mut self.cout[i];
                    f.acking = true;
                    let ok = reason % 3 != 0;
                    let pk = match (f.msg.qos, f.stage) {
                        (1, _) => ack(4, f.id, [0x97, 0, 0x10][*reason as usize % 3]),
                        (_, Out::Sent) => ack(5, f.id, if ok { 0 } else { [0x80, 0x83, 0x97][*reason as usize / 3 % 3] }),
                        _ => ack(7, f.id, if ok { 0 } else { 0x92 }),
                    };
                    self.send(&pk).await?;
                }
                SrvOp::Rel { sel } => {
                    let can: Vec<usize> =
                        (0..self.sout.len()).filter(|i| self.sout[*i].rec && !self.sout[*i].rel).collect();
                    if can.is_empty() {
                        continue;
                    }
                    let f = &mut self.sout[can[*sel as usize % can.len()]];
                    f.rel = true;
                    let id = f.id;
                    self.undo.clear();
                    self.send(&ack(6, id, 0)).await?;
                }
                SrvOp::SubAck { sel } => {
                    let wanted: BTreeSet<u16> = [8u8, 10]
                        .iter()
                        .flat_map(|k| self.want.get(k).into_iter().flatten())
                        .filter_map(|w| match &w.1 {
                            Pk::Subscribe { id, .. } | Pk::Unsubscribe { id, .. } => Some(*id),
                            _ => None,
                        })
                        .collect();
                    let pending: BTreeSet<u16> = self
                        .inbox
                        .iter()
                        .filter_map(|p| match p {
                            Pk::SubAck { id, .. } | Pk::UnsubAck { id, .. } => Some(*id),
                            _ => None,
                        })
                        .collect();
                    let can: Vec<(u16, bool)> = self
                        .subs
                        .iter()
                        .map(|(a, b)| (*a, *b))
                        .filter(|x| !wanted.contains(&x.0) && !pending.contains(&x.0))
                        .collect();
                    if can.is_empty() {
                        continue;
                    }
                    let (id, un) = can[*sel as usize % can.len()];
                    let pk = if un {
                        Pk::UnsubAck { id, props: vec![], reasons: vec![0x11] }
                    } else {
                        Pk::SubAck { id, props: vec![], reasons: vec![1, 0x87] }
                    };
                    self.send(&pk).await?;
                }
                SrvOp::PingResp => self.send(&Pk::PingResp).await?,
            }
        }
        Ok(())
    }

    /// The application takes up to n packets from a channel
    async fn read(&mut self, i: usize, n: usize) -> Res {
        for _ in 0..n {
            let Some(want) = self.chans[i].q.pop_front() else { return Ok(()) };
            let exp = packet(&want)?;
            let Some(rx) = self.chans[i].rx.as_mut() else { return Ok(()) };
            let got = within(SOON, rx.recv()).await;
            self.obs.log(|| format!("  app reads {:?}", want));
            match got {
                Some(Some(p)) if p == exp => {}
                Some(Some(p)) => return hard(format!("the application receives {p:?} instead of {exp:?}")),
                Some(None) => {
                    let r = self.result().await?;
                    return hard(format!("the channel is closed ({r}) before {exp:?} is received"));
                }
                None => return soft(format!("the application does not receive {exp:?}")),
            }
            match &want {
                Pk::Publish(p) if p.qos > 0 => {
                    if let Some(c) = self.cin.get_mut(&p.id) {
                        c.seen = true;
                    }
                }
                Pk::Ack { kind: 6, id, .. } => {
                    if let Some(c) = self.cin.get_mut(id) {
                        c.seen = true;
                    }
                }
                Pk::Ack { kind: 5, id, .. } => {
                    if let Some(f) = self.cout.iter_mut().find(|f| f.id == *id) {
                        f.seen = true;
                    }
                }
                _ => {}
            }
            self.process();
        }
        Ok(())
    }

    /// Nothing but what is expected may be in the channels
    fn no_more(&mut self) -> Res {
        for c in &mut self.chans {
            let Some(rx) = c.rx.as_mut() else { continue };
            if c.q.is_empty() {
                if let Ok(p) = rx.try_recv() {
                    return hard(format!("the application receives {p:?}, which is not due"));
                }
            }
        }
        Ok(())
    }

    async fn drain(&mut self) -> Res {
        loop {
            self.process();
            let mut any = false;
            for i in 0..self.chans.len() {
                let n = self.chans[i].q.len();
                any |= n > 0;
                self.read(i, n).await?;
            }
            if !any {
                break;
            }
        }
        Ok(())
    }

    async fn wait(&mut self, ms: u64) -> Res {
        let end = self.now + ms;
        while self.now < end {
            let due = if self.cfg.ka_on && self.ka > 0 { self.last_sent + self.ka } else { u64::MAX };
            if due > end + 50 {
                self.advance(end - self.now).await;
                self.sync().await?;
                break;
            }
            if due > self.now + 50 {
                let d = due - 50 - self.now;
                self.advance(d).await;
                self.sync().await?;
            }
            self.expect(0, Pk::PingReq);
            let d = due + 50 - self.now;
            self.advance(d).await;
            self.stat("keep alive ping");
            self.sync().await?;
        }
        Ok(())
    }

    async fn advance(&mut self, ms: u64) {
        self.obs.log(|| format!("time +{ms} ms"));
        tokio::time::advance(Duration::from_millis(ms)).await;
        self.now += ms;
        settle().await;
    }

    async fn op(&mut self, op: &COp) -> Res {
        self.alive().await?;
        match op {
            COp::App(a) => self.app(a).await?,
            COp::Srv(s) => {
                self.srv(s).await?;
                self.process();
            }
            COp::Both(a, s) => {
                self.stat("both at once");
                self.srv(s).await?;
                self.app(a).await?;
                self.process();
            }
            COp::Read(n) => {
                self.sync().await?;
                for i in 0..self.chans.len() {
                    self.read(i, *n as usize).await?;
                }
            }
            COp::Wait(x) => {
                self.sync().await?;
                let unit = if self.ka > 0 { self.ka } else { 60_000 };
                self.wait(unit * *x as u64 / 1000).await?;
            }
        }
        self.sync().await?;
        self.alive().await
    }

    // ---------------------------------------------------------------- connections

    fn client_id(&self) -> Option<String> {
        self.assigned.clone().or(self.cfg.id.clone())
    }

    /// The state is returned if the connection does not come about
    async fn open(
        &mut self,
        c: &CConn,
        state: Option<SessionState>,
        addr: std::net::SocketAddr,
        l: &std::net::TcpListener,
    ) -> Result<Option<SessionState>, Fail> {
        let cfg = self.cfg;
        let mut conn = MqttConnection::new().with_host(&addr.ip().to_string()).with_port(addr.port());
        if let Some((u, p)) = &cfg.user {
            conn = conn.with_credentials(u, p);
        }
        let first = state.is_none();
        let mut b = match state {
            Some(s) => ClientBuilder::default().with_state(conn, s),
            None => {
                let mut b = ClientBuilder::new(conn)
                    .with_auto_ack(cfg.auto_ack)
                    .with_auto_packet_id(cfg.auto_id)
                    .with_keep_alive(Duration::from_millis(cfg.ka as u64))
                    .with_keep_alive_enabled(cfg.ka_on)
                    .with_pingresp(cfg.pingresp);
                if cfg.recv_max > 0 {
                    b = b.with_receive_max(cfg.recv_max);
                }
                if let Some(e) = cfg.expiry {
                    b = b.with_session_expiry(Duration::from_secs(e));
                }
                if let Some(id) = &cfg.id {
                    b = b.with_client_id(id);
                }
                if let Some(n) = cfg.max_packet {
                    b = b.with_max_packet_size(n as usize);
                }
                b
            }
        };
        b = b.with_channel_size(cfg.chan);
        if let Some(w) = cfg.wait {
            b = b.with_max_connect_wait(Duration::from_millis(w as u64));
        }
        if let Some(w) = &cfg.will {
            b = b.with_will_message(conv::will_message(w));
        }
        self.chans.clear();
        self.chans.push(Chan { cap: cfg.chan as usize, q: VecDeque::new(), rx: None });
        for (k, cap) in &cfg.filtered {
            let (tx, rx) = tokio::sync::mpsc::channel((*cap).max(1) as usize);
            b = b.with_filtered_consumer(kind_type(*k), tx);
            self.chans.push(Chan { cap: (*cap).max(1) as usize, q: VecDeque::new(), rx: Some(rx) });
        }
        let mut client = match b.build().await {
            Ok(c) => c,
            Err(e) => return hard(format!("the client cannot be built: {e}")),
        };
        self.chans[0].rx = client.take_packet_consumer();
        self.tx = Some(client.packet_producer());
        if client.connected().await {
            return hard("the client is connected before it is started");
        }
        if client.max_connect_wait() != Duration::from_millis(self.connect_wait()) {
            return hard(format!("max_connect_wait() is {:?}", client.max_connect_wait()));
        }
        let handle = match soon("start", client.start(c.clean)).await? {
            Ok(h) => h,
            Err(e) => return hard(format!("start: {e}")),
        };
        self.handle = Some(handle);
        let w = Wait::new();
        let io = loop {
            match l.accept() {
                Ok((io, _)) => break io,
                Err(_) if w.pause().await => {}
                Err(e) => return Err(Fail::Harness(format!("accept: {e}"))),
            }
        };
        self.peer = Some(Peer::new(io)?);
        // CONNECT
        let got = match self.peer.as_mut().map(|p| p.recv("CONNECT")) {
            Some(f) => f.await?,
            None => None,
        };
        let Some(Pk::Connect(got)) = got else { return hard(format!("{got:?} instead of CONNECT")) };
        self.obs.log(|| format!("wire {got:?}"));
        let mut props: Props = vec![(0x11, Val::U32(cfg.expiry.unwrap_or(600).min(u32::MAX as u64) as u32))];
        props.push((0x27, Val::U32(cfg.max_packet.unwrap_or(65536))));
        if cfg.recv_max > 0 && cfg.recv_max < 65535 {
            props.push((0x21, Val::U16(cfg.recv_max)));
        }
        let id = match self.client_id() {
            Some(id) => id,
            None => {
                if !got.client_id.starts_with("vaux-client-") {
                    return hard(format!("the client identifier is {:?}", got.client_id));
                }
                if first {
                    self.assigned = Some(got.client_id.clone());
                }
                got.client_id.clone()
            }
        };
        let want = refcodec::Connect {
            clean: c.clean,
            keep_alive: (cfg.ka / 1000).min(65535) as u16,
            props,
            client_id: id,
            will: cfg.will.clone(),
            username: cfg.user.as_ref().map(|u| u.0.clone()),
            password: cfg.user.as_ref().map(|u| u.1.clone().into_bytes()),
        };
        let mut g = got.clone();
        // 0 is the default
        g.props.retain(|p| *p != (0x11, Val::U32(0)));
        let mut want = want;
        want.props.retain(|p| *p != (0x11, Val::U32(0)));
        if Pk::Connect(g).canonical() != Pk::Connect(want.clone()).canonical() {
            return hard(format!("the client sends {got:?} instead of {want:?}"));
        }
        if let Some(f) = &c.fail {
            if let Some(s) = self.refused(f, want.client_id.is_empty()).await? {
                return Ok(Some(s));
            }
        }
        // CONNACK
        let present = self.established && !c.clean && c.keep;
        self.established = true;
        let mut props: Props = vec![];
        if let Some(k) = c.ka {
            props.push((0x13, Val::U16(k)));
        }
        if let Some(e) = c.expiry {
            props.push((0x11, Val::U32(e)));
        }
        if let Some(r) = c.recv {
            props.push((0x21, Val::U16(r)));
        }
        if want.client_id.is_empty() {
            let id = format!("assigned-{}", self.npub);
            props.push((0x12, Val::Str(id.clone())));
            self.assigned = Some(id);
        }
        if c.extra & 1 != 0 {
            props.push((0x26, Val::Pair("a".into(), "b".into())));
        }
        if c.extra & 2 != 0 {
            props.push((0x1f, Val::Str("welcome".into())));
        }
        if c.extra & 4 != 0 {
            props.push((0x2a, Val::Byte(0)));
        }
        let pk = Pk::ConnAck { present, reason: 0, props };
        self.send_max = c.recv.unwrap_or(65535) as usize;
        self.inflight_max = self.send_max;
        self.ka = c.ka.unwrap_or((cfg.ka / 1000).min(65535) as u16) as u64 * 1000;
        self.last_sent = self.now;
        self.subs.clear();
        self.inbox.clear();
        self.undo.clear();
        self.want.clear();
        self.fatal = None;
        self.held = None;
        if let Some(pk) = self.undelivered.take() {
            self.stat("kept for the application");
            self.deliver(pk);
        }
        if present {
            self.stat("resumed");
            self.resend.clear();
            let mut rel = vec![];
            for f in &mut self.cout {
                f.acking = false;
                f.unsent = f.stage == Out::Sent;
                match f.stage {
                    Out::Sent => self.resend.push_back(f.seq),
                    Out::Rel => rel.push((f.seq, f.id)),
                    Out::App => {}
                }
            }
            for (seq, id) in rel {
                self.stat("PUBREL sent again");
                self.expect(seq, ack(6, id, 0));
            }
        } else {
            self.cout.clear();
            self.cin.clear();
            self.sout.clear();
            self.resend.clear();
        }
        self.flush();
        match c.split {
            None => {
                self.send(&pk).await?;
            }
            Some((at, ms)) => {
                self.stat("CONNACK in parts");
                let b = pk.encode();
                let at = at as usize % b.len();
                let ms = (ms as u64 % 900).min(self.connect_wait().saturating_sub(60));
                if let Some(p) = self.peer.as_mut() {
                    p.send(&b[..at]).await?;
                }
                self.settled(ms).await?;
                self.alive().await?;
                if self.client.as_ref().is_none() && client.connected().await {
                    return hard("connected() is true before CONNACK");
                }
                if let Some(p) = self.peer.as_mut() {
                    p.send(&b[at..]).await?;
                }
            }
        }
        self.inbox.clear();
        // what the server has not seen acknowledged is sent again
        let flows = self.sout.clone();
        for f in &flows {
            if f.rec {
                self.send(&ack(6, f.id, 0)).await?;
            } else {
                let mut m = f.msg.clone();
                m.dup = true;
                self.send(&Pk::Publish(m)).await?;
            }
        }
        for f in &mut self.sout {
            f.rel = f.rec;
        }
        self.client = Some(client);
        let w = Wait::new();
        loop {
            if let Some(cl) = &self.client {
                if cl.connected().await {
                    break;
                }
            }
            self.alive().await?;
            if !w.pause().await {
                return soft("the client does not notice that it is connected");
            }
        }
        self.process();
        self.sync().await?;
        self.alive().await?;
        if let Some(cl) = &self.client {
            let (k, e) = (cl.keep_alive().await, cl.session_expiry().await);
            if k != Duration::from_millis(self.ka) {
                return hard(format!("keep_alive() is {k:?} instead of {} ms", self.ka));
            }
            let want = c.expiry.map(u64::from).or(cfg.expiry).unwrap_or(600);
            if e.min(Duration::from_secs(u32::MAX as u64)) != Duration::from_secs(want.min(u32::MAX as u64)) {
                return hard(format!("session_expiry() is {e:?} instead of {want} s"));
            }
        }
        Ok(None)
    }

    /// max_connect_wait
    fn connect_wait(&self) -> u64 {
        self.cfg.wait.map(u64::from).unwrap_or(5000)
    }

    /// Lets time pass before the client is connected
    async fn settled(&mut self, ms: u64) -> Res {
        settle().await;
        self.advance(ms).await;
        settle().await;
        Ok(())
    }

    /// The server does not accept the connection
    async fn refused(&mut self, f: &CFail, no_id: bool) -> Result<Option<SessionState>, Fail> {
        if matches!(f, CFail::NoId) && !no_id {
            return Ok(None);
        }
        self.obs.log(|| format!("refused {f:?}"));
        let connack = Pk::ConnAck { present: false, reason: 0, props: vec![(0x1f, Val::Str("hello".into()))] };
        let mut silent = false;
        let bytes = match f {
            CFail::Reason(r) => Pk::ConnAck { present: false, reason: *r, props: vec![] }.encode(),
            CFail::Disconnect(r) => Pk::Disconnect { reason: *r, props: vec![] }.encode(),
            CFail::Packet(k) => match k % 5 {
                0 => Pk::PingResp.encode(),
                1 => Pk::SubAck { id: 1, props: vec![], reasons: vec![0] }.encode(),
                2 => ack(4, 1, 0).encode(),
                3 => ack(6, 1, 0).encode(),
                _ => Pk::Publish(refcodec::Publish {
                    dup: false,
                    qos: k / 5 % 3,
                    retain: false,
                    topic: "t".into(),
                    id: (k / 5 % 3) as u16,
                    props: vec![],
                    payload: vec![1],
                })
                .encode(),
            },
            CFail::Fin | CFail::Rst => vec![],
            CFail::Malformed(k) => [&[0x20u8, 0x01, 0x00][..], &[0x20, 0x03, 0x00, 0x00, 0x05], &[0x00, 0x00], &[0x20, 0x03, 0x00, 0x7f, 0x00]][*k as usize % 4].to_vec(),
            CFail::Silence => {
                silent = true;
                vec![]
            }
            CFail::Partial(n) => {
                silent = true;
                let b = connack.encode();
                b[..1 + *n as usize % (b.len() - 1)].to_vec()
            }
            CFail::NoId => connack.encode(),
        };
        self.stat("refused");
        if let Some(p) = self.peer.as_mut() {
            match f {
                CFail::Fin => p.fin(),
                CFail::Rst => p.rst(),
                _ => {
                    p.send(&bytes).await?;
                }
            }
        }
        if silent {
            let w = self.connect_wait();
            self.settled(w.saturating_sub(50)).await?;
            self.alive().await?;
            self.settled(100).await?;
            self.stat("no CONNACK");
        }
        let Some(h) = self.handle.take() else { return Err(Fail::Harness("no handle".into())) };
        let (kind, state) = match soon("the client does not end", h).await? {
            Ok(Ok(_)) => return hard(format!("the client stops without an error after {f:?}")),
            Ok(Err(ClientError { mqtt_error, state })) => (mqtt_error.kind(), state),
            Err(e) => return hard(format!("the client's task panics: {e}")),
        };
        let ok = match f {
            CFail::Reason(r) | CFail::Disconnect(r) => kind == ErrorKind::Protocol(conv::reason(*r)),
            CFail::Packet(_) | CFail::NoId => matches!(kind, ErrorKind::Protocol(_)),
            CFail::Silence | CFail::Partial(_) => kind == ErrorKind::Timeout,
            _ => true,
        };
        if !ok {
            return hard(format!("after {f:?} the client ends with {kind:?}"));
        }
        if let Some(mut p) = self.peer.take() {
            if p.is_open() {
                match p.rest("the end of the connection").await {
                    Err(Fail::Soft(_)) => return soft("the socket stays open after the end of the client"),
                    Ok(r) if matches!(r.as_slice(), [] | [Pk::Disconnect { .. }]) => {}
                    Ok(r) => return hard(format!("not connected, the client sends {r:?}")),
                    Err(e) => return Err(e),
                }
            }
        }
        self.tx = None;
        Ok(Some(state))
    }

    /// Ends the connection; the state for the next one
    async fn close(&mut self, c: &CConn) -> Result<SessionState, Fail> {
        let mut end = c.end.clone();
        if c.drain || !matches!(end, CEnd::Stop | CEnd::AppDisconnect(_) | CEnd::DropAll) {
            self.drain().await?;
            self.sync().await?;
        }
        self.no_more_settled().await?;
        if matches!(end, CEnd::IdConflict) && !(self.queued.is_empty() && self.resend.is_empty() && self.in_flight() < self.send_max && self.cout.iter().any(|f| f.id != 0)) {
            end = CEnd::Fin;
        }
        if matches!(end, CEnd::NoId) && (self.cfg.auto_id || !self.queued.is_empty() || !self.resend.is_empty() || self.in_flight() >= self.send_max) {
            end = CEnd::Fin;
        }
        if matches!(end, CEnd::Exceed(_)) && (self.cfg.recv_max == 0 || self.cfg.recv_max > 20) {
            end = CEnd::Fin;
        }
        if matches!(end, CEnd::Exceed(_)) {
            self.undo.clear();
        }
        // what the server has not received
        let lose = (c.lose as usize).min(self.undo.len());
        if lose > 0 {
            self.sout = self.undo[self.undo.len() - lose].clone();
            self.stat("acknowledgements lost");
        }
        self.obs.log(|| format!("end {end:?}"));
        let mut expect: &str = "transport";
        match &end {
            CEnd::Stop => {
                let Some(cl) = self.client.as_mut() else { return Err(Fail::Harness("no client".into())) };
                if let Err(e) = soon("stop", cl.stop()).await? {
                    return hard(format!("stop: {e}"));
                }
                expect = "ok";
            }
            CEnd::AppDisconnect(r) => {
                self.produce(packet(&Pk::Disconnect { reason: *r, props: vec![] })?).await?;
                expect = "ok";
            }
            CEnd::Fin => {
                if let Some(p) = self.peer.as_mut() {
                    p.fin();
                }
            }
            CEnd::Rst => {
                if let Some(p) = self.peer.as_mut() {
                    p.rst();
                }
            }
            CEnd::SrvDisconnect(r) => {
                self.send(&Pk::Disconnect { reason: *r, props: vec![] }).await?;
                expect = "reason";
            }
            CEnd::BadAck(kind, sel) => {
                // of an identifier not in use, or out of turn
                let wrong: Vec<Pk> = self
                    .cout
                    .iter()
                    .filter(|f| f.id != 0)
                    .flat_map(|f| {
                        let ok = match (f.msg.qos, f.stage) {
                            (1, _) => 4,
                            (_, Out::Sent) => 5,
                            (_, Out::Rel) => 7,
                            _ => 0,
                        };
                        [4u8, 5, 7].into_iter().filter(move |k| *k != ok).map(|k| ack(k, f.id, 0)).collect::<Vec<_>>()
                    })
                    .collect();
                let pk = if wrong.is_empty() || sel % 3 == 0 {
                    let mut id = 1 + *sel as u16;
                    while self.cout.iter().any(|f| f.id == id) {
                        id += 1;
                    }
                    ack(*kind, id, 0)
                } else {
                    wrong[*sel as usize % wrong.len()].clone()
                };
                self.send(&pk).await?;
                expect = "protocol";
            }
            CEnd::Malformed(k) => {
                let b: &[u8] = match k % 4 {
                    0 => &[0x00, 0x00],
                    1 => &[0xd0, 0x01, 0x00],
                    2 => &[0x36, 0x05, 0x00, 0x01, b'a', 0x00, 0x00],
                    _ => &[0x90, 0x03, 0x00, 0x05, 0x7f],
                };
                if let Some(p) = self.peer.as_mut() {
                    p.send(b).await?;
                }
                expect = "any";
            }
            CEnd::Oversize => {
                let n = self.cfg.max_packet.unwrap_or(65536) as usize;
                let mut m = self.message(
                    &Msg { topic: "big".into(), qos: 0, retain: false, props: vec![], len: 0, seed: 0 },
                    true,
                );
                m.payload = vec![1; n + 1];
                if let Some(p) = self.peer.as_mut() {
                    p.send(&Pk::Publish(m).encode()).await?;
                }
                expect = "any";
            }
            CEnd::IdConflict | CEnd::NoId => {
                let mut m = self.message(
                    &Msg { topic: "t".into(), qos: 1, retain: false, props: vec![], len: 0, seed: 0 },
                    false,
                );
                m.id = 1;
                let mut api = conv::publish(&m);
                let id = match end {
                    CEnd::NoId => None,
                    _ => self.cout.iter().map(|f| f.id).find(|i| *i != 0),
                };
                api.set_packet_id(id).map_err(harness("packet id"))?;
                self.produce(Packet::Publish(api)).await?;
                expect = "protocol*";
            }
            CEnd::Exceed(q) => {
                // as many QoS 2 messages as allowed without PUBREL, and one more
                let mut id = self.next_id;
                let mut n = self.cin.len();
                loop {
                    loop {
                        id = id % 65_535 + 1;
                        if !self.cin.contains_key(&id) && !self.sout.iter().any(|f| f.id == id) {
                            break;
                        }
                    }
                    let mut m = self.message(
                        &Msg { topic: "t".into(), qos: 2, retain: false, props: vec![], len: 0, seed: 0 },
                        true,
                    );
                    if n >= self.recv_max() {
                        m.qos = 1 + q % 2;
                    }
                    m.id = id;
                    if n < self.recv_max() {
                        self.sout.push(SOut { id, msg: m.clone(), rec: false, rel: false });
                    }
                    let pk = Pk::Publish(m);
                    self.send(&pk).await?;
                    if n >= self.recv_max() {
                        self.inbox.pop_back();
                        break;
                    }
                    n += 1;
                    self.process();
                    self.sync().await?;
                    self.drain().await?;
                }
                self.next_id = id;
                expect = "protocol*";
            }
            CEnd::ConsumerGone => {
                for ch in &mut self.chans {
                    ch.rx = None;
                }
                let pk = Pk::UnsubAck { id: 9, props: vec![], reasons: vec![0] };
                self.send(&pk).await?;
                // the next connection has a consumer for it
                self.undelivered = Some(pk);
                expect = "channel";
            }
            CEnd::DropAll => {
                self.client = None;
                self.tx = None;
            }
        }
        // what was sent before the end arrives
        let h = match self.handle.take() {
            Some(h) => h,
            None => return Err(Fail::Harness("no handle".into())),
        };
        let r = match soon("the client does not end", h).await? {
            Ok(r) => r,
            Err(e) => return hard(format!("the client's task panics: {e}")),
        };
        let (kind, state) = match r {
            Ok(s) => (None, s),
            Err(ClientError { mqtt_error, state }) => (Some(mqtt_error.kind()), state),
        };
        let ok = match expect {
            "ok" => kind.is_none(),
            "transport" => kind == Some(ErrorKind::Transport),
            "channel" => kind == Some(ErrorKind::Channel),
            "any" => kind.is_some(),
            "protocol*" => matches!(kind, Some(ErrorKind::Protocol(_))),
            "protocol" => kind == Some(ErrorKind::Protocol(vaux_mqtt::Reason::ProtocolErr)),
            _ => match &end {
                CEnd::SrvDisconnect(r) => kind == Some(ErrorKind::Protocol(conv::reason(*r))),
                _ => false,
            },
        };
        if !ok {
            return hard(format!("after {end:?} the client ends with {kind:?}"));
        }
        if let Some(cl) = &self.client {
            if cl.connected().await {
                return hard("connected() is true after the end");
            }
        }
        // nothing but DISCONNECT follows, then the socket is closed
        if let Some(mut p) = self.peer.take() {
            if p.is_open() {
                let rest = p.rest("the end of the connection").await;
                let rest = match rest {
                    Err(Fail::Soft(_)) => return soft("the socket stays open after the end of the client"),
                    x => x?,
                };
                let want = match &end {
                    CEnd::Stop => Some(Pk::Disconnect { reason: 0, props: vec![] }),
                    CEnd::AppDisconnect(r) => Some(Pk::Disconnect { reason: *r, props: vec![] }),
                    _ => None,
                };
                match (&want, rest.as_slice()) {
                    (Some(w), [g]) if w.canonical() == g.canonical() => {}
                    (None, []) => {}
                    // an error may be reported to the server
                    (None, [Pk::Disconnect { reason, .. }]) if *reason >= 0x80 && expect != "transport" => {}
                    _ => return hard(format!("at the end the client sends {rest:?}")),
                }
            }
        }
        self.inbox.clear();
        if let Some((_, pk)) = self.held.take() {
            self.undelivered = Some(pk);
        }
        // what is in the channels can still be read
        if !matches!(end, CEnd::ConsumerGone) {
            for i in 0..self.chans.len() {
                let n = self.chans[i].q.len();
                self.read(i, n).await?;
                if let Some(rx) = self.chans[i].rx.as_mut() {
                    if let Ok(p) = rx.try_recv() {
                        return hard(format!("the application receives {p:?}, which is not due"));
                    }
                }
            }
        }
        self.client = None;
        self.tx = None;
        Ok(state)
    }

    async fn no_more_settled(&mut self) -> Res {
        settle().await;
        self.no_more()
    }
}

pub fn run(case: &CCase, obs: &mut Obs) -> Result<BTreeMap<&'static str, u64>, Fail> {
    paused(async {
        let (l, addr) = listener()?;
        let mut s = CSim::new(&case.cfg, obs);
        let mut state = None;
        for (i, c) in case.conns.iter().enumerate() {
            s.obs.log(|| format!("--- connection {i} clean {} keep {}", c.clean, c.keep));
            if let Some(x) = s.open(c, state.take(), addr, &l).await? {
                state = Some(x);
                continue;
            }
            for op in &c.ops {
                s.op(op).await?;
            }
            state = Some(s.close(c).await?);
            if i > 0 {
                s.stat("restarted");
            }
        }
        let stats = s.stats.clone();
        for k in stats.keys() {
            s.obs.label(*k);
        }
        Ok(stats)
    })
}

pub fn listener() -> Result<(std::net::TcpListener, std::net::SocketAddr), Fail> {
    let mut last = String::new();
    for _ in 0..20 {
        match std::net::TcpListener::bind(address(0)) {
            Ok(l) => {
                l.set_nonblocking(true).map_err(harness("nonblocking"))?;
                let a = l.local_addr().map_err(harness("address"))?;
                return Ok((l, a));
            }
            Err(e) => last = e.to_string(),
        }
    }
    Err(Fail::Harness(format!("no loopback address: {last} {}", short(&[]))))
}

// ------------------------------------------------------------------ generators

#[derive(Clone, Copy)]
pub struct CW {
    pub publish: u32,
    pub sub: u32,
    pub ping: u32,
    pub ack: u32,
    pub spub: u32,
    pub sack: u32,
    pub rel: u32,
    pub suback: u32,
    pub pingresp: u32,
    pub read: u32,
    pub wait: u32,
    pub both: u32,
    /// connections at most
    pub conns: usize,
    pub ops: usize,
    /// percentage of connections that do not come about
    pub fail: u32,
}

/// CONNACK reason codes
const REFUSALS: &[u8] = &[
    0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97, 0x99, 0x9a, 0x9b, 0x9c,
    0x9d, 0x9f,
];
const GOODBYES: &[u8] = &[
    0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8b, 0x8d, 0x8e, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b,
    0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2,
];

pub fn cfail() -> BoxedStrategy<CFail> {
    prop_oneof![
        6 => proptest::sample::select(REFUSALS).prop_map(CFail::Reason),
        2 => proptest::sample::select(GOODBYES).prop_map(CFail::Disconnect),
        2 => any::<u8>().prop_map(CFail::Packet),
        1 => Just(CFail::Fin),
        1 => Just(CFail::Rst),
        1 => any::<u8>().prop_map(CFail::Malformed),
        1 => Just(CFail::Silence),
        2 => any::<u8>().prop_map(CFail::Partial),
        1 => Just(CFail::NoId),
    ]
    .boxed()
}

pub const CBASE: CW = CW {
    publish: 8,
    sub: 1,
    ping: 1,
    ack: 1,
    spub: 8,
    sack: 8,
    rel: 4,
    suback: 1,
    pingresp: 1,
    read: 4,
    wait: 1,
    both: 3,
    conns: 2,
    ops: 14,
    fail: 5,
};

pub fn msg() -> BoxedStrategy<Msg> {
    (
        crate::bsim::topic(),
        prop_oneof![2 => Just(0u8), 4 => Just(1u8), 4 => Just(2u8)],
        any::<bool>(),
        prop_oneof![5 => Just(vec![]), 1 => crate::bsim::small_props()],
        prop_oneof![4 => 0u16..20, 1 => 0u16..5000],
        any::<u8>(),
    )
        .prop_map(|(topic, qos, retain, props, len, seed)| Msg { topic, qos, retain, props, len, seed })
        .boxed()
}

fn filters() -> BoxedStrategy<Vec<(String, u8)>> {
    vec((crate::bsim::topic(), 0u8..3), 1..3).boxed()
}

pub fn app_op(w: CW, acks: bool) -> BoxedStrategy<AppOp> {
    let a = if acks { w.ack * 6 } else { w.ack };
    prop_oneof![
        w.publish => (msg(), proptest::option::weighted(0.15, 0u8..6)).prop_map(|(m, i)| AppOp::Pub(m, i)),
        w.sub => (any::<bool>(), 1u8..9, filters(), any::<bool>()).prop_map(|(un, id, filters, helper)| AppOp::Sub { un, id, filters, helper }),
        w.ping => Just(AppOp::Ping),
        a => (any::<u8>(), proptest::bool::weighted(0.2)).prop_map(|(sel, refuse)| AppOp::Ack { sel, refuse }),
    ]
    .boxed()
}

pub fn srv_op(w: CW) -> BoxedStrategy<SrvOp> {
    prop_oneof![
        w.spub => msg().prop_map(SrvOp::Pub),
        w.sack => (any::<u8>(), any::<u8>()).prop_map(|(sel, reason)| SrvOp::Ack { sel, reason }),
        w.rel => any::<u8>().prop_map(|sel| SrvOp::Rel { sel }),
        w.suback => any::<u8>().prop_map(|sel| SrvOp::SubAck { sel }),
        w.pingresp => Just(SrvOp::PingResp),
    ]
    .boxed()
}

pub fn cop(w: CW, acks: bool) -> BoxedStrategy<COp> {
    let a = move || vec(app_op(w, acks), 1..4);
    let s = move || vec(srv_op(w), 1..4);
    let app = w.publish + w.sub + w.ping + w.ack * if acks { 6 } else { 1 };
    let srv = w.spub + w.sack + w.rel + w.suback + w.pingresp;
    prop_oneof![
        app => a().prop_map(COp::App),
        srv => s().prop_map(COp::Srv),
        w.both => (a(), s()).prop_map(|(a, s)| COp::Both(a, s)),
        w.read => (1u8..5).prop_map(COp::Read),
        w.wait => prop_oneof![0u16..3500, Just(999u16), Just(1000u16), Just(1001u16)].prop_map(COp::Wait),
    ]
    .boxed()
}

pub fn cend() -> BoxedStrategy<CEnd> {
    prop_oneof![
        4 => Just(CEnd::Stop),
        1 => prop_oneof![Just(0u8), Just(4u8)].prop_map(CEnd::AppDisconnect),
        4 => Just(CEnd::Fin),
        4 => Just(CEnd::Rst),
        2 => prop_oneof![1 => Just(0u8), 6 => proptest::sample::select(GOODBYES)].prop_map(CEnd::SrvDisconnect),
        2 => (prop_oneof![Just(4u8), Just(5), Just(7)], any::<u8>()).prop_map(|(k, s)| CEnd::BadAck(k, s)),
        1 => any::<u8>().prop_map(CEnd::Malformed),
        1 => Just(CEnd::Oversize),
        1 => Just(CEnd::IdConflict),
        1 => Just(CEnd::NoId),
        1 => any::<u8>().prop_map(CEnd::Exceed),
        1 => Just(CEnd::ConsumerGone),
        1 => Just(CEnd::DropAll),
    ]
    .boxed()
}

pub fn ccfg(manual: Option<bool>) -> BoxedStrategy<CCfg> {
    let auto = match manual {
        Some(m) => Just(!m).boxed(),
        None => proptest::bool::weighted(0.8).boxed(),
    };
    (
        (auto, proptest::bool::weighted(0.8), prop_oneof![2 => Just(0u16), 4 => 1u16..6, 1 => Just(65535u16), 1 => Just(65534u16)]),
        (prop_oneof![3 => 1u16..5, 3 => Just(128u16)], proptest::collection::btree_map(prop_oneof![Just(3u8), Just(4), Just(5), Just(6), Just(7), Just(9), Just(11), Just(13)], 1u8..4, 0..3)),
        (any::<bool>(), prop_oneof![6 => (30u32..200).prop_map(|s| s * 1000), 1 => 30_000u32..200_000, 1 => 65_000_000u32..70_000_000, 1 => Just(65_535_000u32), 1 => Just(65_536_000u32)], proptest::bool::weighted(0.9)),
        (proptest::option::of(prop_oneof![Just(0u64), 1u64..100_000, Just(u32::MAX as u64), Just(u32::MAX as u64 + 1), any::<u64>()]), proptest::option::weighted(0.8, prop_oneof![4 => "[a-z]{1,10}", 1 => Just(String::new())])),
        (proptest::option::weighted(0.3, ("[a-zü]{0,6}", "[a-z]{0,6}")), proptest::option::weighted(0.3, gen::will()), proptest::option::weighted(0.2, 6000u32..20_000), proptest::option::weighted(0.3, 100u16..20_000)),
    )
        .prop_map(|((auto_ack, auto_id, recv_max), (chan, f), (pingresp, ka, ka_on), (expiry, id), (user, will, max_packet, wait))| CCfg {
            auto_ack,
            auto_id,
            recv_max,
            chan,
            filtered: f.into_iter().collect(),
            pingresp,
            ka,
            ka_on,
            expiry,
            id,
            user,
            will,
            max_packet,
            wait,
        })
        .boxed()
}

pub fn conn(w: CW, acks: bool) -> BoxedStrategy<CConn> {
    (
        (proptest::bool::weighted(0.15), proptest::bool::weighted(0.8)),
        proptest::option::weighted(0.3, prop_oneof![Just(0u16), 1u16..60, 60u16..2000]),
        proptest::option::weighted(0.3, prop_oneof![2 => Just(0u32), 1 => 1u32..100, 1 => Just(u32::MAX), 2 => any::<u32>()]),
        prop_oneof![2 => Just(None), 4 => (1u16..5).prop_map(Some), 1 => Just(Some(65535u16))],
        0u8..8,
        vec(cop(w, acks), 0..w.ops),
        (prop_oneof![3 => Just(0u8), 1 => 1u8..4], proptest::bool::weighted(0.7)),
        (cend(), proptest::option::weighted((w.fail as f64 / 100.0).max(0.000_001), cfail()), proptest::option::weighted(0.1, any::<(u8, u16)>())),
    )
        .prop_map(|((clean, keep), ka, expiry, recv, extra, ops, (lose, drain), (end, fail, split))| CConn {
            clean,
            keep,
            ka,
            expiry,
            recv,
            extra,
            ops,
            lose,
            drain,
            end,
            fail,
            split,
        })
        .boxed()
}

pub fn ccases(w: CW, manual: Option<bool>) -> BoxedStrategy<CCase> {
    ccfg(manual)
        .prop_flat_map(move |cfg| {
            let acks = !cfg.auto_ack;
            (Just(cfg), vec(conn(w, acks), 1..=w.conns))
        })
        .prop_map(|(cfg, conns)| CCase { cfg, conns })
        .boxed()
}
