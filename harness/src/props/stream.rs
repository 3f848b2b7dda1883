//! S01 - S03: packets over a byte stream
use crate::conv;
use crate::ensure;
use crate::gen;
use crate::hex::short;
use crate::net::{self, *};
use crate::refcodec::{self, *};
use crate::runner::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::pin;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use vaux_async::stream::{AsyncMqttStream, Error, MqttStream, PacketStream};
use vaux_mqtt::codec::Packet;

pub trait Io: AsyncRead + AsyncWrite + Unpin {}
impl<T: AsyncRead + AsyncWrite + Unpin> Io for T {}

/// (the stream under test's transport, the other end)
async fn transport(
    kind: u8,
    small: bool,
    reset: bool,
) -> Result<(AsyncMqttStream, Box<dyn Io>), Fail> {
    let (a, b) = pair().await?;
    if reset {
        let _ = b.set_zero_linger();
    }
    if small {
        small_send_buffer(&a);
    }
    if kind == 0 {
        return Ok((AsyncMqttStream(MqttStream::TcpStream(a)), Box::new(b)));
    }
    let t = net::tls();
    let name = rustls::pki_types::ServerName::try_from("localhost").map_err(harness("name"))?;
    let (c, s) = tokio::join!(t.connector.connect(name, a), t.acceptor.accept(b));
    let (c, s) = (c.map_err(harness("tls client"))?, s.map_err(harness("tls server"))?);
    Ok(if kind == 1 {
        (AsyncMqttStream(MqttStream::ClientTlsStream(Box::new(c))), Box::new(s))
    } else {
        (AsyncMqttStream(MqttStream::ServerTlsStream(Box::new(s))), Box::new(c))
    })
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum End {
    /// closed after the last packet
    Closed,
    /// closed within a further packet, after so many of its bytes
    Cut(u16),
    /// followed by a packet that is complete but not valid
    Malformed(u8),
    /// the connection is reset within a further packet
    Reset(u16),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Arrive {
    transport: u8,
    init: Option<u32>,
    pks: Vec<(Pk, u8, bool)>,
    last: Pk,
    /// sizes of the pieces in which the bytes arrive, repeated
    pieces: Vec<u32>,
    /// abandon the read at every piece
    cancel: bool,
    end: End,
}

fn big_publish() -> BoxedStrategy<Pk> {
    (0usize..4, 0usize..9, any::<u64>())
        .prop_map(|(k, d, s)| {
            // around the sizes to which the buffer grows
            let n = [4096usize, 8192, 16384, 65536][k] - 13 + d;
            Pk::Publish(refcodec::Publish {
                dup: false,
                qos: 0,
                retain: false,
                topic: "t/big".into(),
                id: 0,
                props: vec![],
                payload: gen::fill(n, s),
            })
        })
        .boxed()
}

fn some_pk() -> BoxedStrategy<Pk> {
    prop_oneof![12 => gen::small_pk(), 1 => big_publish()].boxed()
}

fn pieces() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![
        2 => Just(vec![1u16]),
        2 => vec(1u16..5, 1..8),
        3 => vec(1u16..120, 1..8),
        2 => vec(1u16..6000, 1..8),
        1 => Just(vec![60_000u16]),
    ]
    .boxed()
}

fn transport_kind() -> BoxedStrategy<u8> {
    prop_oneof![14 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)].boxed()
}

fn arrive(_: bool) -> BoxedStrategy<Arrive> {
    let init = prop_oneof![
        3 => Just(None),
        3 => (1u32..80).prop_map(Some),
        1 => (1u32..9000).prop_map(Some)
    ];
    let end = prop_oneof![
        3 => Just(End::Closed),
        3 => any::<u16>().prop_map(End::Cut),
        2 => any::<u8>().prop_map(End::Malformed),
        1 => any::<u16>().prop_map(End::Reset),
    ];
    (
        transport_kind(),
        init,
        vec((some_pk(), 0u8..3, any::<bool>()), 0..7),
        gen::small_pk(),
        pieces(),
        any::<bool>(),
        end,
    )
        .prop_map(|(transport, init, pks, last, pieces, cancel, end)| Arrive {
            transport,
            init,
            pks,
            last,
            pieces: pieces.into_iter().map(u32::from).collect(),
            cancel,
            end,
        })
        .boxed()
}

/// Bursts that end with a chosen number of bytes of the next packet, the sizes at which the
/// buffer is filled, has grown or could be shrunk
fn bursts(_: bool) -> BoxedStrategy<Arrive> {
    let init = prop_oneof![3 => Just(None), 1 => (1u32..80).prop_map(Some), 1 => (1u32..9000).prop_map(Some)];
    let size = prop_oneof![
        3 => 10usize..200,
        2 => (0usize..4, 0usize..9).prop_map(|(k, d)| ([4096usize, 8192, 16384, 65536][k] + d) - 13),
        4 => 200usize..30_000,
    ];
    let rest = prop_oneof![
        2 => Just(0usize),
        4 => (0usize..5, 0usize..3).prop_map(|(k, d)| (4096usize << k) + d - 1),
        3 => (10usize..13, 0usize..3).prop_map(|(k, d)| (k - 10) * 1_000_000 + 900_000 + d),
        1 => 0usize..20_000,
    ];
    (transport_kind(), init, vec((size, rest, any::<bool>(), any::<u64>()), 2..8), any::<bool>())
        .prop_map(|(transport, init, ps, cancel)| {
            let mut pks = vec![];
            let mut pieces = vec![];
            let mut taken = 0;
            let base = init.unwrap_or(4096) as usize;
            for (i, (n, r, raw, seed)) in ps.iter().enumerate() {
                let pk = Pk::Publish(refcodec::Publish {
                    dup: false,
                    qos: 0,
                    retain: false,
                    topic: "t".into(),
                    id: 0,
                    props: vec![],
                    payload: gen::fill(*n, *seed),
                });
                let len = pk.encode().len();
                // multiples of the initial size
                let r = if *r >= 900_000 { (base << (r / 1_000_000)) + r % 10 - 1 } else { *r };
                let next = match ps.get(i + 1) {
                    Some((n, ..)) => r.min(*n),
                    None => 0,
                };
                let piece = (len - taken + next) as u32;
                if next == 0 || len > taken {
                    pieces.push(piece.max(1));
                }
                taken = next;
                pks.push((pk, 0, *raw));
            }
            let last = Pk::PingReq;
            Arrive { transport, init, pks, last, pieces, cancel, end: End::Closed }
        })
        .boxed()
}

enum Got {
    Packet(Packet),
    Raw(Packet, Vec<u8>),
    Closed,
    Failed(Error),
}

async fn read(s: &mut PacketStream, raw: bool) -> Got {
    if raw {
        match s.read_raw().await {
            Ok(Some((p, b))) => Got::Raw(p, b.to_vec()),
            Ok(None) => Got::Closed,
            Err(e) => Got::Failed(e),
        }
    } else {
        match s.read().await {
            Ok(Some(p)) => Got::Packet(p),
            Ok(None) => Got::Closed,
            Err(e) => Got::Failed(e),
        }
    }
}

struct Expect {
    bytes: Vec<Vec<u8>>,
    packets: Vec<Packet>,
    next: usize,
}

impl Expect {
    fn packet(&mut self, g: Got) -> Result<Option<Got>, Fail> {
        let (p, raw) = match g {
            Got::Packet(p) => (p, None),
            Got::Raw(p, b) => (p, Some(b)),
            g => return Ok(Some(g)),
        };
        let i = self.next;
        if i >= self.packets.len() {
            return hard(format!("packet {i} of {} read: {p:?}", self.packets.len()));
        }
        ensure!(
            p == self.packets[i],
            "packet {i} is read as {p:?} instead of {:?}",
            self.packets[i]
        );
        if let Some(b) = raw {
            ensure!(
                b == self.bytes[i],
                "bytes of packet {i} are {} instead of {}",
                short(&b),
                short(&self.bytes[i])
            );
        }
        self.next += 1;
        Ok(None)
    }
}

fn s01(c: &Arrive, o: &mut Obs) -> Res {
    let mut e = Expect { bytes: vec![], packets: vec![], next: 0 };
    for (pk, form, _) in &c.pks {
        let b = pk.encode_form(*form);
        match conv::decode(&b) {
            Ok((p, n)) if n == b.len() => e.packets.push(p),
            // the codec's own properties cover this
            _ => {
                o.label("packet the codec refuses");
                return Ok(());
            }
        }
        e.bytes.push(b);
    }
    let mut all: Vec<u8> = e.bytes.concat();
    let whole = all.len();
    let lb = c.last.encode();
    match &c.end {
        End::Closed => {}
        End::Cut(n) | End::Reset(n) => {
            let n = 1 + *n as usize % (lb.len() - 1).max(1);
            all.extend_from_slice(&lb[..n.min(lb.len() - 1)]);
        }
        End::Malformed(k) => all.extend_from_slice(match k % 6 {
            0 => &[0x00, 0x00],
            1 => &[0xc0, 0x01, 0x00],
            2 => &[0x36, 0x05, 0x00, 0x01, b'a', 0x00, 0x00],
            3 => &[0x30, 0x03, 0x00, 0x05, b'a'],
            4 => &[0x20, 0x04, 0x00, 0x00, 0x01, 0x7e],
            _ => &[0x30, 0xff, 0xff, 0xff, 0xff, 0x01],
        }),
    }
    o.label(["tcp", "tls client", "tls server"][c.transport as usize]);
    o.label(match c.end {
        End::Closed => "end: closed",
        End::Cut(_) => "end: closed within a packet",
        End::Malformed(_) => "end: malformed",
        End::Reset(_) => "end: reset",
    });
    if c.cancel {
        o.label("reads abandoned");
    }
    // no more than some thousand pieces
    let least = (all.len() / 1500) as u32;
    let pieces: Vec<usize> = c.pieces.iter().map(|p| (*p).max(least).max(1) as usize).collect();
    if c.pks.len() > 1 && all.len() > pieces[0] {
        o.nontrivial();
    }
    live(async {
        let (a, peer) = transport(c.transport, false, matches!(c.end, End::Reset(_))).await?;
        let mut peer = Some(peer);
        let mut s = PacketStream::new(a, c.init.map(|x| x as usize), None);
        let raw_at = |i: usize| c.pks.get(i).map(|p| p.2).unwrap_or(i % 2 == 0);
        let mut ended: Option<Got> = None;
        if c.cancel {
            let (mut at, mut i) = (0, 0);
            let p = peer.as_mut().expect("peer");
            while at < all.len() && ended.is_none() {
                let n = pieces[i % pieces.len()].min(all.len() - at);
                i += 1;
                p.write_all(&all[at..at + n]).await.map_err(harness("write"))?;
                p.flush().await.map_err(harness("flush"))?;
                at += n;
                loop {
                    turns(1).await;
                    let got = {
                        let mut f = pin!(read(&mut s, raw_at(e.next)));
                        poll_once(&mut f).await
                    };
                    o.step();
                    match got {
                        None => break,
                        Some(g) => {
                            ended = e.packet(g)?;
                            if ended.is_some() {
                                break;
                            }
                        }
                    }
                }
            }
            finish(&mut peer, c).await;
        } else {
            let mut w = pin!(async {
                let (mut at, mut i) = (0, 0);
                let p = peer.as_mut().expect("peer");
                while at < all.len() {
                    let n = pieces[i % pieces.len()].min(all.len() - at);
                    i += 1;
                    if p.write_all(&all[at..at + n]).await.is_err() || p.flush().await.is_err()
                    {
                        break;
                    }
                    at += n;
                    turns(1).await;
                }
                finish(&mut peer, c).await;
            });
            let mut done = false;
            while ended.is_none() && !done {
                let mut r = pin!(read(&mut s, raw_at(e.next)));
                let got = tokio::select! {
                    biased;
                    _ = &mut w, if !done => { done = true; None }
                    g = &mut r => Some(g),
                };
                o.step();
                let g = match got {
                    Some(g) => g,
                    None => soon("read", r).await?,
                };
                ended = e.packet(g)?;
            }
        }
        while ended.is_none() {
            let g = soon("read", read(&mut s, raw_at(e.next))).await?;
            ended = e.packet(g)?;
        }
        // the bytes of a reset connection may be lost
        if !matches!(c.end, End::Reset(_)) {
            ensure!(
                e.next == e.packets.len(),
                "{} of {} packets ({whole} bytes) were read before the end",
                e.next,
                e.packets.len()
            );
        }
        let ok = match (&c.end, ended.as_ref()) {
            (End::Closed, Some(Got::Closed)) => true,
            (End::Cut(_), Some(Got::Failed(Error::Io(_)))) => true,
            (End::Malformed(_), Some(Got::Failed(Error::Codec(_)))) => true,
            (End::Reset(_), Some(Got::Failed(_))) => true,
            // nothing but the reset arrived
            (End::Reset(_), Some(Got::Closed)) => c.transport > 0,
            _ => false,
        };
        ensure!(
            ok,
            "the stream ends with {}, expected for {:?}",
            match &ended {
                Some(Got::Closed) => "an orderly end".to_string(),
                Some(Got::Failed(e)) => format!("the error {e:?}"),
                _ => "nothing".to_string(),
            },
            c.end
        );
        // and stays at an end
        let again = soon("read after the end", read(&mut s, false)).await?;
        ensure!(
            matches!(again, Got::Closed | Got::Failed(_)),
            "a packet is read after the end of the stream"
        );
        Ok(())
    })
}

async fn finish(peer: &mut Option<Box<dyn Io>>, c: &Arrive) {
    if matches!(c.end, End::Reset(_)) {
        *peer = None;
    } else if let Some(p) = peer {
        let _ = p.shutdown().await;
    }
}

// ------------------------------------------------------------------ S02

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Out {
    Pk(Pk),
    /// cannot be encoded
    Bad(u16),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Depart {
    transport: u8,
    small: bool,
    out: Vec<Out>,
    /// bytes the other end takes at a time
    takes: Vec<u16>,
    /// packets arriving meanwhile
    incoming: Vec<Pk>,
    shutdown: bool,
}

fn depart(_: bool) -> BoxedStrategy<Depart> {
    let large = (70_000usize..400_000, any::<u64>()).prop_map(|(n, s)| {
        Pk::Publish(refcodec::Publish {
            dup: false,
            qos: 0,
            retain: true,
            topic: "t/large".into(),
            id: 0,
            props: vec![],
            payload: gen::fill(n, s),
        })
    });
    let out = prop_oneof![
        10 => gen::small_pk().prop_map(Out::Pk),
        1 => big_publish().prop_map(Out::Pk),
        1 => large.prop_map(Out::Pk),
        1 => any::<u16>().prop_map(Out::Bad),
    ];
    (
        prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
        any::<bool>(),
        vec(out, 1..7),
        vec(prop_oneof![1u16..50, 1u16..5000, Just(60_000u16)], 1..5),
        vec(gen::small_pk(), 0..4),
        any::<bool>(),
    )
        .prop_map(|(transport, small, out, takes, incoming, shutdown)| Depart {
            transport,
            small,
            out,
            takes,
            incoming,
            shutdown,
        })
        .boxed()
}

fn s02(c: &Depart, o: &mut Obs) -> Res {
    let mut want: Vec<u8> = vec![];
    let mut packets: Vec<(Packet, bool)> = vec![];
    for x in &c.out {
        match x {
            Out::Pk(pk) => {
                // through decoding, to have properties of acknowledgements as well
                let Ok((p, _)) = conv::decode(&pk.encode()) else { return Ok(()) };
                let Ok(b) = conv::encode(&p) else { return Ok(()) };
                want.extend(b);
                packets.push((p, true));
            }
            Out::Bad(n) => {
                let mut p = vaux_mqtt::Publish::default();
                p.topic_name = "x".repeat(65_536 + *n as usize);
                packets.push((Packet::Publish(p), false));
                o.label("packet that cannot be encoded");
            }
        }
    }
    let mut incoming = vec![];
    for pk in &c.incoming {
        let b = pk.encode();
        let Ok((p, _)) = conv::decode(&b) else { return Ok(()) };
        incoming.push((p, b));
    }
    if packets.len() > 1 {
        o.nontrivial();
    }
    o.label(["tcp", "tls client", "tls server"][c.transport as usize]);
    if want.len() > 60_000 {
        o.label("more than 60 kB");
    }
    live(async {
        let (a, mut peer) = transport(c.transport, c.small, false).await?;
        let mut s = PacketStream::new(a, None, None);
        // arrives before anything is written
        for (_, b) in &incoming {
            peer.write_all(b).await.map_err(harness("write"))?;
        }
        peer.flush().await.map_err(harness("flush"))?;
        let mut got: Vec<u8> = vec![];
        let mut w = pin!(async {
            let mut reads = incoming.iter();
            for (i, (p, ok)) in packets.iter_mut().enumerate() {
                let before = p.clone();
                let r = soon("write", s.write(p)).await?;
                match r {
                    Ok(()) => ensure!(*ok, "packet {i} cannot be encoded, write reports success"),
                    Err(Error::Codec(_)) => ensure!(!*ok, "packet {i} is not written"),
                    Err(e) => return hard(format!("packet {i}: {e:?}")),
                }
                ensure!(before == *p, "writing packet {i} changes it");
                if let Some((q, b)) = reads.next() {
                    match soon("read", s.read_raw()).await? {
                        Ok(Some((p, raw))) => {
                            ensure!(p == *q && raw[..] == b[..], "read {p:?} instead of {q:?}")
                        }
                        r => return hard(format!("reading between writes: {r:?}")),
                    }
                }
            }
            if c.shutdown {
                if let Err(e) = s.shutdown().await {
                    return hard(format!("shutdown: {e:?}"));
                }
            }
            Ok(())
        });
        let mut written = false;
        let mut i = 0;
        let mut buf = vec![0u8; 65_536];
        let mut end = false;
        while !written || got.len() < want.len() || (c.shutdown && !end) {
            let n = (c.takes[i % c.takes.len()] as usize).max(want.len() / 3000);
            i += 1;
            let step = async {
                tokio::select! {
                    biased;
                    r = &mut w, if !written => { written = true; r.map(|_| None) }
                    r = peer.read(&mut buf[..n]) => Ok(Some(r)),
                }
            };
            match soon("the other end reads", step).await {
                Ok(r) => match r? {
                    None => {}
                    Some(Ok(0)) => {
                        end = true;
                        break;
                    }
                    Some(Ok(n)) => got.extend_from_slice(&buf[..n]),
                    Some(Err(e)) => return hard(format!("the other end fails: {e}")),
                },
                Err(_) => {
                    return soft(format!("{} of {} written bytes arrive", got.len(), want.len()))
                }
            }
            o.step();
        }
        ensure!(end == c.shutdown, "end of stream: {end}, shutdown: {}", c.shutdown);
        if got != want {
            let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return hard(format!(
                "{} bytes arrive, {} were written; they differ at {at}",
                got.len(),
                want.len()
            ));
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ S03

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Limit {
    init: Option<u32>,
    max: u32,
    /// sizes relative to the maximum
    sizes: Vec<i32>,
    pieces: Vec<u16>,
    cancel: bool,
}

fn limit(_: bool) -> BoxedStrategy<Limit> {
    let max = prop_oneof![3 => 8u32..300, 2 => 300u32..20_000, 1 => Just(131_072u32)];
    let init = prop_oneof![
        2 => Just(None),
        2 => (1u32..64).prop_map(Some),
        1 => (1u32..40_000).prop_map(Some)
    ];
    let size = prop_oneof![
        3 => -3i32..4,
        3 => -100_000i32..0,
        1 => 0i32..200_000,
    ];
    (init, max, vec(size, 1..6), pieces(), any::<bool>())
        .prop_map(|(init, max, sizes, pieces, cancel)| Limit { init, max, sizes, pieces, cancel })
        .boxed()
}

/// A PUBLISH packet of exactly so many bytes
fn of_size(n: usize, i: usize) -> Vec<u8> {
    let mut payload = n.saturating_sub(6);
    loop {
        let b = Pk::Publish(refcodec::Publish {
            dup: false,
            qos: 0,
            retain: false,
            topic: "t".into(),
            id: 0,
            props: vec![],
            payload: gen::fill(payload, i as u64 * 77 + 1),
        })
        .encode();
        if b.len() <= n || payload == 0 {
            return b;
        }
        payload -= (b.len() - n).min(payload);
    }
}

fn s03(c: &Limit, o: &mut Obs) -> Res {
    let max = c.max as usize;
    let packets: Vec<Vec<u8>> = c
        .sizes
        .iter()
        .enumerate()
        .map(|(i, d)| of_size((max as i64 + *d as i64).max(6) as usize, i))
        .collect();
    let too_big = packets.iter().position(|b| b.len() > max);
    let all = packets.concat();
    o.label(if too_big.is_some() { "too large" } else { "within the limit" });
    if packets.iter().any(|b| b.len() == max) {
        o.label("of exactly the limit");
    }
    o.nontrivial();
    let least = (all.len() / 1500) as u16;
    let pieces: Vec<usize> = c.pieces.iter().map(|p| (*p).max(least).max(1) as usize).collect();
    live(async {
        let (a, b) = pair().await?;
        let a = AsyncMqttStream(MqttStream::TcpStream(a));
        let mut s = PacketStream::new(a, c.init.map(|x| x as usize), Some(max));
        ensure!(s.buffer_size() <= max, "initial buffer {} above {max}", s.buffer_size());
        let (mut rx, mut tx) = b.into_split();
        let bytes = all.clone();
        let w = tokio::spawn(async move {
            let (mut at, mut i) = (0, 0);
            while at < bytes.len() {
                let n = pieces[i % pieces.len()].min(bytes.len() - at);
                i += 1;
                if tx.write_all(&bytes[at..at + n]).await.is_err() {
                    break;
                }
                at += n;
                turns(1).await;
            }
            let _ = tx.shutdown().await;
            tx
        });
        let mut i = 0;
        loop {
            let got = if c.cancel {
                let until = std::time::Instant::now() + SOON;
                loop {
                    turns(1).await;
                    let mut f = pin!(s.read());
                    if let Some(r) = poll_once(&mut f).await {
                        break r;
                    }
                    if std::time::Instant::now() > until {
                        return soft("nothing is read");
                    }
                }
            } else {
                soon("read", s.read()).await?
            };
            ensure!(
                s.buffer_size() <= max,
                "the read buffer has {} bytes, the limit is {max}",
                s.buffer_size()
            );
            match got {
                Ok(Some(Packet::Publish(p))) => {
                    ensure!(i < packets.len(), "more packets than were sent");
                    ensure!(
                        Some(i) != too_big,
                        "a packet of {} bytes is read, the limit is {max}",
                        packets[i].len()
                    );
                    let n = p.payload.as_ref().map(|b| b.len()).unwrap_or(0);
                    ensure!(
                        packets[i].ends_with(p.payload.as_deref().unwrap_or_default()),
                        "packet {i} has another payload ({n} bytes)"
                    );
                    i += 1;
                }
                Ok(None) => {
                    ensure!(
                        i == packets.len(),
                        "end after {i} of {} packets of {:?} bytes, limit {max}",
                        packets.len(),
                        packets.iter().map(|b| b.len()).collect::<Vec<_>>()
                    );
                    break;
                }
                Err(Error::ReadBuffer) => {
                    ensure!(
                        Some(i) == too_big,
                        "packet {i} of {} bytes is refused as too large, the limit is {max}",
                        packets.get(i).map(|b| b.len()).unwrap_or(0)
                    );
                    break;
                }
                r => return hard(format!("packet {i}: {r:?}")),
            }
        }
        drop(s);
        let mut x = [0u8; 16];
        let _ = rx.try_read(&mut x);
        let _ = w.await;
        let _ = &mut rx;
        Ok(())
    })
}

pub fn s01p() -> Property {
    Property {
        id: "S01",
        rule: "0 to 6 random packets delivered over TCP or TLS in random pieces from 1 byte up, with initial buffers from 1 byte up, reads abandoned after every piece or left waiting, ended by a close, a close or reset within a packet, or a malformed packet; also bursts of packets up to 64 kB that end at chosen positions of the next packet; non-trivial: distinct case with two or more packets and more bytes than the first piece",
        assumptions: &["pieces arrive as written (TCP_NODELAY on loopback; otherwise larger ones)", "packets after a reset may be lost"],
        subs: vec![
            Prop::net("arrive", 50_000, arrive, s01).boxed(),
            Prop::net("bursts", 15_000, bursts, s01).boxed(),
        ],
    }
}

pub fn s02p() -> Property {
    Property {
        id: "S02",
        rule: "1 to 6 random packets up to 400 kB, some that cannot be encoded, written over TCP or TLS to an end that takes them in random amounts with a normal or minimal send buffer, with packets read in between; non-trivial: distinct case with two or more packets",
        assumptions: &["the bytes of a packet are what the codec's encoder gives (C01 decides those)"],
        subs: vec![Prop::net("depart", 40_000, depart, s02).boxed()],
    }
}

pub fn s03p() -> Property {
    Property {
        id: "S03",
        rule: "1 to 5 packets of sizes at, around, far below and above the maximum buffer size, any initial buffer, pieces from 1 byte up; non-trivial: every distinct case",
        assumptions: &["initial buffers of 0 bytes are not generated"],
        subs: vec![Prop::net("limit", 40_000, limit, s03).boxed()],
    }
}
