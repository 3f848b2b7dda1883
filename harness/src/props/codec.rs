//! C01 - C08: the packet codec
use crate::conv;
use crate::ensure;
use crate::gen;
use crate::hex::short;
use crate::refcodec::{self, *};
use crate::runner::*;
use bytes::{Bytes, BytesMut};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::{select, Index};
use serde::{Deserialize, Serialize};
use vaux_mqtt::codec::{self, CodecSize, Decode, Encode, ErrorKind, Packet, PropertyCodecSize};
use vaux_mqtt::QoSLevel;

fn norm(p: &Pk) -> Pk {
    let mut p = p.clone();
    let unsuback = matches!(p, Pk::UnsubAck { .. });
    for props in p.props_mut() {
        // empty binary properties have no representation other than absence
        props.retain(|(id, v)| match v {
            Val::Bin(b) => !b.is_empty(),
            Val::Str(s) => !(unsuback && *id == 0x1f && s.is_empty()),
            _ => true,
        });
    }
    p.canonical()
}

fn show(p: &Pk) -> String {
    let s = format!("{p:?}");
    if s.len() > 600 {
        format!("{}..", s.chars().take(600).collect::<String>())
    } else {
        s
    }
}

fn ref_exact(b: &[u8]) -> Result<Pk, Fail> {
    match refcodec::decode(b) {
        Ok((p, n)) if n == b.len() => Ok(p),
        Ok((_, n)) => hard(format!("encoding has {} bytes, its packet {n}: {}", b.len(), short(b))),
        Err(e) => hard(format!("encoding is not valid MQTT: {e:?}: {}", short(b))),
    }
}

fn label(p: &Pk, o: &mut Obs) {
    o.label(p.name());
    let mut q = p.clone();
    let n: usize = q.props_mut().iter().map(|p| p.len()).sum();
    if n > 0 {
        o.label("with properties");
    }
}

// ------------------------------------------------------------------ C01

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct One {
    pk: Pk,
    form: u8,
}

fn one(_: bool) -> BoxedStrategy<One> {
    (gen::pk(), 0u8..3).prop_map(|(pk, form)| One { pk, form }).boxed()
}

fn c01_encode(c: &One, o: &mut Obs) -> Res {
    label(&c.pk, o);
    let want = norm(&c.pk);
    let Some(p) = conv::build(&c.pk) else {
        o.label("not expressible by setters");
        return Ok(());
    };
    o.nontrivial();
    let b = match conv::encode(&p) {
        Ok(b) => b,
        Err(e) => return hard(format!("a valid packet does not encode: {e}: {}", show(&c.pk))),
    };
    let got = ref_exact(&b)?;
    ensure!(
        norm(&got) == want,
        "encoded packet reads as {} instead of {}",
        show(&got),
        show(&want)
    );
    // and what was encoded decodes to what was encoded
    match conv::decode(&b) {
        Ok((q, n)) => {
            ensure!(n == b.len(), "decoding consumed {n} of {} bytes", b.len());
            if let Packet::Connect(_) = q {
                // flags and payload are compared through the re-encoding
            } else if !matches!((&p, &q), (Packet::PubAck(_) | Packet::PubRec(_) | Packet::PubRel(_) | Packet::PubComp(_), _)) {
                ensure!(p == q, "decode(encode(p)) = {q:?}, p = {p:?}");
            }
            let b2 = conv::encode(&q).map_err(|e| Fail::Hard(format!("re-encode: {e}")))?;
            ensure!(
                norm(&ref_exact(&b2)?) == want,
                "decode(encode(p)) is another packet: {} from {}",
                short(&b2),
                short(&b)
            );
        }
        Err(e) => return hard(format!("own encoding does not decode: {e}: {}", short(&b))),
    }
    Ok(())
}

fn c01_decode(c: &One, o: &mut Obs) -> Res {
    label(&c.pk, o);
    o.nontrivial();
    let b = c.pk.encode_form(c.form);
    let (p, n) = match conv::decode(&b) {
        Ok(r) => r,
        Err(e) => {
            return hard(format!("valid packet refused: {e}: {} = {}", show(&c.pk), short(&b)))
        }
    };
    ensure!(n == b.len(), "decoding consumed {n} of {} bytes: {}", b.len(), short(&b));
    let want = norm(&c.pk);
    if let Some(q) = conv::build(&c.pk) {
        let same = match (&p, &q, &c.pk) {
            // a reason code of success may be absent or explicit
            (Packet::PubAck(a), Packet::PubAck(_), Pk::Ack { id, reason, .. })
            | (Packet::PubRec(a), Packet::PubRec(_), Pk::Ack { id, reason, .. })
            | (Packet::PubRel(a), Packet::PubRel(_), Pk::Ack { id, reason, .. })
            | (Packet::PubComp(a), Packet::PubComp(_), Pk::Ack { id, reason, .. }) => {
                a.packet_id == *id && a.reason().map(|r| r as u8).unwrap_or(0) == *reason
            }
            _ => p == q,
        };
        ensure!(same, "decoded {p:?}, expected {q:?}, from {}", short(&b));
    } else if let Pk::Ack { kind, id, reason, .. } = &c.pk {
        let (k, a) = match &p {
            Packet::PubAck(a) => (4, a),
            Packet::PubRec(a) => (5, a),
            Packet::PubRel(a) => (6, a),
            Packet::PubComp(a) => (7, a),
            _ => return hard(format!("decoded {p:?} from {}", short(&b))),
        };
        ensure!(
            k == *kind && a.packet_id == *id && a.reason().map(|r| r as u8).unwrap_or(0) == *reason,
            "decoded {p:?} from {}",
            show(&c.pk)
        );
    }
    if let (Packet::Connect(got), Pk::Connect(c)) = (&p, &c.pk) {
        // the accessors of what has no public field
        ensure!(got.clean_start() == c.clean, "clean start {}", got.clean_start());
        ensure!(got.will() == c.will.is_some(), "will flag");
        ensure!(got.username() == c.username.is_some(), "user name flag");
        ensure!(got.password() == c.password.is_some(), "password flag");
        let w = got.will_message();
        ensure!(
            w == c.will.as_ref().map(conv::will_message),
            "will message {w:?} instead of {:?}",
            c.will
        );
    }
    let b2 = conv::encode(&p).map_err(|e| Fail::Hard(format!("re-encode: {e}")))?;
    let got = ref_exact(&b2)?;
    ensure!(
        norm(&got) == want,
        "decoded and encoded again: {} instead of {}",
        show(&got),
        show(&want)
    );
    Ok(())
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "random packets of all 14 supported types with any subset of their properties in any order, strings and binary data of edge lengths, payloads up to 2 MiB; non-trivial: distinct packet that was encoded or decoded and compared with an independent codec",
        assumptions: &["the reference codec (harness/src/refcodec.rs), written from the standard", "AUTH packets, which the crate does not implement, are not generated", "empty binary properties are taken as absent"],
        subs: vec![
            Prop::pure("encode", 60_000, one, c01_encode).boxed(),
            Prop::pure("decode", 60_000, one, c01_decode).boxed(),
        ],
    }
}

// ------------------------------------------------------------------ C02

fn codec_size(p: &Packet) -> u32 {
    match p {
        Packet::PingRequest(x) => x.codec_size(),
        Packet::PingResponse(x) => x.codec_size(),
        Packet::Connect(x) => x.codec_size(),
        Packet::ConnAck(x) => x.codec_size(),
        Packet::Publish(x) => x.codec_size(),
        Packet::PubAck(x) | Packet::PubComp(x) | Packet::PubRec(x) | Packet::PubRel(x) => {
            x.codec_size()
        }
        Packet::Disconnect(x) => x.codec_size(),
        Packet::Subscribe(x) => x.codec_size(),
        Packet::SubAck(x) => x.codec_size(),
        Packet::Unsubscribe(x) => x.codec_size(),
        Packet::UnsubAck(x) => x.codec_size(),
    }
}

fn property_size(p: &Packet) -> Option<u32> {
    Some(match p {
        Packet::PingRequest(_) | Packet::PingResponse(_) => return None,
        Packet::Connect(x) => x.property_size(),
        Packet::ConnAck(x) => x.property_size(),
        Packet::Publish(x) => x.property_size(),
        Packet::PubAck(x) | Packet::PubComp(x) | Packet::PubRec(x) | Packet::PubRel(x) => {
            x.property_size()
        }
        Packet::Disconnect(x) => x.property_size(),
        Packet::Subscribe(x) => x.property_size(),
        Packet::SubAck(x) => x.property_size(),
        Packet::Unsubscribe(x) => x.property_size(),
        Packet::UnsubAck(x) => x.property_size(),
    })
}

fn c02_size(c: &One, o: &mut Obs) -> Res {
    label(&c.pk, o);
    // through decoding, so that every packet can be looked at
    let src = c.pk.encode_form(c.form);
    let p = match conv::build(&c.pk) {
        Some(p) => p,
        None => match conv::decode(&src) {
            Ok((p, _)) => p,
            Err(e) => return hard(format!("valid packet refused: {e}: {}", short(&src))),
        },
    };
    o.nontrivial();
    let b = conv::encode(&p).map_err(Fail::Hard)?;
    let (_, hl, rl) = refcodec::header(&b)
        .map_err(|e| Fail::Hard(format!("header {e:?} of {}", short(&b))))?;
    ensure!(
        b.len() == hl + rl,
        "remaining length {rl} but {} bytes follow: {}",
        b.len() - hl,
        short(&b)
    );
    let mut min = vec![];
    put_var(&mut min, rl as u32);
    ensure!(hl == 1 + min.len(), "remaining length {rl} takes {} bytes", hl - 1);
    o.label(format!("length field {}", hl - 1));
    let size = codec_size(&p);
    ensure!(size as usize == rl, "announced size {size}, encoded {rl}: {}", show(&c.pk));
    let mut want = 0;
    for (id, v) in c.pk.clone().props_mut().first().map(|p| (**p).clone()).unwrap_or_default() {
        let mut x = vec![];
        put_prop(&mut x, id, &v);
        want += x.len();
    }
    if matches!(&c.pk, Pk::UnsubAck { props, .. } if prop(props, 0x1f).is_none()) {
        // the absent reason string is written as an empty one
        want += 3;
    }
    if let Some(ps) = property_size(&p) {
        ensure!(ps as usize == want, "announced property size {ps}, is {want}: {}", show(&c.pk));
    }
    if let Pk::Connect(Connect { will: Some(w), .. }) = &c.pk {
        let m = conv::will_message(w);
        let mut want = 0;
        for (id, v) in &w.props {
            let mut x = vec![];
            put_prop(&mut x, *id, v);
            want += x.len();
        }
        ensure!(m.header.property_size() as usize == want, "will property size");
        let mut e = BytesMut::new();
        m.header.encode(&mut e).map_err(|e| Fail::Hard(e.to_string()))?;
        ensure!(m.header.codec_size() as usize == e.len(), "will header size");
    }
    Ok(())
}

/// A valid packet with one string or binary field made too long
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Over {
    pk: Pk,
    which: Index16,
    extra: u32,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Index16(u16);

fn over(_: bool) -> BoxedStrategy<Over> {
    (gen::small_pk(), any::<u16>(), prop_oneof![Just(0u32), 0u32..200, 65_400u32..66_000])
        .prop_map(|(pk, w, extra)| Over { pk, which: Index16(w), extra })
        .boxed()
}

fn c02_oversize(c: &Over, o: &mut Obs) -> Res {
    let mut pk = c.pk.clone();
    let len = 65_536 + c.extra as usize;
    let mut n = 0usize;
    // counts the length prefixed fields, lengthens the chosen one
    fn visit(pk: &mut Pk, f: &mut dyn FnMut(&mut Vec<u8>, bool)) {
        fn st(s: &mut String, f: &mut dyn FnMut(&mut Vec<u8>, bool)) {
            let mut b = std::mem::take(s).into_bytes();
            f(&mut b, true);
            *s = String::from_utf8(b).unwrap_or_default();
        }
        for props in pk.props_mut() {
            for (_, v) in props.iter_mut() {
                match v {
                    Val::Str(s) => st(s, f),
                    Val::Bin(b) => f(b, false),
                    Val::Pair(a, b) => {
                        st(a, f);
                        st(b, f);
                    }
                    _ => {}
                }
            }
        }
        match pk {
            Pk::Connect(c) => {
                st(&mut c.client_id, f);
                if let Some(w) = &mut c.will {
                    st(&mut w.topic, f);
                    f(&mut w.payload, false);
                }
                if let Some(u) = &mut c.username {
                    st(u, f);
                }
                if let Some(p) = &mut c.password {
                    f(p, false);
                }
            }
            Pk::Publish(p) => st(&mut p.topic, f),
            Pk::Subscribe { filters, .. } => filters.iter_mut().for_each(|x| st(&mut x.filter, f)),
            Pk::Unsubscribe { filters, .. } => filters.iter_mut().for_each(|x| st(x, f)),
            _ => {}
        }
    }
    visit(&mut pk, &mut |_, _| n += 1);
    if n == 0 {
        o.label("no such field");
        return Ok(());
    }
    let chosen = c.which.0 as usize % n;
    let mut i = 0;
    visit(&mut pk, &mut |b, text| {
        if i == chosen {
            b.resize(len, if text { b'x' } else { 0xfe });
        }
        i += 1;
    });
    let Some(p) = conv::build(&pk) else { return Ok(()) };
    o.nontrivial();
    label(&c.pk, o);
    match conv::encode(&p) {
        Err(_) => Ok(()),
        Ok(b) => hard(format!(
            "a field of {len} bytes is encoded without error, {} bytes, {}",
            b.len(),
            short(&b)
        )),
    }
}

fn c02_huge(c: &u32, o: &mut Obs) -> Res {
    // the remaining length of PUBLISH with a 1 byte topic and no properties is payload + 4
    let max = 268_435_455i64;
    let payload = (max - 4 + *c as i64 - 2) as usize;
    let mut p = vaux_mqtt::Publish::default();
    p.topic_name = "t".into();
    p.payload = Some(Bytes::from(vec![0u8; payload]));
    let rl = payload as i64 + 4;
    o.nontrivial();
    o.label(if rl > max { "above the maximum" } else { "within the maximum" });
    let mut b = BytesMut::new();
    let r = Packet::Publish(p).encode(&mut b);
    if rl > max {
        ensure!(r.is_err(), "packet of remaining length {rl} is encoded without error");
    } else {
        ensure!(r.is_ok(), "packet of remaining length {rl} is not encoded: {r:?}");
        ensure!(b.len() as i64 == rl + 5, "encoded {} bytes", b.len());
        ensure!(b[..5] == [0x30, (rl & 0x7f) as u8 | 0x80, 0xff, 0xff, 0x7f], "{:?}", &b[..5]);
    }
    Ok(())
}

pub fn c02() -> Property {
    let mut huge = Prop::pure("huge", 6, |_| (0u32..5).boxed(), c02_huge).thorough(30);
    huge.serial = true;
    huge.quick = 6;
    Property {
        id: "C02",
        rule: "random packets as for C01, packets with one length prefixed field above 65535 bytes, PUBLISH packets around the maximum remaining length; non-trivial: distinct packet whose encoding was measured, or refused as too long",
        assumptions: &["the reference codec computes the true sizes"],
        subs: vec![
            Prop::pure("size", 60_000, one, c02_size).boxed(),
            Prop::pure("oversize", 20_000, over, c02_oversize).boxed(),
            huge.boxed(),
        ],
    }
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Edit {
    Set(u16, u8),
    Flip(u16, u8),
    Insert(u16, u8),
    Remove(u16),
    Truncate(u16),
    Dup(u16, u8),
}

fn edit() -> BoxedStrategy<Edit> {
    let byte = prop_oneof![
        3 => any::<u8>(),
        2 => select(&[0u8, 1, 2, 0x7f, 0x80, 0xff, 0xfe, 0x26, 0x0b, 0x11, 0x1f][..])
    ];
    prop_oneof![
        4 => (any::<u16>(), byte.clone()).prop_map(|(i, b)| Edit::Set(i, b)),
        3 => (any::<u16>(), 0u8..8).prop_map(|(i, b)| Edit::Flip(i, b)),
        1 => (any::<u16>(), byte).prop_map(|(i, b)| Edit::Insert(i, b)),
        1 => any::<u16>().prop_map(Edit::Remove),
        1 => any::<u16>().prop_map(Edit::Truncate),
        1 => (any::<u16>(), 1u8..9).prop_map(|(i, n)| Edit::Dup(i, n)),
    ]
    .boxed()
}

/// positions are spread over the first bytes, where the structure is
fn apply(b: &mut Vec<u8>, e: &Edit) {
    let at = |i: u16, n: usize| {
        if n == 0 {
            0
        } else if i % 3 == 0 {
            (i / 3) as usize % n
        } else {
            (i / 3) as usize % n.min(40)
        }
    };
    let n = b.len();
    match e {
        Edit::Insert(i, v) => b.insert(at(*i, n + 1), *v),
        _ if n == 0 => {}
        Edit::Set(i, v) => b[at(*i, n)] = *v,
        Edit::Flip(i, k) => b[at(*i, n)] ^= 1 << k,
        Edit::Remove(i) => {
            b.remove(at(*i, n));
        }
        Edit::Truncate(i) => b.truncate(at(*i, n)),
        Edit::Dup(i, k) => {
            let a = at(*i, n);
            let part: Vec<u8> = b[a..(a + *k as usize).min(n)].to_vec();
            for (j, v) in part.into_iter().enumerate() {
                b.insert(a + j, v);
            }
        }
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Mutant {
    pk: Pk,
    form: u8,
    edits: Vec<Edit>,
    /// make the remaining length fit again
    fix_length: bool,
}

pub fn mutant(_: bool) -> BoxedStrategy<Mutant> {
    (gen::small_pk(), 0u8..3, vec(edit(), 1..5), prop::bool::weighted(0.7))
        .prop_map(|(pk, form, edits, fix_length)| Mutant { pk, form, edits, fix_length })
        .boxed()
}

pub fn mutate(m: &Mutant) -> Vec<u8> {
    let src = m.pk.encode_form(m.form);
    if m.fix_length {
        let (first, hl, _) = refcodec::header(&src).expect("own header");
        let mut body = src[hl..].to_vec();
        // the first byte takes part
        body.insert(0, first);
        for e in &m.edits {
            apply(&mut body, e);
        }
        if body.is_empty() {
            return vec![];
        }
        let f = body.remove(0);
        frame(f, &body)
    } else {
        let mut b = src;
        for e in &m.edits {
            apply(&mut b, e);
        }
        b
    }
}

fn total(b: &[u8], o: &mut Obs) -> Res {
    match conv::decode(b) {
        Ok((p, n)) => {
            ensure!(n <= b.len() && n >= 2, "decoder reports {n} of {} bytes: {}", b.len(), short(b));
            o.label("accepted");
            // reading what was decoded must not fail either
            let _ = format!("{p:?}");
            let _ = codec_size(&p);
            let _ = property_size(&p);
            if let Packet::Connect(c) = &p {
                let _ = c.will_message();
            }
            if let Packet::Subscribe(s) = &p {
                for f in &s.filter {
                    let _ = (f.qos(), f.no_local(), f.retain_as_published(), f.retain_handling());
                }
            }
            if let Err(e) = conv::encode(&p) {
                return hard(format!("a decoded packet does not encode: {e}: {}", short(b)));
            }
        }
        Err(e) => o.label(match e.kind {
            ErrorKind::InsufficientData(..) => "incomplete",
            _ => "refused",
        }),
    }
    Ok(())
}

fn c03_mutant(m: &Mutant, o: &mut Obs) -> Res {
    o.nontrivial();
    total(&mutate(m), o)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Raw(#[serde(with = "crate::hex")] Vec<u8>);

fn raw(_: bool) -> BoxedStrategy<Raw> {
    // half of them start like a packet of matching length
    let framed = (any::<u8>(), vec(any::<u8>(), 0..60)).prop_map(|(f, b)| frame(f, &b));
    let biased = (
        select(&[0x10u8, 0x20, 0x30, 0x32, 0x3d, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xa2, 0xb0, 0xc0, 0xd0, 0xe0, 0xf0][..]),
        vec(prop_oneof![2 => 0u8..8, 2 => select(&[0x26u8,0x1f,0x11,0x0b,0x09,0x21,0xff,0x80][..]), 1 => any::<u8>()], 0..40),
    )
        .prop_map(|(f, b)| frame(f, &b));
    prop_oneof![
        2 => vec(any::<u8>(), 0..40),
        2 => framed,
        3 => biased,
    ]
    .prop_map(Raw)
    .boxed()
}

fn c03_raw(c: &Raw, o: &mut Obs) -> Res {
    if !c.0.is_empty() {
        o.nontrivial();
    }
    total(&c.0, o)
}

/// The decoders of parts of packets, which are public too
fn c03_parts(c: &Raw, o: &mut Obs) -> Res {
    o.nontrivial();
    macro_rules! part {
        ($($n:literal : $e:expr),* $(,)?) => {
            $( {
                let mut src = BytesMut::from(&c.0[..]);
                let r: Result<usize, vaux_mqtt::MqttCodecError> = $e(&mut src);
                if let Ok(n) = r {
                    o.label($n);
                    ensure!(n == c.0.len() - src.len(), "{} reports {n} bytes, took {}: {}", $n, c.0.len() - src.len(), short(&c.0));
                }
            } )*
        };
    }
    part! {
        "fixed header": |s: &mut BytesMut| vaux_mqtt::FixedHeader::default().decode(s),
        "string": |s: &mut BytesMut| codec::decode_string(s).map(|x| x.1),
        "binary": |s: &mut BytesMut| codec::decode_array_field(s).map(|x| x.1),
        "varint": |s: &mut BytesMut| codec::decode_variable_byte_int(s).map(|x| x.1),
        "optional varint": |s: &mut BytesMut| codec::decode_opt_variable_byte_int(s).map(|x| x.1),
        "raw": |s: &mut BytesMut| codec::decode_vec_u8_raw(s).map(|x| x.1),
        "reason": |s: &mut BytesMut| vaux_mqtt::Reason::default().decode(s),
        "reasons": |s: &mut BytesMut| Vec::<vaux_mqtt::Reason>::new().decode(s),
        "strings": |s: &mut BytesMut| Vec::<String>::new().decode(s),
        "bytes": |s: &mut BytesMut| Vec::<u8>::new().decode(s),
        "QoS": |s: &mut BytesMut| QoSLevel::default().decode(s),
        "bool": |s: &mut BytesMut| false.decode(s),
        "u8": |s: &mut BytesMut| 0u8.decode(s),
        "u16": |s: &mut BytesMut| 0u16.decode(s),
        "u32": |s: &mut BytesMut| 0u32.decode(s),
        "payload format": |s: &mut BytesMut| vaux_mqtt::PayloadFormat::default().decode(s),
        "user property": |s: &mut BytesMut| vaux_mqtt::property::UserProperty::new().decode(s),
        "filter": |s: &mut BytesMut| vaux_mqtt::SubscriptionFilter::default().decode(s),
        "will header": |s: &mut BytesMut| vaux_mqtt::WillHeader::default().decode(s),
        "connect": |s: &mut BytesMut| vaux_mqtt::Connect::default().decode(s),
        "connack": |s: &mut BytesMut| vaux_mqtt::ConnAck::default().decode(s),
        "publish": |s: &mut BytesMut| vaux_mqtt::Publish::default().decode(s),
        "publish qos 1": |s: &mut BytesMut| vaux_mqtt::Publish::default().with_qos(QoSLevel::AtLeastOnce).decode(s),
        "puback": |s: &mut BytesMut| vaux_mqtt::PubAck::new_puback_with_packet_id(1).decode(s),
        "subscribe": |s: &mut BytesMut| vaux_mqtt::Subscribe::default().decode(s),
        "suback": |s: &mut BytesMut| vaux_mqtt::subscribe::SubAck::default().decode(s),
        "unsubscribe": |s: &mut BytesMut| vaux_mqtt::unsubscribe::Unsubscribe::default().decode(s),
        "unsuback": |s: &mut BytesMut| vaux_mqtt::unsubscribe::UnsubAck::default().decode(s),
        "disconnect": |s: &mut BytesMut| vaux_mqtt::Disconnect::default().decode(s),
    }
    Ok(())
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "arbitrary bytes, bytes framed as a packet, and valid packets with 1 to 4 byte edits, given to the packet decoder and to every public decoder of a part; non-trivial: distinct non-empty input",
        assumptions: &["inputs up to about 5 kB (the length fields are arbitrary)", "overflow checks are on, as in a debug build"],
        subs: vec![
            Prop::pure("mutants", 250_000, mutant, c03_mutant).boxed(),
            Prop::pure("raw", 400_000, raw, c03_raw).boxed(),
            Prop::pure("parts", 60_000, raw, c03_parts).boxed(),
        ],
    }
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Many {
    pks: Vec<Pk>,
    form: u8,
    cuts: Vec<u16>,
}

fn many(_: bool) -> BoxedStrategy<Many> {
    (vec(gen::small_pk(), 1..6), 0u8..3, vec(any::<u16>(), 8))
        .prop_map(|(pks, form, cuts)| Many { pks, form, cuts })
        .boxed()
}

fn c04(c: &Many, o: &mut Obs) -> Res {
    let parts: Vec<Vec<u8>> = c.pks.iter().map(|p| p.encode_form(c.form)).collect();
    let all: Vec<u8> = parts.concat();
    if parts.len() > 1 {
        o.nontrivial();
    }
    let mut at = 0;
    for (i, part) in parts.iter().enumerate() {
        o.step();
        let alone = conv::decode(part)
            .map_err(|e| Fail::Hard(format!("valid packet refused: {e}: {}", short(part))))?;
        ensure!(alone.1 == part.len(), "packet length {} reported as {}", part.len(), alone.1);
        let (p, n) = conv::decode(&all[at..]).map_err(|e| {
            Fail::Hard(format!("packet {i} with data after it refused: {e}: {}", short(part)))
        })?;
        ensure!(n == part.len(), "packet length {} reported as {n} with data after it", part.len());
        ensure!(p == alone.0, "data after a packet changes it: {p:?} / {:?}", alone.0);
        at += n;
        // an incomplete packet is reported as such
        let mut cuts: Vec<usize> = c.cuts.iter().map(|x| *x as usize % part.len()).collect();
        if part.len() <= 40 {
            cuts = (0..part.len()).collect();
        } else {
            cuts.extend([1, 2, part.len() - 1]);
        }
        for cut in cuts {
            if cut == 0 {
                continue;
            }
            match conv::decode(&part[..cut]) {
                Err(e) if matches!(e.kind, ErrorKind::InsufficientData(..)) => {}
                r => {
                    return hard(format!(
                        "{cut} of {} bytes of a packet: {r:?} instead of incomplete: {}",
                        part.len(),
                        short(part)
                    ))
                }
            }
        }
    }
    Ok(())
}

/// whatever is complete by its length field is never reported as incomplete
fn c04_complete(m: &Mutant, o: &mut Obs) -> Res {
    let b = mutate(m);
    let complete = match refcodec::header(&b) {
        Ok((_, hl, rl)) => b.len() >= hl + rl,
        Err(DecErr::Short) => false,
        Err(_) => true,
    };
    if !complete {
        o.label("incomplete");
        return Ok(());
    }
    o.nontrivial();
    if let Err(e) = conv::decode(&b) {
        ensure!(
            !matches!(e.kind, ErrorKind::InsufficientData(..)),
            "more data is asked for although the packet is complete: {e}: {}",
            short(&b)
        );
    }
    Ok(())
}

/// the start of a packet of any length is incomplete, at every position within its header
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Start {
    qos: u8,
    remaining: u32,
    have: u8,
}

fn c04_start(c: &Start, o: &mut Obs) -> Res {
    // PUBLISH to "t" with identifier 1 if one is needed, payload of zeros
    let mut b = vec![0x30 | c.qos << 1];
    put_var(&mut b, c.remaining);
    b.extend_from_slice(&[0, 1, b't']);
    if c.qos > 0 {
        b.extend_from_slice(&[0, 1]);
    }
    b.resize(80, 0);
    let total = 1 + codec::variable_byte_int_size(c.remaining) as usize + c.remaining as usize;
    b.truncate((c.have as usize).min(total - 1));
    o.label(format!("{} bytes of a packet of {} bytes of length", b.len().min(6), codec::variable_byte_int_size(c.remaining)));
    o.nontrivial();
    match conv::decode(&b) {
        Err(e) if matches!(e.kind, ErrorKind::InsufficientData(..)) => Ok(()),
        r => hard(format!("{} of {total} bytes of a packet: {r:?} instead of incomplete: {}", b.len(), short(&b))),
    }
}

pub fn c04p() -> Property {
    let start = |_| {
        let remaining = prop_oneof![
            6u32..128, 128u32..16_384, 16_384u32..2_097_152, 2_097_152u32..=268_435_455,
            select(&[127u32, 128, 16_383, 16_384, 2_097_151, 2_097_152, 268_435_455][..]),
        ];
        (0u8..3, remaining, prop_oneof![3 => 1u8..6, 1 => 1u8..70])
            .prop_map(|(qos, remaining, have)| Start { qos, remaining, have })
            .boxed()
    };
    Property {
        id: "C04",
        rule: "1 to 5 random packets one after the other, each also cut off at every position (at most 11 for packets above 40 bytes), edited packets that are complete by their length field, and the first bytes of packets of every length up to the maximum; non-trivial: distinct sequence of two or more packets, complete edited packet, or start of a packet",
        assumptions: &["packets below 5 kB, except for the starts of packets"],
        subs: vec![
            Prop::pure("sequence", 30_000, many, c04).boxed(),
            Prop::pure("complete", 150_000, mutant, c04_complete).boxed(),
            Prop::pure("start", 60_000, start, c04_start).boxed(),
        ],
    }
}

// ------------------------------------------------------------------ C05

/// what must be refused, made from a valid packet
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Break {
    /// other flag bits in the first byte
    Flags(u8),
    Qos3,
    /// the body cut off, with a matching length field
    CutBody(u16),
    /// bytes after the last field (of packets whose end is not open)
    Trailing(#[serde(with = "crate::hex")] Vec<u8>),
    /// another property length
    PropLen(i8),
    /// a property the standard does not define
    UnknownProp(u8),
    /// a property of other packets
    ForeignProp(u8, u8),
    /// invalid UTF-8 in a string
    Utf8(u16, u8),
    /// a reason code the standard does not define
    Reason(u8),
    /// a length field of more than four bytes
    LongLength,
    ConnectFlags(u8),
    Protocol(u8),
    /// types 0 and 15 with the flags given
    Type(bool, u8),
    /// a property boolean above 1 in CONNACK
    Bool(u8),
    /// a property value cut off by its property length
    PayloadFormat(u8),
    /// a property (its own, or another of the packet) twice
    Twice(u8, u8),
    /// 0 where it is not a value: packet identifier and some properties
    Zero(u8),
    /// reserved subscription options, reserved CONNACK flags
    Reserved(u8),
    /// no topic filter
    NoFilter,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Broken {
    pk: Pk,
    how: Break,
}

fn broken(_: bool) -> BoxedStrategy<Broken> {
    let how = prop_oneof![
        2 => (0u8..16).prop_map(Break::Flags),
        1 => Just(Break::Qos3),
        3 => any::<u16>().prop_map(Break::CutBody),
        2 => vec(any::<u8>(), 1..5).prop_map(Break::Trailing),
        4 => any::<i8>().prop_map(Break::PropLen),
        2 => any::<u8>().prop_map(Break::UnknownProp),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Break::ForeignProp(a, b)),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Break::Utf8(a, b)),
        2 => any::<u8>().prop_map(Break::Reason),
        1 => Just(Break::LongLength),
        1 => any::<u8>().prop_map(Break::ConnectFlags),
        1 => any::<u8>().prop_map(Break::Protocol),
        1 => (any::<bool>(), 0u8..16).prop_map(|(a, b)| Break::Type(a, b)),
        1 => (2u8..).prop_map(Break::Bool),
        1 => (2u8..).prop_map(Break::PayloadFormat),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Break::Twice(a, b)),
        2 => any::<u8>().prop_map(Break::Zero),
        2 => any::<u8>().prop_map(Break::Reserved),
        1 => Just(Break::NoFilter),
    ];
    (gen::small_pk(), how).prop_map(|(pk, how)| Broken { pk, how }).boxed()
}

fn at_of(pk: &Pk) -> Option<At> {
    Some(match pk {
        Pk::Connect(_) => At::Connect,
        Pk::ConnAck { .. } => At::ConnAck,
        Pk::Publish(_) => At::Publish,
        Pk::Ack { .. } => At::Ack,
        Pk::Subscribe { .. } => At::Subscribe,
        Pk::SubAck { .. } => At::SubAck,
        Pk::Unsubscribe { .. } => At::Unsubscribe,
        Pk::UnsubAck { .. } => At::UnsubAck,
        Pk::Disconnect { .. } => At::Disconnect,
        _ => return None,
    })
}

/// where the property length is, for the packet encoded in form 2
fn prop_at(pk: &Pk) -> Option<usize> {
    let b = pk.encode_form(2);
    let (_, hl, _) = refcodec::header(&b).ok()?;
    Some(
        hl + match pk {
            Pk::Connect(_) => 10,
            Pk::ConnAck { .. } => 2,
            Pk::Publish(p) => 2 + p.topic.len() + if p.qos > 0 { 2 } else { 0 },
            Pk::Ack { .. } => 3,
            Pk::Disconnect { .. } => 1,
            Pk::Subscribe { .. }
            | Pk::SubAck { .. }
            | Pk::Unsubscribe { .. }
            | Pk::UnsubAck { .. } => 2,
            _ => return None,
        },
    )
}

/// replaces the bytes of the properties; None if there are none
fn with_prop_bytes(pk: &Pk, f: impl FnOnce(u32, Vec<u8>) -> (u32, Vec<u8>)) -> Option<Vec<u8>> {
    let at = prop_at(pk)?;
    let b = pk.encode_form(2);
    let (first, hl, _) = refcodec::header(&b).ok()?;
    let mut len = 0u32;
    let mut n = 0;
    loop {
        let v = b[at + n];
        len |= ((v & 0x7f) as u32) << (7 * n);
        n += 1;
        if v & 0x80 == 0 {
            break;
        }
    }
    let start = at + n;
    let props = b[start..start + len as usize].to_vec();
    let (nl, np) = f(len, props);
    let mut body = b[hl..at].to_vec();
    put_var(&mut body, nl);
    body.extend(np);
    body.extend(&b[start + len as usize..]);
    Some(frame(first, &body))
}

fn break_it(c: &Broken) -> Option<Vec<u8>> {
    let src = c.pk.encode_form(2);
    let (first, hl, rl) = refcodec::header(&src).ok()?;
    let body = &src[hl..];
    let kind = c.pk.kind();
    Some(match &c.how {
        Break::Flags(f) => {
            if kind == 3 || *f == first & 15 {
                return None;
            }
            frame(first & 0xf0 | f, body)
        }
        Break::Qos3 => {
            if kind != 3 {
                return None;
            }
            frame(first | 6, body)
        }
        Break::CutBody(n) => {
            let cut = *n as usize % rl.max(1);
            let short = &body[..cut.min(rl)];
            let fixed = match &c.pk {
                // shorter forms that are valid, and lists that may end early
                Pk::Publish(p) => rl - p.payload.len(),
                Pk::Ack { .. } => 2,
                Pk::ConnAck { .. } | Pk::Connect(_) => rl,
                Pk::Disconnect { .. } | Pk::PingReq | Pk::PingResp => return None,
                Pk::SubAck { reasons, .. } | Pk::UnsubAck { reasons, .. } => rl - reasons.len(),
                Pk::Subscribe { filters, .. } => {
                    rl - filters.iter().map(|f| f.filter.len() + 3).sum::<usize>()
                }
                Pk::Unsubscribe { filters, .. } => {
                    rl - filters.iter().map(|f| f.len() + 2).sum::<usize>()
                }
            };
            if cut >= fixed {
                // inside the list: refused unless the cut is between entries
                match refcodec::decode(&frame(first, short)) {
                    Ok(_) => return None,
                    Err(_) => frame(first, short),
                }
            } else {
                frame(first, short)
            }
        }
        Break::Trailing(t) => {
            if matches!(
                c.pk,
                Pk::Publish(_)
                    | Pk::SubAck { .. }
                    | Pk::UnsubAck { .. }
                    | Pk::Subscribe { .. }
                    | Pk::Unsubscribe { .. }
            ) {
                return None;
            }
            let mut b = body.to_vec();
            b.extend(t);
            frame(first, &b)
        }
        Break::PropLen(d) => {
            let d = if *d == 0 { 1 } else { *d };
            let b = with_prop_bytes(&c.pk, |n, p| {
                ((n as i64 + d as i64).clamp(0, 268_435_455) as u32, p)
            })?;
            // moving the end of the properties may give another valid packet
            match refcodec::decode(&b) {
                Ok(_) => return None,
                Err(_) => b,
            }
        }
        Break::UnknownProp(id) => {
            if TABLE.iter().any(|(i, _, _)| i == id) {
                return None;
            }
            with_prop_bytes(&c.pk, |n, mut p| {
                p.extend([*id, 0]);
                (n + 2, p)
            })?
        }
        Break::ForeignProp(i, v) => {
            let at = at_of(&c.pk)?;
            let foreign: Vec<_> = TABLE.iter().filter(|(_, _, a)| !a.contains(&at)).collect();
            let (id, ty, _) = foreign[*i as usize % foreign.len()];
            let mut x = vec![];
            let val = match ty {
                Ty::Byte | Ty::Bool => Val::Byte(v & 1),
                Ty::U16 => Val::U16(*v as u16 + 1),
                Ty::U32 => Val::U32(*v as u32 + 1),
                Ty::Var => Val::Var(*v as u32 + 1),
                Ty::Str => Val::Str("x".into()),
                Ty::Bin => Val::Bin(vec![*v]),
                Ty::Pair => return None,
            };
            put_prop(&mut x, *id, &val);
            let l = x.len() as u32;
            with_prop_bytes(&c.pk, |n, mut p| {
                // before or after the others
                if v & 1 == 0 {
                    x.extend(&p);
                    (n + l, x)
                } else {
                    p.extend(&x);
                    (n + l, p)
                }
            })?
        }
        Break::Utf8(i, bad) => {
            // a marker string is put into one string field and then made invalid
            let mut pk = c.pk.clone();
            let marker = "\u{2}\u{3}MARK\u{3}\u{2}";
            let mut slots: Vec<&mut String> = vec![];
            let mut props_v: Vec<&mut Props> = vec![];
            match &mut pk {
                Pk::Connect(c) => {
                    props_v.push(&mut c.props);
                    slots.push(&mut c.client_id);
                    if let Some(w) = &mut c.will {
                        props_v.push(&mut w.props);
                        slots.push(&mut w.topic);
                    }
                    if let Some(u) = &mut c.username {
                        slots.push(u);
                    }
                }
                Pk::Publish(p) => {
                    props_v.push(&mut p.props);
                    slots.push(&mut p.topic);
                }
                Pk::Subscribe { props, filters, .. } => {
                    props_v.push(props);
                    slots.extend(filters.iter_mut().map(|f| &mut f.filter));
                }
                Pk::Unsubscribe { props, filters, .. } => {
                    props_v.push(props);
                    slots.extend(filters.iter_mut());
                }
                Pk::ConnAck { props, .. }
                | Pk::Ack { props, .. }
                | Pk::SubAck { props, .. }
                | Pk::UnsubAck { props, .. }
                | Pk::Disconnect { props, .. } => props_v.push(props),
                Pk::PingReq | Pk::PingResp => {}
            }
            for p in props_v {
                for (_, v) in p.iter_mut() {
                    match v {
                        Val::Str(s) => slots.push(s),
                        Val::Pair(a, b) => {
                            slots.push(a);
                            slots.push(b);
                        }
                        _ => {}
                    }
                }
            }
            if slots.is_empty() {
                return None;
            }
            let k = *i as usize % slots.len();
            *slots[k] = marker.to_string();
            let mut b = pk.encode_form(2);
            let pos = b.windows(marker.len()).position(|w| w == marker.as_bytes())?;
            let bads: &[[u8; 2]] = &[
                [0xff, b'A'],
                [0xc0, 0x80],
                [0x80, b'A'],
                [0xed, 0xa0],
                [0xe2, 0x28],
                [0xf8, 0x88],
            ];
            b[pos + 2..pos + 4].copy_from_slice(&bads[*bad as usize % bads.len()]);
            b
        }
        Break::Reason(r) => {
            let defined = vaux_reasons().contains(r);
            if defined {
                return None;
            }
            let mut pk = c.pk.clone();
            match &mut pk {
                Pk::ConnAck { reason, .. }
                | Pk::Ack { reason, .. }
                | Pk::Disconnect { reason, .. } => *reason = *r,
                Pk::SubAck { reasons, .. } | Pk::UnsubAck { reasons, .. } => {
                    let k = *r as usize % reasons.len();
                    reasons[k] = *r
                }
                _ => return None,
            }
            pk.encode_form(2)
        }
        Break::LongLength => {
            let mut b = vec![first, 0xff, 0xff, 0xff, 0xff, 0x01];
            b.extend(body);
            b
        }
        Break::ConnectFlags(f) => {
            let Pk::Connect(_) = &c.pk else { return None };
            let mut b = src.clone();
            let at = hl + 7;
            b[at] = *f;
            let will = f & 4 != 0;
            if f & 1 == 0 && f >> 3 & 3 != 3 && (will || f & 0x38 == 0) {
                return None;
            }
            b
        }
        Break::Protocol(x) => {
            let Pk::Connect(_) = &c.pk else { return None };
            let mut b = src.clone();
            match x % 3 {
                0 => {
                    if *x == 5 {
                        return None;
                    }
                    let v = x / 3;
                    b[hl + 6] = if v == 5 { 4 } else { v };
                }
                1 => b[hl + 2 + (*x as usize / 3) % 4] ^= 0x20,
                _ => {
                    // another name of another length
                    let mut nb = body.to_vec();
                    nb.splice(0..6, [&[0u8, 6][..], b"MQIsdp"].concat());
                    b = frame(first, &nb);
                }
            }
            b
        }
        Break::Type(auth, f) => {
            // AUTH with reserved flags is malformed whether or not AUTH is supported
            if *auth && *f == 0 {
                return None;
            }
            frame(if *auth { 0xf0 | f } else { *f }, body)
        }
        Break::Bool(v) => {
            let Pk::ConnAck { props, .. } = &c.pk else { return None };
            let ids = [0x25u8, 0x28, 0x29, 0x2a, 0x24];
            let id = ids[*v as usize % 5];
            if prop(props, id).is_some() || (id == 0x24 && *v == 2) {
                return None;
            }
            with_prop_bytes(&c.pk, |n, mut p| {
                p.extend([id, *v]);
                (n + 2, p)
            })?
        }
        Break::PayloadFormat(v) => {
            let Pk::Publish(p) = &c.pk else { return None };
            if prop(&p.props, 1).is_some() {
                return None;
            }
            with_prop_bytes(&c.pk, |n, mut p| {
                p.extend([1, *v]);
                (n + 2, p)
            })?
        }
        Break::Twice(i, v) => {
            let at = at_of(&c.pk)?;
            let mut ids: Vec<_> = TABLE
                .iter()
                .filter(|(i, _, a)| {
                    a.contains(&at) && *i != 0x26 && (*i != 0x0b || at != At::Publish)
                })
                .collect();
            if at == At::Connect {
                // also those of the will, elsewhere
                ids.retain(|x| x.2.contains(&At::Connect));
            }
            if ids.is_empty() {
                return None;
            }
            let (id, ty, _) = ids[*i as usize % ids.len()];
            let val = |v: u8| match ty {
                Ty::Byte | Ty::Bool => Val::Byte(v & 1),
                Ty::U16 => Val::U16(v as u16 + 1),
                Ty::U32 => Val::U32(v as u32 + 1),
                Ty::Var => Val::Var(v as u32 + 1),
                Ty::Str => Val::Str(["", "x", "y"][v as usize % 3].into()),
                Ty::Bin | Ty::Pair => Val::Bin(vec![v; v as usize % 3]),
            };
            let mut pk = c.pk.clone();
            let props: &mut Props = match (&mut pk, v & 8) {
                (Pk::Connect(x), 0) if x.will.is_some() => {
                    let w = x.will.as_mut().expect("will");
                    if prop(&w.props, 0x18).is_none() {
                        w.props.push((0x18, Val::U32(*i as u32)));
                    }
                    let k = *v as usize % w.props.len();
                    let p = w.props[k].clone();
                    if p.0 == 0x26 {
                        return None;
                    }
                    w.props.push(p);
                    return Some(pk.encode_form(2));
                }
                _ => pk.props_mut().into_iter().next()?,
            };
            if prop(props, *id).is_none() {
                props.push((*id, val(*v)));
            }
            let at = v.wrapping_mul(7) as usize % (props.len() + 1);
            props.insert(at, (*id, val(v >> 4)));
            pk.encode_form(2)
        }
        Break::Zero(v) => {
            let mut pk = c.pk.clone();
            match &mut pk {
                Pk::Connect(x) => {
                    let id = if v & 1 == 0 { 0x21 } else { 0x27 };
                    x.props.retain(|p| p.0 != id);
                    x.props.push((id, if id == 0x21 { Val::U16(0) } else { Val::U32(0) }));
                }
                Pk::ConnAck { props, .. } => {
                    let id = if v & 1 == 0 { 0x21 } else { 0x27 };
                    props.retain(|p| p.0 != id);
                    props.push((id, if id == 0x21 { Val::U16(0) } else { Val::U32(0) }));
                }
                Pk::Subscribe { props, .. } if v & 1 == 0 => {
                    props.retain(|p| p.0 != 0x0b);
                    props.push((0x0b, Val::Var(0)));
                }
                Pk::Publish(m) if v & 1 == 0 || m.qos == 0 => {
                    m.props.retain(|p| p.0 != 0x0b);
                    m.props.push((0x0b, Val::Var(0)));
                }
                Pk::Publish(m) => m.id = 0,
                Pk::Ack { id, .. }
                | Pk::Subscribe { id, .. }
                | Pk::SubAck { id, .. }
                | Pk::Unsubscribe { id, .. }
                | Pk::UnsubAck { id, .. } => *id = 0,
                _ => return None,
            }
            match &pk {
                // forms without reason and properties too
                Pk::Ack { .. } => pk.encode_form(v % 3),
                _ => pk.encode_form(2),
            }
        }
        Break::Reserved(v) => {
            let mut b = src.clone();
            match &c.pk {
                Pk::ConnAck { .. } => {
                    if *v < 2 {
                        return None;
                    }
                    b[hl] = *v;
                }
                Pk::Subscribe { filters, .. } => {
                    if v & 0xc0 == 0 && v & 3 != 3 && v & 0x30 != 0x30 {
                        return None;
                    }
                    // of any of the filters
                    let n = v.wrapping_mul(5) as usize % filters.len();
                    let after: usize = filters[n + 1..].iter().map(|f| f.filter.len() + 3).sum();
                    let at = b.len() - after - 1;
                    b[at] = *v;
                }
                _ => return None,
            }
            b
        }
        Break::NoFilter => {
            let mut pk = c.pk.clone();
            match &mut pk {
                Pk::Subscribe { filters, .. } => filters.clear(),
                Pk::Unsubscribe { filters, .. } => filters.clear(),
                _ => return None,
            }
            pk.encode_form(2)
        }
    })
}

/// reason codes of the standard, any packet
fn vaux_reasons() -> Vec<u8> {
    let mut r: Vec<u8> = vec![0x18, 0x19];
    for k in [2, 4, 6, 9, 11, 14] {
        r.extend(reasons(k));
    }
    r
}

fn c05_broken(c: &Broken, o: &mut Obs) -> Res {
    let Some(b) = break_it(c) else {
        o.label("does not apply");
        return Ok(());
    };
    o.nontrivial();
    let how = format!("{:?}", c.how);
    o.label(how.split('(').next().unwrap_or("").to_string());
    match conv::decode(&b) {
        Err(e) if matches!(e.kind, ErrorKind::InsufficientData(..)) => {
            hard(format!("{how}: taken for incomplete: {}", short(&b)))
        }
        Err(_) => Ok(()),
        Ok((p, _)) => hard(format!("{how}: malformed packet decoded as {p:?}: {}", short(&b))),
    }
}

/// On edited packets the decoder agrees with the reference decoder
fn c05_differential(m: &Mutant, o: &mut Obs) -> Res {
    let b = mutate(m);
    let ours = conv::decode(&b);
    match refcodec::decode(&b) {
        Err(DecErr::Short) => {
            o.label("incomplete");
            // malformed header bytes may be noticed before the packet is complete
            if let Ok((p, _)) = ours {
                return hard(format!("incomplete packet decoded as {p:?}: {}", short(&b)));
            }
        }
        Err(DecErr::Malformed(why)) => {
            o.nontrivial();
            o.label("malformed");
            if let Ok((p, _)) = ours {
                return hard(format!("malformed ({why}) decoded as {p:?}: {}", short(&b)));
            }
        }
        Ok((want, n)) => {
            // of several subscription identifiers of a message one is kept
            let many = matches!(&want, Pk::Publish(m)
                if m.props.iter().filter(|x| x.0 == 0x0b).count() > 1);
            let known = vaux_reasons();
            let rs: Vec<u8> = match &want {
                Pk::ConnAck { reason, .. }
                | Pk::Ack { reason, .. }
                | Pk::Disconnect { reason, .. } => vec![*reason],
                Pk::SubAck { reasons, .. } | Pk::UnsubAck { reasons, .. } => reasons.clone(),
                _ => vec![],
            };
            if many || rs.iter().any(|r| !known.contains(r)) {
                o.label("protocol error");
                return Ok(());
            }
            o.nontrivial();
            o.label("valid");
            match ours {
                Err(e) => {
                    return hard(format!("valid packet refused: {e}: {} = {}", show(&want), short(&b)))
                }
                Ok((p, m)) => {
                    ensure!(m == n, "packet of {n} bytes, {m} reported: {}", short(&b));
                    let e = conv::encode(&p).map_err(Fail::Hard)?;
                    let got = ref_exact(&e)?;
                    ensure!(
                        norm(&got) == norm(&want),
                        "decoded as {} instead of {}: {}",
                        show(&got),
                        show(&want),
                        short(&b)
                    );
                }
            }
        }
    }
    Ok(())
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        rule: "valid packets broken in one of 15 ways the standard calls malformed, and packets with 1 to 4 byte edits judged by the reference decoder; non-trivial: distinct malformed input, or edited input valid by the reference",
        assumptions: &["the reference decoder decides what is malformed", "not judged: duplicate properties, reserved bits of subscription options and CONNACK flags, values above 1 of the boolean CONNECT properties, over-long variable byte integers, AUTH packets"],
        subs: vec![
            Prop::pure("broken", 200_000, broken, c05_broken).boxed(),
            Prop::pure("differential", 250_000, mutant, c05_differential).boxed(),
        ],
    }
}

// ------------------------------------------------------------------ C06

fn stable(b: &[u8], o: &mut Obs) -> Res {
    let Ok((p, _)) = conv::decode(b) else {
        o.label("refused");
        return Ok(());
    };
    o.nontrivial();
    let e1 = conv::encode(&p)
        .map_err(|e| Fail::Hard(format!("a decoded packet does not encode: {e}: {}", short(b))))?;
    let (q, n) = conv::decode(&e1).map_err(|e| {
        Fail::Hard(format!("a decoded packet encodes to {}, refused: {e}: {}", short(&e1), short(b)))
    })?;
    ensure!(n == e1.len(), "re-encoded packet: {n} of {} bytes", e1.len());
    let explicit = |p: &Packet| match p {
        Packet::PubAck(a) | Packet::PubRec(a) | Packet::PubRel(a) | Packet::PubComp(a) => {
            Some((a.packet_id, a.reason().unwrap_or_default()))
        }
        _ => None,
    };
    match explicit(&p) {
        Some(x) => ensure!(
            Some(x) == explicit(&q) && std::mem::discriminant(&p) == std::mem::discriminant(&q),
            "decoded {p:?}, encoded and decoded again {q:?}"
        ),
        None => ensure!(p == q, "decoded {p:?}, encoded and decoded again {q:?}"),
    }
    let e2 = conv::encode(&q).map_err(|e| Fail::Hard(e.to_string()))?;
    // the order of the properties is fixed by the encoder, that of user properties by the packet
    ensure!(e1 == e2, "encodings differ: {} / {}", short(&e1), short(&e2));
    Ok(())
}

fn c06_mutant(m: &Mutant, o: &mut Obs) -> Res {
    stable(&mutate(m), o)
}
fn c06_raw(c: &Raw, o: &mut Obs) -> Res {
    stable(&c.0, o)
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        rule: "edited packets and arbitrary framed bytes; non-trivial: distinct input the decoder accepts",
        assumptions: &["a success reason code of an acknowledgement may be explicit or left out"],
        subs: vec![
            Prop::pure("mutants", 250_000, mutant, c06_mutant).boxed(),
            Prop::pure("raw", 400_000, raw, c06_raw).boxed(),
        ],
    }
}

// ------------------------------------------------------------------ C08

fn c08_block(c: &u32, o: &mut Obs) -> Res {
    let start = *c * 4096;
    o.nontrivial();
    let mut b = BytesMut::with_capacity(8);
    for v in start..start + 4096 {
        o.steps += 1;
        b.clear();
        let mut want = Vec::with_capacity(4);
        put_var(&mut want, v);
        if let Err(e) = codec::encode_variable_byte_int(v, &mut b) {
            return hard(format!("{v} is not encoded: {e}"));
        }
        ensure!(b[..] == want[..], "{v} encoded as {:?} instead of {want:?}", &b[..]);
        ensure!(
            codec::variable_byte_int_size(v) as usize == want.len(),
            "size of {v}: {}",
            codec::variable_byte_int_size(v)
        );
        match codec::decode_variable_byte_int(&mut b) {
            Ok((x, n)) if x == v && n == want.len() && b.is_empty() => {}
            r => return hard(format!("{want:?} decoded as {r:?} instead of {v}")),
        }
    }
    Ok(())
}

fn c08_over(v: &u32, o: &mut Obs) -> Res {
    o.nontrivial();
    let mut b = BytesMut::new();
    let r = codec::encode_variable_byte_int(*v, &mut b);
    if *v > 268_435_455 {
        ensure!(r.is_err(), "{v} encoded as {:?}", &b[..]);
        ensure!(codec::encode_opt_variable_byte_int(Some(*v), &mut b).is_err(), "{v}");
        ensure!(codec::encode_opt_variable_byte_int_ref(&Some(*v), &mut b).is_err(), "{v}");
    } else {
        ensure!(r.is_ok(), "{v}: {r:?}");
    }
    Ok(())
}

fn c08_bytes(c: &Raw, o: &mut Obs) -> Res {
    let mut b = BytesMut::from(&c.0[..]);
    o.nontrivial();
    let mut want = None;
    let mut v = 0u32;
    for (i, x) in c.0.iter().take(4).enumerate() {
        v |= ((x & 0x7f) as u32) << (7 * i);
        if x & 0x80 == 0 {
            want = Some((v, i + 1));
            break;
        }
    }
    match (codec::decode_variable_byte_int(&mut b), want) {
        (Ok(r), Some(w)) if r == w => {
            ensure!(b[..] == c.0[w.1..], "took {} bytes of {:?}", c.0.len() - b.len(), c.0);
            o.label("value");
            Ok(())
        }
        (Err(e), None) => {
            let short = c.0.len() < 4;
            ensure!(
                matches!(e.kind, ErrorKind::InsufficientData(..)) == short,
                "{:?} gives {e:?}",
                c.0
            );
            o.label(if short { "incomplete" } else { "malformed" });
            Ok(())
        }
        (r, w) => hard(format!("{:?} decoded as {r:?} instead of {w:?}", c.0)),
    }
}

pub fn c08() -> Property {
    let over = |_| {
        prop_oneof![
            2 => 268_435_440u32..268_435_480,
            1 => 268_435_456u32..,
            1 => any::<u32>(),
            1 => Just(u32::MAX)
        ]
        .boxed()
    };
    let bytes = |_| {
        vec(prop_oneof![2 => any::<u8>(), 2 => 0x80u8.., 1 => Just(0u8), 1 => Just(0xffu8)], 0..7)
            .prop_map(Raw)
            .boxed()
    };
    let blocks = |_| {
        prop_oneof![
            // the blocks where the length changes
            1 => select(&[0u32, 3, 4, 511, 512, 65_535][..]),
            12 => 0u32..65_536,
        ]
        .boxed()
    };
    Property {
        id: "C08",
        rule: "blocks of 4096 consecutive values, values above the maximum, and arbitrary byte strings; non-trivial: distinct block, value or byte string",
        assumptions: &["steps counts the values of the blocks"],
        subs: vec![
            Prop::pure("blocks", 20_000, blocks, c08_block).thorough(600_000).boxed(),
            Prop::pure("above", 20_000, over, c08_over).boxed(),
            Prop::pure("bytes", 300_000, bytes, c08_bytes).boxed(),
        ],
    }
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum PubOp {
    Qos(u8),
    WithQos(u8),
    Dup(bool),
    WithDup(bool),
    Id(Option<u16>),
    WithId(Option<u16>),
    Retain(bool),
    WithRetain(bool),
    Format(bool),
}

fn pub_op() -> BoxedStrategy<PubOp> {
    let id = proptest::option::weighted(0.9, 1u16..);
    prop_oneof![
        2 => (0u8..3).prop_map(PubOp::Qos),
        1 => (0u8..3).prop_map(PubOp::WithQos),
        2 => any::<bool>().prop_map(PubOp::Dup),
        1 => any::<bool>().prop_map(PubOp::WithDup),
        2 => id.clone().prop_map(PubOp::Id),
        1 => id.prop_map(PubOp::WithId),
        1 => any::<bool>().prop_map(PubOp::Retain),
        1 => any::<bool>().prop_map(PubOp::WithRetain),
        1 => any::<bool>().prop_map(PubOp::Format),
    ]
    .boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PubOps {
    /// constructor: 0 default, 1 from header, 2 with payload, 3 with message
    new: u8,
    id: Option<u16>,
    qos: u8,
    ops: Vec<PubOp>,
    then: Pk,
}

fn pub_ops(_: bool) -> BoxedStrategy<PubOps> {
    (
        0u8..4,
        proptest::option::of(1u16..),
        0u8..3,
        vec(pub_op(), 0..16),
        gen::publish().prop_filter("small", |p| p.encode().len() < 3000),
    )
        .prop_map(|(new, id, qos, ops, then)| PubOps { new, id, qos, ops, then })
        .boxed()
}

fn c07_publish(c: &PubOps, o: &mut Obs) -> Res {
    use vaux_mqtt::{FixedHeader, PacketType, PayloadFormat, Publish};
    let q = conv::qos(c.qos);
    // model: QoS, DUP, identifier, retain, UTF-8
    let (mut mq, mut md, mut mid, mut mr, mut mf) = (0u8, false, None, false, false);
    let mut p = match c.new {
        0 => Publish::default(),
        1 => {
            // and not from the header of another packet
            for t in [PacketType::Connect, PacketType::PubAck, PacketType::Subscribe] {
                ensure!(Publish::new_from_header(FixedHeader::new(t)).is_err(), "{t:?}");
            }
            match Publish::new_from_header(FixedHeader::new(PacketType::Publish)) {
                Ok(p) => p,
                Err(e) => return hard(e.to_string()),
            }
        }
        n => {
            let r = if n == 2 {
                Publish::new_with_payload(c.id, "t".into(), q, b"x".to_vec())
            } else {
                Publish::new_with_message(c.id, "t".into(), q, "x")
            };
            let ok = c.id.is_some() == (c.qos > 0);
            ensure!(r.is_ok() == ok, "constructor with id {:?} QoS {}: {r:?}", c.id, c.qos);
            match r {
                Err(_) => {
                    o.label("constructor refused");
                    return Ok(());
                }
                Ok(p) => {
                    (mq, mid, mf) = (c.qos, c.id, n == 3);
                    p
                }
            }
        }
    };
    for op in &c.ops {
        o.step();
        match op {
            PubOp::Qos(n) | PubOp::WithQos(n) => {
                if matches!(op, PubOp::Qos(_)) {
                    p.set_qos(conv::qos(*n));
                } else {
                    p = p.with_qos(conv::qos(*n));
                }
                mq = *n;
                if mq == 0 {
                    md = false;
                    mid = None;
                }
            }
            PubOp::Dup(d) | PubOp::WithDup(d) => {
                let ok = mq > 0 || !*d;
                let r = if matches!(op, PubOp::Dup(_)) {
                    p.set_dup(*d).is_ok()
                } else {
                    let r = p.clone().with_dup(*d);
                    let k = r.is_ok();
                    if let Ok(x) = r {
                        p = x;
                    }
                    k
                };
                ensure!(r == ok, "DUP {d} at QoS {mq} accepted: {r}");
                if ok {
                    md = *d;
                }
            }
            PubOp::Id(i) | PubOp::WithId(i) => {
                let ok = mq > 0;
                let r = if matches!(op, PubOp::Id(_)) {
                    p.set_packet_id(*i).is_ok()
                } else {
                    let r = p.clone().with_packet_id(*i);
                    let k = r.is_ok();
                    if let Ok(x) = r {
                        p = x;
                    }
                    k
                };
                ensure!(r == ok, "packet identifier at QoS {mq} accepted: {r}");
                if ok {
                    mid = *i;
                }
            }
            PubOp::Retain(r) => {
                p.set_retain(*r);
                mr = *r;
            }
            PubOp::WithRetain(r) => {
                p = p.with_retain(*r);
                mr = *r;
            }
            PubOp::Format(u) => {
                p.set_payload_format(if *u { PayloadFormat::Utf8 } else { PayloadFormat::Bin });
                mf = *u;
            }
        }
        ensure!(
            (p.qos() as u8, p.dup(), p.packet_id(), p.retain()) == (mq, md, mid, mr),
            "after {op:?}: QoS {:?} DUP {} id {:?} retain {}, expected {:?}",
            p.qos(),
            p.dup(),
            p.packet_id(),
            p.retain(),
            (mq, md, mid, mr)
        );
        ensure!(
            p.payload_format.unwrap_or_default() as u8 == mf as u8,
            "payload format {:?}",
            p.payload_format
        );
    }
    if mq == 0 || mid.is_some() {
        o.nontrivial();
        // whatever the history, the packet goes out as its state says
        let Pk::Publish(then) = &c.then else { return Ok(()) };
        p.topic_name = then.topic.clone();
        p.payload = Some(Bytes::from(then.payload.clone()));
        let e = conv::encode(&Packet::Publish(p)).map_err(Fail::Hard)?;
        let Pk::Publish(got) = ref_exact(&e)? else { return hard("not PUBLISH") };
        ensure!(
            (got.qos, got.dup, got.id, got.retain)
                == (mq, md, mid.filter(|_| mq > 0).unwrap_or(0), mr),
            "sent {got:?}, expected {:?}",
            (mq, md, mid, mr)
        );
        ensure!(got.topic == then.topic && got.payload == then.payload, "topic or payload differ");
        ensure!(
            prop(&got.props, 1).map(|v| *v == Val::Byte(1)).unwrap_or(false) == mf,
            "payload format sent: {:?}",
            got.props
        );
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum UserOp {
    Add(u8, u8),
    Clear,
    ClearKey(u8),
}

fn c07_user(ops: &Vec<UserOp>, o: &mut Obs) -> Res {
    let mut u = vaux_mqtt::property::UserProperty::new();
    let mut m: Vec<(String, String)> = vec![];
    let key = |k: u8| if k == 0 { String::new() } else { format!("k{k}") };
    for op in ops {
        o.step();
        match op {
            UserOp::Add(k, v) => {
                u.add(key(*k), format!("v{v}"));
                m.push((key(*k), format!("v{v}")));
            }
            UserOp::Clear => {
                u.clear();
                m.clear();
            }
            UserOp::ClearKey(k) => {
                u.clear_codec(&key(*k));
                m.retain(|(x, _)| *x != key(*k));
            }
        }
        let mut keys: Vec<&String> = m.iter().map(|(k, _)| k).collect();
        keys.sort();
        keys.dedup();
        ensure!(u.len() == keys.len(), "{} keys instead of {}", u.len(), keys.len());
        ensure!(u.is_empty() == m.is_empty(), "is_empty");
        for k in 0..4 {
            let want: Vec<String> =
                m.iter().filter(|(x, _)| *x == key(k)).map(|(_, v)| v.clone()).collect();
            let got = u.get(&key(k)).cloned().unwrap_or_default();
            ensure!(got == want, "values of {:?}: {got:?} instead of {want:?}", key(k));
        }
        let mut seen = 0;
        for (k, v) in u.iter() {
            let want: Vec<&String> = m.iter().filter(|(x, _)| x == k).map(|(_, v)| v).collect();
            ensure!(v.iter().collect::<Vec<_>>() == want, "iter: {k:?} {v:?}");
            seen += v.len();
        }
        ensure!(seen == m.len(), "iter gives {seen} of {} values", m.len());
        let mut b = BytesMut::new();
        u.encode(&mut b).map_err(|e| Fail::Hard(e.to_string()))?;
        let mut want = vec![];
        for (k, v) in &m {
            put_prop(&mut want, 0x26, &Val::Pair(k.clone(), v.clone()));
        }
        ensure!(b[..] == want[..], "encoded {} instead of {}", short(&b), short(&want));
        ensure!(u.property_size() as usize == want.len(), "size {}", u.property_size());
        if m.len() > 1 {
            o.nontrivial();
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum ConnOp {
    Clean(bool),
    User(Option<String>),
    Pass(Option<u8>),
    Will(u8, bool, u8),
    Expiry(u32),
}

/// CONNECT built by any sequence of setters
fn c07_connect(ops: &Vec<ConnOp>, o: &mut Obs) -> Res {
    let mut c = vaux_mqtt::Connect::default();
    c.client_id = "c".into();
    let mut m = Connect {
        clean: false,
        keep_alive: c.keep_alive,
        props: vec![],
        client_id: "c".into(),
        will: None,
        username: None,
        password: None,
    };
    for op in ops {
        o.step();
        match op {
            ConnOp::Clean(b) => {
                c.set_clean_start(*b);
                m.clean = *b;
            }
            ConnOp::User(u) => {
                c.set_username(u.clone());
                m.username = u.clone();
            }
            ConnOp::Pass(p) => {
                let p = p.map(|n| gen::fill(n as usize, 5));
                c.set_password(p.clone());
                m.password = p;
            }
            ConnOp::Will(q, r, n) => {
                let w = Will {
                    qos: *q,
                    retain: *r,
                    props: if n % 2 == 0 { vec![] } else { vec![(0x18, Val::U32(*n as u32))] },
                    topic: format!("will/{n}"),
                    payload: vec![*n; *n as usize],
                };
                c.set_will_message(conv::will_message(&w));
                m.will = Some(w);
            }
            ConnOp::Expiry(e) => {
                c.set_session_expiry_interval(*e);
                m.props.clear();
                if *e > 0 {
                    m.props.push((0x11, Val::U32(*e)));
                }
            }
        }
        ensure!(
            (c.clean_start(), c.will(), c.username(), c.password())
                == (m.clean, m.will.is_some(), m.username.is_some(), m.password.is_some()),
            "flags after {op:?}"
        );
        if let Some(w) = &m.will {
            ensure!(
                c.will_qos().ok() == Some(conv::qos(w.qos)) && c.will_retain() == w.retain,
                "will flags after {op:?}"
            );
        }
        ensure!(
            c.will_message() == m.will.as_ref().map(conv::will_message),
            "will message after {op:?}: {:?}",
            c.will_message()
        );
        let e = conv::encode(&Packet::Connect(Box::new(c.clone()))).map_err(Fail::Hard)?;
        let got = ref_exact(&e)?;
        ensure!(
            norm(&got) == norm(&Pk::Connect(m.clone())),
            "after {op:?} sent as {} instead of {}",
            show(&got),
            show(&Pk::Connect(m.clone()))
        );
        if ops.len() > 1 {
            o.nontrivial();
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum MiscOp {
    FQos(u8),
    FNoLocal(bool),
    FRap(bool),
    FRh(u8),
    Add(u8),
    RemoveAt(u8),
    RemoveTopic(u8),
    ClearFilters,
    SubId(u32),
    Present(bool),
    CExpiry(u32),
    CKeep(u16),
    CRecv(u16),
    SubAckId(u16),
}

/// filters, SUBSCRIBE, SUBACK and CONNACK built by any sequence of setters
fn c07_misc(ops: &Vec<MiscOp>, o: &mut Obs) -> Res {
    use vaux_mqtt::subscribe::{RetainHandling, SubAck, SubscriptionFilter};
    let mut f = SubscriptionFilter::new("f".into(), QoSLevel::AtMostOnce);
    let mut mf = Filter { filter: "f".into(), qos: 0, no_local: false, rap: false, rh: 0 };
    let mut s = vaux_mqtt::Subscribe::new_with_packet_id(9);
    let mut ms: Vec<Filter> = vec![];
    let mut mid: Option<u32> = None;
    let mut a = vaux_mqtt::ConnAck::default();
    let (mut mp, mut me, mut mk, mut mr) = (false, None, None, None);
    let mut k = SubAck::new_with_packet_id(3).map_err(|e| Fail::Hard(e.to_string()))?;
    let mut kid = 3;
    ensure!(SubAck::new_with_packet_id(0).is_err(), "SUBACK with packet identifier 0");
    for op in ops {
        o.step();
        match op {
            MiscOp::FQos(q) => {
                f.set_qos(conv::qos(*q));
                mf.qos = *q;
            }
            MiscOp::FNoLocal(b) => {
                f.set_no_local(*b);
                mf.no_local = *b;
            }
            MiscOp::FRap(b) => {
                f.set_retain_as_published(*b);
                mf.rap = *b;
            }
            MiscOp::FRh(r) => {
                f.set_retain_handling(match r {
                    0 => RetainHandling::Send,
                    1 => RetainHandling::SendNew,
                    _ => RetainHandling::None,
                });
                mf.rh = *r;
            }
            MiscOp::Add(n) => {
                f.filter = format!("t/{}", n % 4);
                mf.filter = f.filter.clone();
                s.add_filter(f.clone());
                ms.push(mf.clone());
            }
            MiscOp::RemoveAt(i) => {
                let i = *i as usize % (ms.len() + 1);
                let want = (i < ms.len()).then(|| ms.remove(i));
                let got = s.remove_filter_at(i);
                ensure!(got == want.as_ref().map(conv::filter), "remove_filter_at({i}): {got:?}");
            }
            MiscOp::RemoveTopic(n) => {
                let t = format!("t/{}", n % 4);
                let want = ms.iter().position(|x| x.filter == t).map(|i| ms.remove(i));
                let got = s.remove_filter_with_topic(&t);
                ensure!(got == want.as_ref().map(conv::filter), "remove {t}: {got:?}");
            }
            MiscOp::ClearFilters => {
                s.clear_filters();
                ms.clear();
            }
            MiscOp::SubId(i) => {
                let r = s.set_subscription_id(*i);
                if *i > 268_435_455 {
                    ensure!(r.is_err(), "subscription identifier {i} accepted");
                } else if *i > 0 {
                    ensure!(r.is_ok(), "subscription identifier {i} refused");
                    mid = Some(*i);
                } else {
                    mid = s.subscription_id;
                }
            }
            MiscOp::Present(b) => {
                a.set_session_present(*b);
                mp = *b;
            }
            MiscOp::CExpiry(n) => {
                a.set_session_expiry(*n);
                me = Some(*n).filter(|n| *n > 0);
            }
            MiscOp::CKeep(n) => {
                a.set_server_keep_alive(*n);
                mk = Some(*n).filter(|n| *n > 0);
            }
            MiscOp::CRecv(n) => {
                a.set_receive_max(*n);
                mr = Some(*n).filter(|n| *n > 0);
            }
            MiscOp::SubAckId(n) => {
                let r = k.set_packet_id(*n);
                ensure!(r.is_ok() == (*n != 0), "SUBACK packet identifier {n}: {r:?}");
                if *n != 0 {
                    kid = *n;
                }
            }
        }
        ensure!(
            (f.qos() as u8, f.no_local(), f.retain_as_published(), f.retain_handling() as u8)
                == (mf.qos, mf.no_local, mf.rap, mf.rh),
            "filter options after {op:?}: {f:?} instead of {mf:?}"
        );
        ensure!(k.packet_id() == kid, "SUBACK packet identifier");
        ensure!(
            (a.session_present(), a.receive_max()) == (mp, mr),
            "CONNACK after {op:?}: {a:?}"
        );
    }
    o.nontrivial();
    if mid != Some(0) && !ms.is_empty() {
        let mut props = vec![];
        if let Some(i) = mid {
            props.push((0x0b, Val::Var(i)));
        }
        let want = Pk::Subscribe { id: 9, props, filters: ms };
        let e = conv::encode(&Packet::Subscribe(s)).map_err(Fail::Hard)?;
        let got = ref_exact(&e)?;
        ensure!(norm(&got) == norm(&want), "{} instead of {}", show(&got), show(&want));
    }
    let mut props = vec![];
    if let Some(n) = me {
        props.push((0x11, Val::U32(n)));
    }
    if let Some(n) = mr {
        props.push((0x21, Val::U16(n)));
    }
    if let Some(n) = mk {
        props.push((0x13, Val::U16(n)));
    }
    let want = Pk::ConnAck { present: mp, reason: 0, props };
    let got = ref_exact(&conv::encode(&Packet::ConnAck(a)).map_err(Fail::Hard)?)?;
    ensure!(norm(&got) == norm(&want), "{} instead of {}", show(&got), show(&want));
    Ok(())
}

/// reason codes an acknowledgement takes
fn c07_ack(c: &(u8, u16, Vec<u8>), o: &mut Obs) -> Res {
    let (kind, id, rs) = c;
    let kind = 4 + kind % 4;
    let mk = || match kind {
        4 => vaux_mqtt::PubAck::new_puback_with_packet_id(*id),
        5 => vaux_mqtt::PubAck::new_pubrec_with_packet_id(*id),
        6 => vaux_mqtt::PubAck::new_pubrel_with_packet_id(*id),
        _ => vaux_mqtt::PubAck::new_pubcomp_with_packet_id(*id),
    };
    let mut p = mk();
    let mut m = 0u8;
    for r in rs {
        let Ok(reason) = vaux_mqtt::Reason::try_from(*r) else { continue };
        o.nontrivial();
        let ok = match kind {
            4 | 5 => reasons(4).contains(r),
            // the crate takes 0x91 where the standard has 0x92; neither is judged
            _ if *r == 0x91 || *r == 0x92 => p.clone().set_reason(reason).is_ok(),
            _ => *r == 0,
        };
        let got = p.set_reason(reason);
        ensure!(got.is_ok() == ok, "kind {kind} reason {r:#x}: {got:?}");
        if ok {
            m = *r;
        }
        ensure!(p.reason().unwrap_or_default() as u8 == m, "reason {:?} not {m:#x}", p.reason());
    }
    let pk = match kind {
        4 => Packet::PubAck(p),
        5 => Packet::PubRec(p),
        6 => Packet::PubRel(p),
        _ => Packet::PubComp(p),
    };
    let got = ref_exact(&conv::encode(&pk).map_err(Fail::Hard)?)?;
    let want = Pk::Ack { kind, id: *id, reason: m, props: vec![] };
    ensure!(got == want, "{got:?} instead of {want:?}");
    Ok(())
}

pub fn c07() -> Property {
    let user = |_| {
        vec(
            prop_oneof![
                6 => (0u8..4, any::<u8>()).prop_map(|(k, v)| UserOp::Add(k, v)),
                1 => Just(UserOp::Clear),
                2 => (0u8..4).prop_map(UserOp::ClearKey)
            ],
            0..20,
        )
        .boxed()
    };
    let conn = |_| {
        vec(
            prop_oneof![
                any::<bool>().prop_map(ConnOp::Clean),
                proptest::option::of(gen::text().prop_filter("short", |s| s.len() < 200))
                    .prop_map(ConnOp::User),
                proptest::option::of(0u8..40).prop_map(ConnOp::Pass),
                (0u8..3, any::<bool>(), 0u8..40).prop_map(|(a, b, c)| ConnOp::Will(a, b, c)),
                prop_oneof![Just(0u32), any::<u32>()].prop_map(ConnOp::Expiry),
            ],
            0..12,
        )
        .boxed()
    };
    let misc = |_| {
        let z16 = prop_oneof![1 => Just(0u16), 3 => any::<u16>()];
        vec(
            prop_oneof![
                2 => (0u8..3).prop_map(MiscOp::FQos),
                1 => any::<bool>().prop_map(MiscOp::FNoLocal),
                1 => any::<bool>().prop_map(MiscOp::FRap),
                2 => (0u8..3).prop_map(MiscOp::FRh),
                4 => any::<u8>().prop_map(MiscOp::Add),
                1 => any::<u8>().prop_map(MiscOp::RemoveAt),
                1 => any::<u8>().prop_map(MiscOp::RemoveTopic),
                1 => prop::bool::weighted(0.2).prop_map(|b| if b { MiscOp::ClearFilters } else { MiscOp::Add(1) }),
                1 => prop_oneof![gen::varint(), 268_435_450u32..268_435_460, any::<u32>()].prop_map(MiscOp::SubId),
                1 => any::<bool>().prop_map(MiscOp::Present),
                1 => prop_oneof![Just(0u32), any::<u32>()].prop_map(MiscOp::CExpiry),
                1 => z16.clone().prop_map(MiscOp::CKeep),
                1 => z16.clone().prop_map(MiscOp::CRecv),
                1 => z16.prop_map(MiscOp::SubAckId),
            ],
            0..24,
        )
        .boxed()
    };
    let ack = |_| (any::<u8>(), 1u16.., vec(select(&all_reasons()[..]), 0..6)).boxed();
    Property {
        id: "C07",
        rule: "random sequences of constructor and setter calls on PUBLISH, CONNECT, CONNACK, SUBSCRIBE, SUBACK, acknowledgements and user properties, compared after every step with a model and at the end with the reference decoding of the encoding; non-trivial: distinct sequence that reached an encodable state after two or more calls",
        assumptions: &["PUBLISH with QoS above 0 and no packet identifier is the caller's error and not encoded", "PUBREL and PUBCOMP reason codes 0x91 and 0x92 are not judged"],
        subs: vec![
            Prop::pure("publish", 60_000, pub_ops, c07_publish).boxed(),
            Prop::pure("user-properties", 40_000, user, c07_user).boxed(),
            Prop::pure("connect", 40_000, conn, c07_connect).boxed(),
            Prop::pure("others", 60_000, misc, c07_misc).boxed(),
            Prop::pure("acks", 40_000, ack, c07_ack).boxed(),
        ],
    }
}

fn all_reasons() -> &'static Vec<u8> {
    static R: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        let mut r = vaux_reasons();
        r.sort();
        r.dedup();
        r
    })
}

#[allow(unused)]
fn unused(_: Index) {}
