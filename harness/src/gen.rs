//! Generators of packets and their parts
use crate::refcodec::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::{select, subsequence, Index};

/// Deterministic bytes from a length and a seed, shrinks by length
pub fn fill(len: usize, seed: u64) -> Vec<u8> {
    let mut x = seed | 1;
    (0..len)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u8
        })
        .collect()
}

/// Lengths around the places where a length field grows
fn edge_len(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        20 => 0usize..24,
        4 => 90usize..140,
        2 => 0usize..600,
        1 => 16_200usize..16_500,
        1 => 65_500usize..=65_535,
    ]
    .prop_map(move |l| l.min(max))
    .boxed()
}

pub fn blob() -> BoxedStrategy<Vec<u8>> {
    (edge_len(65535), any::<u64>()).prop_map(|(l, s)| fill(l, s)).boxed()
}

/// An application message: no length prefix
pub fn payload() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        300 => edge_len(65535),
        3 => 65_536usize..70_000,
        1 => 2_096_900usize..2_097_400,
    ]
    .prop_flat_map(|l| any::<u64>().prop_map(move |s| fill(l, s)))
    .boxed()
}

const CHARS: &[char] = &[
    'a', 'b', 'c', 'z', 'A', '0', '9', '/', '/', '+', '#', '$', ' ', '.', '-', '\u{1}', '\u{7f}',
    '\u{80}', 'ß', '中', '\u{feff}', '\u{fffd}', '\u{10ffff}', '😀', '"', '\\', '\n',
];

pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        12 => vec(select(CHARS), 0..10).prop_map(|c| c.into_iter().collect::<String>()),
        3 => vec(select(CHARS), 0..80).prop_map(|c| c.into_iter().collect::<String>()),
        1 => (edge_len(65535), select(CHARS)).prop_map(|(l, c)| {
            let n = l / c.len_utf8();
            let mut s: String = std::iter::repeat_n(c, n).collect();
            while s.len() < l { s.push('x'); }
            s
        }),
    ]
    .boxed()
}

fn text1() -> BoxedStrategy<String> {
    text().prop_map(|s| if s.is_empty() { "x".into() } else { s }).boxed()
}

fn u16b() -> BoxedStrategy<u16> {
    prop_oneof![1 => Just(1u16), 1 => Just(u16::MAX), 2 => 1u16..300, 4 => 1u16..].boxed()
}

fn u32b() -> BoxedStrategy<u32> {
    prop_oneof![1 => Just(0u32), 1 => Just(u32::MAX), 2 => 0u32..300, 4 => any::<u32>()].boxed()
}

pub fn varint() -> BoxedStrategy<u32> {
    prop_oneof![
        select(&[
            1u32, 127, 128, 16_383, 16_384, 2_097_151, 2_097_152, 268_435_455, 255, 256, 32_768
        ][..]),
        1u32..1000,
        1u32..=268_435_455,
    ]
    .boxed()
}

fn prop_val(at: At, id: u8, ty: Ty) -> BoxedStrategy<(u8, Val)> {
    match ty {
        Ty::Byte | Ty::Bool => (0u8..2).prop_map(Val::Byte).boxed(),
        Ty::U16 => u16b().prop_map(Val::U16).boxed(),
        Ty::U32 => u32b()
            .prop_map(move |v| Val::U32(if id == 0x27 { v.max(1) } else { v }))
            .boxed(),
        Ty::Var => varint().prop_map(Val::Var).boxed(),
        Ty::Str if at == At::UnsubAck => text1().prop_map(Val::Str).boxed(),
        Ty::Str => text().prop_map(Val::Str).boxed(),
        Ty::Bin => blob()
            .prop_map(|b| Val::Bin(if b.is_empty() { vec![7] } else { b }))
            .boxed(),
        Ty::Pair => (text(), text()).prop_map(|(k, v)| Val::Pair(k, v)).boxed(),
    }
    .prop_map(move |v| (id, v))
    .boxed()
}

/// Any subset of the properties allowed there in any order, with any number of user properties
pub fn props(at: At) -> BoxedStrategy<Props> {
    let single: Vec<(u8, Ty)> =
        allowed(at).into_iter().filter(|(_, t)| *t != Ty::Pair).collect();
    let n = single.len();
    let some = subsequence(single, 0..=n).prop_flat_map(move |ids| {
        ids.into_iter().map(|(i, t)| prop_val(at, i, t)).collect::<Vec<_>>()
    });
    // the same keys come up repeatedly
    let key = prop_oneof![3 => select(&["k", "key", ""][..]).prop_map(String::from), 2 => text()];
    let user = vec((key, text()), 0..5);
    let full = (some, user, vec(any::<Index>(), 0..5)).prop_map(|(mut p, u, pos)| {
        for (i, (k, v)) in u.into_iter().enumerate() {
            let at = match pos.get(i) {
                Some(x) => x.index(p.len() + 1),
                None => p.len(),
            };
            p.insert(at, (0x26, Val::Pair(k, v)));
        }
        p
    });
    prop_oneof![1 => Just(vec![]), 4 => full].prop_flat_map(|p| {
        let n = p.len();
        (Just(p), vec(any::<Index>(), 0..=n.min(6)))
    })
    .prop_map(|(mut p, swaps)| {
        // reorder
        for (i, s) in swaps.into_iter().enumerate() {
            if i < p.len() {
                let j = s.index(p.len());
                p.swap(i, j);
            }
        }
        p
    })
    .boxed()
}

pub fn will() -> BoxedStrategy<Will> {
    (0u8..3, any::<bool>(), props(At::Will), text(), blob())
        .prop_map(|(qos, retain, props, topic, payload)| Will { qos, retain, props, topic, payload })
        .boxed()
}

pub fn connect() -> BoxedStrategy<Pk> {
    (
        any::<bool>(),
        any::<u16>(),
        props(At::Connect),
        text(),
        proptest::option::of(will()),
        proptest::option::of(text()),
        proptest::option::of(blob()),
    )
        .prop_map(|(clean, keep_alive, props, client_id, will, username, password)| {
            Pk::Connect(Connect { clean, keep_alive, props, client_id, will, username, password })
        })
        .boxed()
}

pub fn publish() -> BoxedStrategy<Pk> {
    (0u8..3, any::<bool>(), any::<bool>(), text(), u16b(), props(At::Publish), payload())
        .prop_map(|(qos, dup, retain, topic, id, props, payload)| {
            Pk::Publish(Publish {
                dup: dup && qos > 0,
                qos,
                retain,
                topic,
                id: if qos > 0 { id } else { 0 },
                props,
                payload,
            })
        })
        .boxed()
}

pub fn filter() -> BoxedStrategy<Filter> {
    (text(), 0u8..3, any::<bool>(), any::<bool>(), 0u8..3)
        .prop_map(|(filter, qos, no_local, rap, rh)| Filter { filter, qos, no_local, rap, rh })
        .boxed()
}

pub fn pk_of(kind: u8) -> BoxedStrategy<Pk> {
    match kind {
        1 => connect(),
        2 => (any::<bool>(), select(reasons(2)), props(At::ConnAck))
            .prop_map(|(present, reason, props)| Pk::ConnAck { present, reason, props })
            .boxed(),
        3 => publish(),
        4..=7 => (u16b(), select(reasons(kind)), props(At::Ack))
            .prop_map(move |(id, reason, props)| Pk::Ack { kind, id, reason, props })
            .boxed(),
        8 => (u16b(), props(At::Subscribe), vec(filter(), 1..6))
            .prop_map(|(id, props, filters)| Pk::Subscribe { id, props, filters })
            .boxed(),
        9 => (u16b(), props(At::SubAck), vec(select(reasons(9)), 1..12))
            .prop_map(|(id, props, reasons)| Pk::SubAck { id, props, reasons })
            .boxed(),
        10 => (u16b(), props(At::Unsubscribe), vec(text(), 1..6))
            .prop_map(|(id, props, filters)| Pk::Unsubscribe { id, props, filters })
            .boxed(),
        11 => (u16b(), props(At::UnsubAck), vec(select(reasons(11)), 1..12))
            .prop_map(|(id, props, reasons)| Pk::UnsubAck { id, props, reasons })
            .boxed(),
        12 => Just(Pk::PingReq).boxed(),
        13 => Just(Pk::PingResp).boxed(),
        _ => (select(reasons(14)), props(At::Disconnect))
            .prop_map(|(reason, props)| Pk::Disconnect { reason, props })
            .boxed(),
    }
}

/// Any packet; the kinds with more structure more often
pub fn pk() -> BoxedStrategy<Pk> {
    prop_oneof![
        5 => pk_of(1), 4 => pk_of(2), 6 => pk_of(3),
        1 => pk_of(4), 1 => pk_of(5), 1 => pk_of(6), 1 => pk_of(7),
        3 => pk_of(8), 2 => pk_of(9), 2 => pk_of(10), 2 => pk_of(11),
        1 => pk_of(12), 1 => pk_of(13), 3 => pk_of(14),
    ]
    .boxed()
}

/// Packets of moderate size, for checks that transport many of them
pub fn small_pk() -> BoxedStrategy<Pk> {
    pk().prop_filter("small", |p| p.encode().len() < 5000).boxed()
}
