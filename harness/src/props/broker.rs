//! B01 - B12: the broker
use super::{broker2, hostile, races};
use crate::bsim::{self, *};
use crate::runner::*;
use proptest::prelude::*;

const ASSUME: &[&str] = &[
    "clients send valid packets except where a case says otherwise",
    "what MQTT or the broker leaves open is left open by the model (see DESIGN.md)",
    "one broker thread; packets of different clients are interleaved at packet granularity",
];

/// A profile of the general model
struct Profile {
    w: Weights,
    start: bool,
    n: usize,
    ka: bool,
    cap: bool,
    bad: bool,
}

fn profile(p: Profile, thorough: bool) -> BoxedStrategy<Case> {
    bsim::cases(p.w, p.start, if thorough { p.n * 2 } else { p.n }, p.ka, p.cap, p.bad)
}

/// Runs a case; non-trivial if all of the things named happened
fn judged(c: &Case, o: &mut Obs, strict: bool, all: &[&str], any: &[&str]) -> Res {
    let s = bsim::run_with(c, o, strict)?;
    if all.iter().all(|k| s.contains_key(k)) && (any.is_empty() || any.iter().any(|k| s.contains_key(k))) {
        o.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------ B01

fn routing(t: bool) -> BoxedStrategy<Case> {
    let w = Weights { connect: 1, close: 0, sub: 10, unsub: 1, publish: 16, hold: 0, ack: 0, advance: 0, will: 0, ..BASE };
    profile(Profile { w, start: true, n: 24, ka: false, cap: false, bad: true }, t)
}

fn b01(c: &Case, o: &mut Obs) -> Res {
    judged(c, o, false, &["message delivered", "subscribe"], &[])
}

pub fn b01p() -> Property {
    Property {
        id: "B01",
        rule: "histories of up to 50 operations of 4 clients (connect, disconnect in 6 ways, subscribe, unsubscribe, publish, hold and acknowledge, ping, time, violations; weighted for this property), topics and filters made from one another; non-trivial: distinct case in which a client subscribed and a published message was delivered",
        assumptions: ASSUME,
        subs: vec![Prop::net("routing", 60_000, routing, b01).boxed()],
    }
}

// ------------------------------------------------------------------ B02

fn subscriptions(t: bool) -> BoxedStrategy<Case> {
    let w = Weights { connect: 3, close: 3, sub: 10, unsub: 9, publish: 14, hold: 0, ack: 0, advance: 1, will: 0, ..BASE };
    profile(Profile { w, start: true, n: 40, ka: false, cap: false, bad: true }, t)
}

fn b02(c: &Case, o: &mut Obs) -> Res {
    judged(c, o, false, &["message delivered", "unsubscribe"], &[])
}

pub fn b02p() -> Property {
    Property {
        id: "B02",
        rule: "histories of up to 50 operations of 4 clients (connect, disconnect in 6 ways, subscribe, unsubscribe, publish, hold and acknowledge, ping, time, violations; weighted for this property), topics and filters made from one another; non-trivial: distinct case in which a subscription was removed and messages were delivered",
        assumptions: ASSUME,
        subs: vec![Prop::net("lifecycle", 40_000, subscriptions, b02).boxed()],
    }
}

// ------------------------------------------------------------------ B03

pub fn b03p() -> Property {
    Property {
        id: "B03",
        rule: "floods of up to 180 messages of 3 publishers to 3 subscribers on a broker with 1 to 3 threads, with connections coming and going; non-trivial: distinct case in which a subscriber received more than 20 messages, or was disconnected as too slow",
        assumptions: &["order is judged per publisher, topic and QoS", "threads are scheduled by the system, not by the check"],
        subs: vec![Prop::net("flood", 6_000, races::flood, races::flood_run).boxed()],
    }
}

// ------------------------------------------------------------------ B04

/// Clients that are subscribed to everything at the start, with some of them holding back
fn delivering(w: Weights, t: bool) -> BoxedStrategy<Case> {
    let cases = profile(Profile { w, start: true, n: 50, ka: false, cap: false, bad: false }, t);
    (cases, 0u8..16, 0u8..16, 0u8..8, any::<u64>())
        .prop_map(move |(mut c, holds, subs, qos, keep)| {
            // most connections resume
            for (i, op) in c.ops.iter_mut().enumerate() {
                if let (Op::Connect { clean, expiry, .. }, true) = (op, keep >> (i % 60) & 15 != 0) {
                    *clean = false;
                    *expiry = (*expiry).filter(|e| *e > 0).or(Some(300));
                }
            }
            c.filters.insert(0, "#".into());
            let at = w.ids as usize;
            for slot in 0..w.ids {
                if subs >> slot & 1 == 1 {
                    let q = if w.qos2 && qos < 6 { 2 } else { 1 };
                    c.ops.insert(at, Op::Sub { slot, filters: vec![(0, q, false)] });
                }
                if holds >> slot & 1 == 1 {
                    c.ops.insert(at, Op::Hold { slot, hold: true });
                }
            }
            c
        })
        .boxed()
}

fn redelivery(t: bool) -> BoxedStrategy<Case> {
    let w = Weights { connect: 5, close: 4, sub: 3, unsub: 0, publish: 20, hold: 4, ack: 9, advance: 1, will: 0, ids: 3, qos2: false, ..BASE };
    delivering(w, t)
}

fn b04(c: &Case, o: &mut Obs) -> Res {
    judged(c, o, false, &["message delivered"], &["messages sent again", "late acknowledgement"])
}

pub fn b04p() -> Property {
    Property {
        id: "B04",
        rule: "histories of up to 50 operations of 4 clients (connect, disconnect in 6 ways, subscribe, unsubscribe, publish, hold and acknowledge, ping, time, violations; weighted for this property), topics and filters made from one another; non-trivial: distinct case in which messages were delivered and some acknowledged late or sent again",
        assumptions: ASSUME,
        subs: vec![
            Prop::net("redelivery", 40_000, redelivery, b04).boxed(),
            Prop::net("wrap", 120, races::wrap, races::wrap_run).boxed(),
        ],
    }
}

// ------------------------------------------------------------------ B16

fn exactly_once(t: bool) -> BoxedStrategy<Case> {
    let w = Weights { connect: 5, close: 4, sub: 3, unsub: 0, publish: 20, hold: 4, ack: 16, advance: 1, will: 0, ids: 3, ..BASE };
    delivering(w, t)
}

fn b16(c: &Case, o: &mut Obs) -> Res {
    judged(
        c,
        o,
        false,
        &["publish QoS 2"],
        &["late PUBREC", "late PUBCOMP", "late PUBREL", "QoS 2 message repeated", "PUBREL sent again", "messages sent again"],
    )
}

pub fn b16p() -> Property {
    Property {
        id: "B16",
        rule: "histories of up to 50 operations of 4 clients (connect, disconnect in 6 ways, subscribe, publish at any QoS, send QoS 2 messages again, hold, PUBACK, PUBREC, PUBREL and PUBCOMP in any order); non-trivial: distinct case with QoS 2 messages in which a step of an exchange was late, repeated or on a later connection",
        assumptions: ASSUME,
        subs: vec![Prop::net("exactly once", 40_000, exactly_once, b16).boxed()],
    }
}

// ------------------------------------------------------------------ B05

fn sessions(t: bool) -> BoxedStrategy<Case> {
    let w = Weights { connect: 9, close: 8, sub: 4, unsub: 1, publish: 5, hold: 1, ack: 0, advance: 5, will: 0, ..BASE };
    profile(Profile { w, start: false, n: 40, ka: false, cap: false, bad: false }, t)
}

fn b05(c: &Case, o: &mut Obs) -> Res {
    judged(c, o, false, &["session created"], &["session resumed", "session replaced", "takeover, resumed"])
}

pub fn b05p() -> Property {
    Property {
        id: "B05",
        rule: "histories of up to 50 operations of 4 clients (connect, disconnect in 6 ways, subscribe, unsubscribe, publish, hold and acknowledge, ping, time, violations; weighted for this property), topics and filters made from one another; non-trivial: distinct case in which an existing session was resumed, replaced or taken over",
        assumptions: ASSUME,
        subs: vec![Prop::net("sessions", 40_000, sessions, b05).boxed()],
    }
}

// ------------------------------------------------------------------ B06

fn takeover(t: bool) -> BoxedStrategy<Case> {
    let w = Weights { connect: 14, close: 2, sub: 5, unsub: 1, publish: 8, hold: 1, ack: 1, advance: 1, will: 4, ids: 2, ..BASE };
    profile(Profile { w, start: false, n: 36, ka: false, cap: false, bad: false }, t)
}

fn b06(c: &Case, o: &mut Obs) -> Res {
    judged(c, o, false, &[], &["takeover, resumed", "takeover, session ends"])
}

pub fn b06p() -> Property {
    Property {
        id: "B06",
        rule: "histories of up to 50 operations of 4 clients (connect, disconnect in 6 ways, subscribe, unsubscribe, publish, hold and acknowledge, ping, time, violations; weighted for this property), topics and filters made from one another; non-trivial: distinct case in which a connection was taken over",
        assumptions: ASSUME,
        subs: vec![
            Prop::net("takeover", 40_000, takeover, b06).boxed(),
            Prop::net("rivals", 6_000, races::rivals, races::rivals_run).boxed(),
        ],
    }
}

// ------------------------------------------------------------------ B07

fn wills(t: bool) -> BoxedStrategy<Case> {
    let w = Weights { connect: 8, close: 8, sub: 3, unsub: 1, publish: 3, hold: 0, ack: 0, advance: 7, will: 9, silent: 3, violate: 1, ka: true, ..BASE };
    profile(Profile { w, start: false, n: 40, ka: true, cap: false, bad: false }, t)
        .prop_map(|mut c| {
            c.observer = true;
            c
        })
        .boxed()
}

fn b07(c: &Case, o: &mut Obs) -> Res {
    judged(c, o, false, &[], &["will published", "delayed will published", "will published by takeover"])
}

pub fn b07p() -> Property {
    Property {
        id: "B07",
        rule: "histories of up to 50 operations of 4 clients (connect, disconnect in 6 ways, subscribe, unsubscribe, publish, hold and acknowledge, ping, time, violations; weighted for this property), topics and filters made from one another; non-trivial: distinct case in which a will was published; clients that leave with messages unread: non-trivial if one with a will disconnects normally",
        assumptions: ASSUME,
        subs: vec![Prop::net("wills", 40_000, wills, b07).boxed(), super::life::unread_sub()],
    }
}

// ------------------------------------------------------------------ B08

fn keep_alive(t: bool) -> BoxedStrategy<Case> {
    let w = Weights { connect: 8, close: 3, sub: 3, unsub: 1, publish: 6, hold: 0, ack: 0, advance: 10, ping: 6, will: 2, silent: 7, ka: true, ..BASE };
    profile(Profile { w, start: false, n: 40, ka: true, cap: false, bad: false }, t)
}

fn b08(c: &Case, o: &mut Obs) -> Res {
    judged(c, o, false, &["keep alive expired", "time passes"], &[])
}

pub fn b08p() -> Property {
    Property {
        id: "B08",
        rule: "histories of up to 50 operations of 4 clients (connect, disconnect in 6 ways, subscribe, unsubscribe, publish, hold and acknowledge, ping, time, violations; weighted for this property), topics and filters made from one another; non-trivial: distinct case in which a keep alive expired; clients that are sent more than they read: non-trivial if one stayed longer than its keep alive by sending",
        assumptions: ASSUME,
        subs: vec![Prop::net("keep-alive", 40_000, keep_alive, b08).boxed(), super::life::unreading_sub()],
    }
}

// ------------------------------------------------------------------ B09

fn capacity(t: bool) -> BoxedStrategy<Case> {
    let w = Weights { connect: 14, close: 9, sub: 1, unsub: 0, publish: 2, hold: 0, ack: 0, advance: 3, will: 1, silent: 5, violate: 2, ka: true, ..BASE };
    profile(Profile { w, start: false, n: 50, ka: true, cap: true, bad: false }, t)
}

fn b09(c: &Case, o: &mut Obs) -> Res {
    judged(c, o, false, &["refused at capacity"], &[])
}

pub fn b09p() -> Property {
    Property {
        id: "B09",
        rule: "histories of up to 50 operations of 4 clients (connect, disconnect in 6 ways, subscribe, unsubscribe, publish, hold and acknowledge, ping, time, violations; weighted for this property), topics and filters made from one another; non-trivial: distinct case in which a connection was refused at capacity",
        assumptions: ASSUME,
        subs: vec![Prop::net("capacity", 40_000, capacity, b09).boxed()],
    }
}

// ------------------------------------------------------------------ B10

pub fn b10p() -> Property {
    Property {
        id: "B10",
        rule: "a case counts if a hostile or stalled client did its worst",
        assumptions: ASSUME,
        subs: vec![
            Prop::net("stalled", 300, broker2::stalled, broker2::stalled_run).boxed(),
            Prop::net("hostile", 12_000, hostile::many, hostile::run).boxed(),
            Prop::net("deep", 600, broker2::deep, broker2::deep_run).boxed(),
        ],
    }
}

// ------------------------------------------------------------------ B11

fn negotiation(t: bool) -> BoxedStrategy<Case> {
    let w = Weights { connect: 12, close: 6, sub: 1, unsub: 0, publish: 1, hold: 0, ack: 0, advance: 4, will: 1, silent: 5, ka: true, ..BASE };
    profile(Profile { w, start: false, n: 20, ka: true, cap: false, bad: false }, t)
}

fn b11(c: &Case, o: &mut Obs) -> Res {
    judged(c, o, true, &["session created"], &[])
}

pub fn b11p() -> Property {
    Property {
        id: "B11",
        rule: "histories of up to 50 operations of 4 clients (connect, disconnect in 6 ways, subscribe, unsubscribe, publish, hold and acknowledge, ping, time, violations; weighted for this property), topics and filters made from one another; non-trivial: distinct case in which a session was created",
        assumptions: ASSUME,
        subs: vec![Prop::net("negotiation", 40_000, negotiation, b11).boxed()],
    }
}

// ------------------------------------------------------------------ B12

fn violations(t: bool) -> BoxedStrategy<Case> {
    let w = Weights { connect: 9, close: 2, sub: 5, unsub: 1, publish: 8, hold: 0, ack: 0, advance: 1, will: 3, violate: 8, ..BASE };
    profile(Profile { w, start: true, n: 36, ka: false, cap: false, bad: false }, t)
}

fn b12(c: &Case, o: &mut Obs) -> Res {
    judged(c, o, false, &["protocol violation"], &[])
}

pub fn b12p() -> Property {
    Property {
        id: "B12",
        rule: "histories of up to 50 operations of 4 clients (connect, disconnect in 6 ways, subscribe, unsubscribe, publish, hold and acknowledge, ping, time, violations; weighted for this property), topics and filters made from one another; non-trivial: distinct case in which a client broke the protocol",
        assumptions: ASSUME,
        subs: vec![
            Prop::net("violations", 40_000, violations, b12).boxed(),
            Prop::net("bytes", 30_000, hostile::one, hostile::run).boxed(),
        ],
    }
}
