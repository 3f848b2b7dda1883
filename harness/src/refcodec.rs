//! An MQTT 5 packet model with an encoder and a strict decoder, written from the OASIS standard
//! and sharing no code with the codec under test. It is the oracle of the codec checks and the
//! wire format of the fake clients and brokers.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Val {
    Byte(u8),
    U16(u16),
    U32(u32),
    Var(u32),
    Str(String),
    Bin(Vec<u8>),
    Pair(String, String),
}

pub type Props = Vec<(u8, Val)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Will {
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
    pub topic: String,
    #[serde(with = "crate::hex")]
    pub payload: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Connect {
    pub clean: bool,
    pub keep_alive: u16,
    pub props: Props,
    pub client_id: String,
    pub will: Option<Will>,
    pub username: Option<String>,
    pub password: Option<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Publish {
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub topic: String,
    pub id: u16,
    pub props: Props,
    #[serde(with = "crate::hex")]
    pub payload: Vec<u8>,
}

/// Subscription options
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Filter {
    pub filter: String,
    pub qos: u8,
    pub no_local: bool,
    pub rap: bool,
    pub rh: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Pk {
    Connect(Connect),
    ConnAck { present: bool, reason: u8, props: Props },
    Publish(Publish),
    /// kind 4 PUBACK, 5 PUBREC, 6 PUBREL, 7 PUBCOMP
    Ack { kind: u8, id: u16, reason: u8, props: Props },
    Subscribe { id: u16, props: Props, filters: Vec<Filter> },
    SubAck { id: u16, props: Props, reasons: Vec<u8> },
    Unsubscribe { id: u16, props: Props, filters: Vec<String> },
    UnsubAck { id: u16, props: Props, reasons: Vec<u8> },
    PingReq,
    PingResp,
    Disconnect { reason: u8, props: Props },
}

/// where a property is allowed
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum At {
    Connect,
    Will,
    ConnAck,
    Publish,
    Ack,
    Subscribe,
    SubAck,
    Unsubscribe,
    UnsubAck,
    Disconnect,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Byte,
    Bool,
    U16,
    U32,
    Var,
    Str,
    Bin,
    Pair,
}

/// MQTT 5, table 2-4
pub const TABLE: &[(u8, Ty, &[At])] = &[
    (0x01, Ty::Bool, &[At::Publish, At::Will]),
    (0x02, Ty::U32, &[At::Publish, At::Will]),
    (0x03, Ty::Str, &[At::Publish, At::Will]),
    (0x08, Ty::Str, &[At::Publish, At::Will]),
    (0x09, Ty::Bin, &[At::Publish, At::Will]),
    (0x0b, Ty::Var, &[At::Publish, At::Subscribe]),
    (0x11, Ty::U32, &[At::Connect, At::ConnAck, At::Disconnect]),
    (0x12, Ty::Str, &[At::ConnAck]),
    (0x13, Ty::U16, &[At::ConnAck]),
    (0x15, Ty::Str, &[At::Connect, At::ConnAck]),
    (0x16, Ty::Bin, &[At::Connect, At::ConnAck]),
    (0x17, Ty::Bool, &[At::Connect]),
    (0x18, Ty::U32, &[At::Will]),
    (0x19, Ty::Bool, &[At::Connect]),
    (0x1a, Ty::Str, &[At::ConnAck]),
    (0x1c, Ty::Str, &[At::ConnAck, At::Disconnect]),
    (0x1f, Ty::Str, &[At::ConnAck, At::Ack, At::SubAck, At::UnsubAck, At::Disconnect]),
    (0x21, Ty::U16, &[At::Connect, At::ConnAck]),
    (0x22, Ty::U16, &[At::Connect, At::ConnAck]),
    (0x23, Ty::U16, &[At::Publish]),
    (0x24, Ty::Bool, &[At::ConnAck]),
    (0x25, Ty::Bool, &[At::ConnAck]),
    (
        0x26,
        Ty::Pair,
        &[
            At::Connect,
            At::Will,
            At::ConnAck,
            At::Publish,
            At::Ack,
            At::Subscribe,
            At::SubAck,
            At::Unsubscribe,
            At::UnsubAck,
            At::Disconnect,
        ],
    ),
    (0x27, Ty::U32, &[At::Connect, At::ConnAck]),
    (0x28, Ty::Bool, &[At::ConnAck]),
    (0x29, Ty::Bool, &[At::ConnAck]),
    (0x2a, Ty::Bool, &[At::ConnAck]),
];

pub fn allowed(at: At) -> Vec<(u8, Ty)> {
    TABLE.iter().filter(|(_, _, p)| p.contains(&at)).map(|(i, t, _)| (*i, *t)).collect()
}

/// Reason codes the standard lists for each packet
pub fn reasons(first_byte_kind: u8) -> &'static [u8] {
    match first_byte_kind {
        2 => &[
            0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90,
            0x95, 0x97, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9f,
        ],
        4 | 5 => &[0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
        6 | 7 => &[0x00, 0x92],
        9 => &[0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2],
        11 => &[0x00, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91],
        14 => &[
            0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8b, 0x8d, 0x8e, 0x8f, 0x90, 0x93,
            0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1,
            0xa2,
        ],
        _ => &[],
    }
}

// ---------------------------------------------------------------- encoding

pub fn put_var(out: &mut Vec<u8>, mut v: u32) {
    loop {
        let b = (v % 128) as u8;
        v /= 128;
        if v > 0 {
            out.push(b | 0x80);
        } else {
            out.push(b);
            return;
        }
    }
}

fn put_u16(out: &mut Vec<u8>, v: u16) {
    out.extend_from_slice(&v.to_be_bytes());
}

fn put_bin(out: &mut Vec<u8>, v: &[u8]) {
    put_u16(out, v.len() as u16);
    out.extend_from_slice(v);
}

pub fn put_prop(out: &mut Vec<u8>, id: u8, v: &Val) {
    out.push(id);
    match v {
        Val::Byte(b) => out.push(*b),
        Val::U16(v) => put_u16(out, *v),
        Val::U32(v) => out.extend_from_slice(&v.to_be_bytes()),
        Val::Var(v) => put_var(out, *v),
        Val::Str(s) => put_bin(out, s.as_bytes()),
        Val::Bin(b) => put_bin(out, b),
        Val::Pair(k, v) => {
            put_bin(out, k.as_bytes());
            put_bin(out, v.as_bytes());
        }
    }
}

fn put_props(out: &mut Vec<u8>, props: &Props) {
    let mut p = Vec::new();
    for (id, v) in props {
        put_prop(&mut p, *id, v);
    }
    put_var(out, p.len() as u32);
    out.extend_from_slice(&p);
}

pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut out = vec![first];
    put_var(&mut out, body.len() as u32);
    out.extend_from_slice(body);
    out
}

impl Pk {
    pub fn kind(&self) -> u8 {
        match self {
            Pk::Connect(_) => 1,
            Pk::ConnAck { .. } => 2,
            Pk::Publish(_) => 3,
            Pk::Ack { kind, .. } => *kind,
            Pk::Subscribe { .. } => 8,
            Pk::SubAck { .. } => 9,
            Pk::Unsubscribe { .. } => 10,
            Pk::UnsubAck { .. } => 11,
            Pk::PingReq => 12,
            Pk::PingResp => 13,
            Pk::Disconnect { .. } => 14,
        }
    }

    pub fn name(&self) -> &'static str {
        [
            "RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP",
            "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT",
        ][self.kind() as usize]
    }

    /// The encoding, in the shortest form the standard allows
    pub fn encode(&self) -> Vec<u8> {
        self.encode_form(0)
    }

    /// `form` 1: write the reason code even if it may be left out; 2: and the property length
    pub fn encode_form(&self, form: u8) -> Vec<u8> {
        let mut b = Vec::new();
        let mut flags = 0u8;
        match self {
            Pk::Connect(c) => {
                put_bin(&mut b, b"MQTT");
                b.push(5);
                let mut f = (c.clean as u8) << 1;
                if let Some(w) = &c.will {
                    f |= 0x04 | w.qos << 3 | (w.retain as u8) << 5;
                }
                f |= (c.username.is_some() as u8) << 7 | (c.password.is_some() as u8) << 6;
                b.push(f);
                put_u16(&mut b, c.keep_alive);
                put_props(&mut b, &c.props);
                put_bin(&mut b, c.client_id.as_bytes());
                if let Some(w) = &c.will {
                    put_props(&mut b, &w.props);
                    put_bin(&mut b, w.topic.as_bytes());
                    put_bin(&mut b, &w.payload);
                }
                if let Some(u) = &c.username {
                    put_bin(&mut b, u.as_bytes());
                }
                if let Some(p) = &c.password {
                    put_bin(&mut b, p);
                }
            }
            Pk::ConnAck { present, reason, props } => {
                b.push(*present as u8);
                b.push(*reason);
                put_props(&mut b, props);
            }
            Pk::Publish(p) => {
                flags = (p.dup as u8) << 3 | p.qos << 1 | p.retain as u8;
                put_bin(&mut b, p.topic.as_bytes());
                if p.qos > 0 {
                    put_u16(&mut b, p.id);
                }
                put_props(&mut b, &p.props);
                b.extend_from_slice(&p.payload);
            }
            Pk::Ack { kind, id, reason, props } => {
                if *kind == 6 {
                    flags = 2;
                }
                put_u16(&mut b, *id);
                if *reason != 0 || !props.is_empty() || form > 0 {
                    b.push(*reason);
                }
                if !props.is_empty() || form > 1 {
                    put_props(&mut b, props);
                }
            }
            Pk::Subscribe { id, props, filters } => {
                flags = 2;
                put_u16(&mut b, *id);
                put_props(&mut b, props);
                for f in filters {
                    put_bin(&mut b, f.filter.as_bytes());
                    b.push(f.qos | (f.no_local as u8) << 2 | (f.rap as u8) << 3 | f.rh << 4);
                }
            }
            Pk::SubAck { id, props, reasons } | Pk::UnsubAck { id, props, reasons } => {
                put_u16(&mut b, *id);
                put_props(&mut b, props);
                b.extend_from_slice(reasons);
            }
            Pk::Unsubscribe { id, props, filters } => {
                flags = 2;
                put_u16(&mut b, *id);
                put_props(&mut b, props);
                for f in filters {
                    put_bin(&mut b, f.as_bytes());
                }
            }
            Pk::PingReq | Pk::PingResp => {}
            Pk::Disconnect { reason, props } => {
                if *reason != 0 || !props.is_empty() || form > 0 {
                    b.push(*reason);
                }
                if !props.is_empty() || form > 1 {
                    put_props(&mut b, props);
                }
            }
        }
        frame(self.kind() << 4 | flags, &b)
    }

    /// The packet with what the wire format leaves open normalised: the order of different
    /// properties (the order of user properties is significant)
    pub fn canonical(&self) -> Pk {
        let mut p = self.clone();
        for props in p.props_mut() {
            props.sort_by_key(|(id, _)| *id);
        }
        p
    }

    pub fn props_mut(&mut self) -> Vec<&mut Props> {
        match self {
            Pk::Connect(c) => {
                let mut v = vec![&mut c.props];
                if let Some(w) = &mut c.will {
                    v.push(&mut w.props);
                }
                v
            }
            Pk::ConnAck { props, .. }
            | Pk::Ack { props, .. }
            | Pk::Subscribe { props, .. }
            | Pk::SubAck { props, .. }
            | Pk::Unsubscribe { props, .. }
            | Pk::UnsubAck { props, .. }
            | Pk::Disconnect { props, .. } => vec![props],
            Pk::Publish(p) => vec![&mut p.props],
            Pk::PingReq | Pk::PingResp => vec![],
        }
    }
}

// ---------------------------------------------------------------- decoding

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecErr {
    /// more bytes are needed
    Short,
    Malformed(String),
}

fn bad<T>(s: impl Into<String>) -> Result<T, DecErr> {
    Err(DecErr::Malformed(s.into()))
}

struct Cur<'a>(&'a [u8]);

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], DecErr> {
        if self.0.len() < n {
            return bad(format!("need {n} bytes, have {}", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u8(&mut self) -> Result<u8, DecErr> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> Result<u16, DecErr> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    fn u32(&mut self) -> Result<u32, DecErr> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn bin(&mut self) -> Result<Vec<u8>, DecErr> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn str(&mut self) -> Result<String, DecErr> {
        String::from_utf8(self.bin()?).map_err(|e| DecErr::Malformed(e.to_string()))
    }
    fn var(&mut self) -> Result<u32, DecErr> {
        let mut v = 0u32;
        for i in 0..4 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u32) << (7 * i);
            if b & 0x80 == 0 {
                return Ok(v);
            }
        }
        bad("variable byte integer longer than four bytes")
    }
    fn props(&mut self, at: At) -> Result<Props, DecErr> {
        let n = self.var()? as usize;
        let mut c = Cur(self.take(n)?);
        let mut props: Props = Vec::new();
        while !c.0.is_empty() {
            let id = c.u8()?;
            let Some((_, ty, places)) = TABLE.iter().find(|(i, _, _)| *i == id) else {
                return bad(format!("unknown property {id:#x}"));
            };
            if !places.contains(&at) {
                return bad(format!("property {id:#x} not allowed in {at:?}"));
            }
            let v = match ty {
                Ty::Byte => Val::Byte(c.u8()?),
                Ty::Bool => {
                    let b = c.u8()?;
                    if b > 1 {
                        return bad(format!("property {id:#x} value {b}"));
                    }
                    Val::Byte(b)
                }
                Ty::U16 => Val::U16(c.u16()?),
                Ty::U32 => Val::U32(c.u32()?),
                Ty::Var => Val::Var(c.var()?),
                Ty::Str => Val::Str(c.str()?),
                Ty::Bin => Val::Bin(c.bin()?),
                Ty::Pair => {
                    let k = c.str()?;
                    Val::Pair(k, c.str()?)
                }
            };
            props.push((id, v));
        }
        Ok(props)
    }
}

/// Reads the fixed header: first byte, header length, remaining length
pub fn header(src: &[u8]) -> Result<(u8, usize, usize), DecErr> {
    if src.is_empty() {
        return Err(DecErr::Short);
    }
    let mut v = 0usize;
    for i in 0..4 {
        let Some(b) = src.get(1 + i) else { return Err(DecErr::Short) };
        v |= ((b & 0x7f) as usize) << (7 * i);
        if b & 0x80 == 0 {
            return Ok((src[0], 2 + i, v));
        }
    }
    bad("remaining length")
}

/// Decodes one packet from the start of `src`, returns it and its length
pub fn decode(src: &[u8]) -> Result<(Pk, usize), DecErr> {
    let (first, hl, rl) = header(src)?;
    if src.len() < hl + rl {
        return Err(DecErr::Short);
    }
    let mut c = Cur(&src[hl..hl + rl]);
    let kind = first >> 4;
    let flags = first & 0x0f;
    let want = match kind {
        3 => flags,
        6 | 8 | 10 => 2,
        _ => 0,
    };
    if flags != want {
        return bad(format!("flags {flags:#x} of packet type {kind}"));
    }
    let p = match kind {
        1 => {
            if c.bin()? != b"MQTT" || c.u8()? != 5 {
                return bad("protocol");
            }
            let f = c.u8()?;
            let will = f & 0x04 != 0;
            let wq = f >> 3 & 3;
            if f & 1 != 0 || wq == 3 || (!will && f & 0x38 != 0) {
                return bad(format!("connect flags {f:#x}"));
            }
            let keep_alive = c.u16()?;
            let props = c.props(At::Connect)?;
            let client_id = c.str()?;
            let will = if will {
                let props = c.props(At::Will)?;
                let topic = c.str()?;
                Some(Will { qos: wq, retain: f & 0x20 != 0, props, topic, payload: c.bin()? })
            } else {
                None
            };
            let username = if f & 0x80 != 0 { Some(c.str()?) } else { None };
            let password = if f & 0x40 != 0 { Some(c.bin()?) } else { None };
            Pk::Connect(Connect {
                clean: f & 2 != 0,
                keep_alive,
                props,
                client_id,
                will,
                username,
                password,
            })
        }
        2 => {
            let a = c.u8()?;
            if a > 1 {
                return bad("connack flags");
            }
            let reason = c.u8()?;
            Pk::ConnAck { present: a == 1, reason, props: c.props(At::ConnAck)? }
        }
        3 => {
            let qos = flags >> 1 & 3;
            if qos == 3 {
                return bad("qos 3");
            }
            let topic = c.str()?;
            let id = if qos > 0 { c.u16()? } else { 0 };
            let props = c.props(At::Publish)?;
            let payload = c.take(c.0.len())?.to_vec();
            Pk::Publish(Publish {
                dup: flags & 8 != 0,
                qos,
                retain: flags & 1 != 0,
                topic,
                id,
                props,
                payload,
            })
        }
        4..=7 => {
            let id = c.u16()?;
            let reason = if c.0.is_empty() { 0 } else { c.u8()? };
            let props = if c.0.is_empty() { vec![] } else { c.props(At::Ack)? };
            Pk::Ack { kind, id, reason, props }
        }
        8 => {
            let id = c.u16()?;
            let props = c.props(At::Subscribe)?;
            let mut filters = vec![];
            while !c.0.is_empty() {
                let filter = c.str()?;
                let o = c.u8()?;
                if o & 0xc0 != 0 || o & 3 == 3 || o >> 4 == 3 {
                    return bad("subscription options");
                }
                filters.push(Filter {
                    filter,
                    qos: o & 3,
                    no_local: o & 4 != 0,
                    rap: o & 8 != 0,
                    rh: o >> 4,
                });
            }
            Pk::Subscribe { id, props, filters }
        }
        9 | 11 => {
            let id = c.u16()?;
            let props = c.props(if kind == 9 { At::SubAck } else { At::UnsubAck })?;
            let reasons = c.take(c.0.len())?.to_vec();
            if kind == 9 {
                Pk::SubAck { id, props, reasons }
            } else {
                Pk::UnsubAck { id, props, reasons }
            }
        }
        10 => {
            let id = c.u16()?;
            let props = c.props(At::Unsubscribe)?;
            let mut filters = vec![];
            while !c.0.is_empty() {
                filters.push(c.str()?);
            }
            Pk::Unsubscribe { id, props, filters }
        }
        12 => Pk::PingReq,
        13 => Pk::PingResp,
        14 => {
            let reason = if c.0.is_empty() { 0 } else { c.u8()? };
            let props = if c.0.is_empty() { vec![] } else { c.props(At::Disconnect)? };
            Pk::Disconnect { reason, props }
        }
        _ => return bad(format!("packet type {kind}")),
    };
    if !c.0.is_empty() {
        return bad(format!("{} bytes after the packet's fields", c.0.len()));
    }
    strict(&p)?;
    Ok((p, hl + rl))
}

/// What the standard calls malformed or a protocol error within one packet of sound layout
fn strict(p: &Pk) -> Result<(), DecErr> {
    let mut q = p.clone();
    for props in q.props_mut() {
        let mut ids: Vec<u8> = props.iter().map(|x| x.0).collect();
        ids.retain(|i| *i != 0x26 && (*i != 0x0b || !matches!(p, Pk::Publish(_))));
        ids.sort();
        if ids.windows(2).any(|x| x[0] == x[1]) {
            return bad("repeated property");
        }
        for (i, v) in props.iter() {
            match (i, v) {
                (0x0b, Val::Var(0)) | (0x21, Val::U16(0)) | (0x27, Val::U32(0)) => {
                    return bad(format!("property {i:#x} of 0"))
                }
                _ => (),
            }
        }
    }
    match p {
        Pk::Publish(m) if m.qos > 0 && m.id == 0 => bad("packet identifier 0"),
        Pk::Ack { id: 0, .. }
        | Pk::Subscribe { id: 0, .. }
        | Pk::SubAck { id: 0, .. }
        | Pk::Unsubscribe { id: 0, .. }
        | Pk::UnsubAck { id: 0, .. } => bad("packet identifier 0"),
        Pk::Subscribe { filters, .. } if filters.is_empty() => bad("no filter"),
        Pk::Unsubscribe { filters, .. } if filters.is_empty() => bad("no filter"),
        _ => Ok(()),
    }
}

/// The value of the first property with the identifier
pub fn prop(props: &Props, id: u8) -> Option<&Val> {
    props.iter().find(|(i, _)| *i == id).map(|(_, v)| v)
}
