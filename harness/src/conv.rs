//! Builds vaux packets from the model through the public interface of the crate
use crate::refcodec::*;
use bytes::{Bytes, BytesMut};
use vaux_mqtt::codec::{Encode, Packet, Reason};
use vaux_mqtt::property::UserProperty;
use vaux_mqtt::publish::PayloadFormat;
use vaux_mqtt::subscribe::{RetainHandling, SubAck, SubscriptionFilter};
use vaux_mqtt::unsubscribe::{UnsubAck, Unsubscribe};
use vaux_mqtt::{
    codec, ConnAck, Disconnect, FixedHeader, PacketType, PubAck, Publish, QoSLevel, Subscribe,
    WillMessage,
};

pub fn qos(q: u8) -> QoSLevel {
    match q {
        0 => QoSLevel::AtMostOnce,
        1 => QoSLevel::AtLeastOnce,
        _ => QoSLevel::ExactlyOnce,
    }
}

pub fn reason(r: u8) -> Reason {
    Reason::try_from(r).expect("generated reason")
}

fn user(props: &Props) -> UserProperty {
    let mut u = UserProperty::new();
    for (_, v) in props {
        if let Val::Pair(k, v) = v {
            u.add(k.clone(), v.clone());
        }
    }
    u
}

fn s(p: &Props, id: u8) -> Option<String> {
    match prop(p, id) {
        Some(Val::Str(s)) => Some(s.clone()),
        _ => None,
    }
}
fn bin(p: &Props, id: u8) -> Vec<u8> {
    match prop(p, id) {
        Some(Val::Bin(b)) => b.clone(),
        _ => vec![],
    }
}
fn u16v(p: &Props, id: u8) -> Option<u16> {
    match prop(p, id) {
        Some(Val::U16(v)) => Some(*v),
        _ => None,
    }
}
fn u32v(p: &Props, id: u8) -> Option<u32> {
    match prop(p, id) {
        Some(Val::U32(v)) | Some(Val::Var(v)) => Some(*v),
        _ => None,
    }
}
fn byte(p: &Props, id: u8) -> Option<u8> {
    match prop(p, id) {
        Some(Val::Byte(v)) => Some(*v),
        _ => None,
    }
}
fn boolean(p: &Props, id: u8) -> Option<bool> {
    byte(p, id).map(|b| b != 0)
}
fn format(p: &Props) -> Option<PayloadFormat> {
    byte(p, 1).map(|b| if b == 0 { PayloadFormat::Bin } else { PayloadFormat::Utf8 })
}

pub fn will_message(w: &Will) -> WillMessage {
    let mut m = WillMessage::new(w.topic.clone(), &w.payload, qos(w.qos), w.retain);
    m.header.will_delay = u32v(&w.props, 0x18);
    m.header.payload_format = format(&w.props);
    m.header.message_expiry = u32v(&w.props, 2);
    m.header.content_type = s(&w.props, 3);
    m.header.response_topic = s(&w.props, 8);
    m.header.correlation_data = bin(&w.props, 9);
    m.header.user_properties = user(&w.props);
    m
}

/// None if the public interface cannot express the packet (properties of acknowledgements)
pub fn build(p: &Pk) -> Option<Packet> {
    Some(match p {
        Pk::Connect(c) => {
            let mut o = vaux_mqtt::Connect::new();
            o.set_clean_start(c.clean);
            o.keep_alive = c.keep_alive;
            o.client_id = c.client_id.clone();
            o.session_expiry_interval = u32v(&c.props, 0x11);
            o.receive_maximum = u16v(&c.props, 0x21);
            o.max_packet_size = u32v(&c.props, 0x27);
            o.topic_alias_maximum = u16v(&c.props, 0x22);
            o.request_response_info = boolean(&c.props, 0x19);
            o.request_problem_info = boolean(&c.props, 0x17);
            o.auth_method = s(&c.props, 0x15);
            o.auth_data = bin(&c.props, 0x16);
            o.user_properties = user(&c.props);
            if let Some(w) = &c.will {
                o.set_will_message(will_message(w));
            }
            if c.username.is_some() {
                o.set_username(c.username.clone());
            }
            if c.password.is_some() {
                o.set_password(c.password.clone());
            }
            Packet::Connect(Box::new(o))
        }
        Pk::ConnAck { present, reason: r, props } => {
            let mut o = ConnAck::default();
            o.set_session_present(*present);
            o.reason = reason(*r);
            o.session_expiry_interval = u32v(props, 0x11);
            o.receive_maximum = u16v(props, 0x21);
            o.maximum_qos = byte(props, 0x24).map(qos);
            o.retain_available = boolean(props, 0x25);
            o.maximum_packet_size = u32v(props, 0x27);
            o.assigned_client_id = s(props, 0x12);
            o.topic_alias_maximum = u16v(props, 0x22);
            o.reason_string = s(props, 0x1f);
            o.subscription_identifier_available = boolean(props, 0x29);
            o.user_properties = user(props);
            o.wildcard_subscription_available = boolean(props, 0x28);
            o.shared_subscription_available = boolean(props, 0x2a);
            o.server_keep_alive = u16v(props, 0x13);
            o.response_information = s(props, 0x1a);
            o.server_reference = s(props, 0x1c);
            o.auth_method = s(props, 0x15);
            o.auth_data = bin(props, 0x16);
            Packet::ConnAck(o)
        }
        Pk::Publish(p) => Packet::Publish(publish(p)),
        Pk::Ack { kind, id, reason: r, props } => {
            if !props.is_empty() {
                return None;
            }
            let mut o = match kind {
                4 => PubAck::new_puback_with_packet_id(*id),
                5 => PubAck::new_pubrec_with_packet_id(*id),
                6 => PubAck::new_pubrel_with_packet_id(*id),
                _ => PubAck::new_pubcomp_with_packet_id(*id),
            };
            if *r != 0 && o.set_reason(reason(*r)).is_err() {
                return None;
            }
            match kind {
                4 => Packet::PubAck(o),
                5 => Packet::PubRec(o),
                6 => Packet::PubRel(o),
                _ => Packet::PubComp(o),
            }
        }
        Pk::Subscribe { id, props, filters } => {
            let mut o = Subscribe::new_with_packet_id(*id);
            o.subscription_id = u32v(props, 0x0b);
            o.user_props = user(props);
            for f in filters {
                o.add_filter(filter(f));
            }
            Packet::Subscribe(o)
        }
        Pk::SubAck { id, props, reasons } => {
            let mut o = SubAck::new_with_packet_id(*id).ok()?;
            o.reason = s(props, 0x1f);
            o.user_properties = user(props);
            o.reason_codes = reasons.iter().map(|r| reason(*r)).collect();
            Packet::SubAck(o)
        }
        Pk::Unsubscribe { id, props, filters } => {
            let mut o = Unsubscribe::new(*id, filters.clone());
            o.props = user(props);
            Packet::Unsubscribe(o)
        }
        Pk::UnsubAck { id, props, reasons } => {
            let mut o = UnsubAck::default();
            o.packet_id = *id;
            o.reason = s(props, 0x1f).unwrap_or_default();
            o.user_properties = user(props);
            o.reason_code = reasons.iter().map(|r| reason(*r)).collect();
            Packet::UnsubAck(o)
        }
        Pk::PingReq => Packet::PingRequest(vaux_mqtt::PingReq::default()),
        Pk::PingResp => Packet::PingResponse(vaux_mqtt::PingResp::default()),
        Pk::Disconnect { reason: r, props } => {
            let mut o = Disconnect::new(reason(*r));
            o.session_expiry_interval = u32v(props, 0x11);
            o.reason_string = s(props, 0x1f);
            o.server_reference = s(props, 0x1c);
            o.user_properties = user(props);
            Packet::Disconnect(o)
        }
    })
}

pub fn filter(f: &Filter) -> SubscriptionFilter {
    let mut o = SubscriptionFilter::new(f.filter.clone(), qos(f.qos));
    o.set_no_local(f.no_local);
    o.set_retain_as_published(f.rap);
    o.set_retain_handling(match f.rh {
        0 => RetainHandling::Send,
        1 => RetainHandling::SendNew,
        _ => RetainHandling::None,
    });
    o
}

pub fn publish(p: &crate::refcodec::Publish) -> Publish {
    let mut o =
        Publish::new_from_header(FixedHeader::new(PacketType::Publish)).expect("publish header");
    o.topic_name = p.topic.clone();
    o.set_qos(qos(p.qos));
    if p.qos > 0 {
        o.set_packet_id(Some(p.id)).expect("packet id at QoS > 0");
        o.set_dup(p.dup).expect("DUP at QoS > 0");
    }
    o.set_retain(p.retain);
    o.message_expiry = u32v(&p.props, 2);
    o.payload_format = format(&p.props);
    o.topic_alias = u16v(&p.props, 0x23);
    o.response_topic = s(&p.props, 8);
    o.correlation_data = bin(&p.props, 9);
    o.subscription_identifiers = u32v(&p.props, 0x0b);
    o.content_type = s(&p.props, 3);
    o.user_properties = user(&p.props);
    o.payload = Some(Bytes::from(p.payload.clone()));
    o
}

pub fn encode(p: &Packet) -> Result<Vec<u8>, String> {
    let mut b = BytesMut::new();
    p.encode(&mut b).map_err(|e| e.to_string())?;
    Ok(b.to_vec())
}

pub fn decode(b: &[u8]) -> Result<(Packet, usize), vaux_mqtt::MqttCodecError> {
    let mut src = BytesMut::from(b);
    match codec::decode(&mut src) {
        Ok(Some(r)) => Ok(r),
        Ok(None) => Err(vaux_mqtt::MqttCodecError::new_with_kind(
            "no packet",
            codec::ErrorKind::InsufficientData(0, b.len()),
        )),
        Err(e) => Err(e),
    }
}
