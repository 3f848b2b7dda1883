//! byte strings as hex in replay files
use serde::{Deserialize, Deserializer, Serializer};

pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
    s.serialize_str(&enc(v))
}

pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    let s = String::deserialize(d)?;
    if s.len() % 2 != 0 || !s.is_ascii() {
        return Err(serde::de::Error::custom("hex"));
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom))
        .collect()
}

pub fn enc(v: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(v.len() * 2);
    for b in v {
        s.push(D[(b >> 4) as usize] as char);
        s.push(D[(b & 15) as usize] as char);
    }
    s
}

pub fn short(v: &[u8]) -> String {
    if v.len() <= 64 {
        enc(v)
    } else {
        format!("{}.. ({} bytes)", enc(&v[..48]), v.len())
    }
}
