// A server for one client connection after the other, packet by packet
#![allow(dead_code)]
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::time::Duration;

pub fn listen() -> (TcpListener, u16) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    (l, port)
}

pub fn text(s: &str) -> Vec<u8> {
    let mut v = (s.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(s.as_bytes());
    v
}

pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    let mut n = body.len();
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n == 0 {
            v.push(b);
            break;
        }
        v.push(b | 0x80);
    }
    v.extend_from_slice(body);
    v
}

/// PUBLISH; the packet identifier 0 stands for none
pub fn publish(qos: u8, id: u16, topic: &str, payload: &[u8]) -> Vec<u8> {
    let mut b = text(topic);
    if qos > 0 {
        b.extend_from_slice(&id.to_be_bytes());
    }
    b.push(0);
    b.extend_from_slice(payload);
    frame(0x30 | qos << 1, &b)
}

pub struct Conn(pub TcpStream);

impl Conn {
    /// Takes a connection and its CONNECT, answers with CONNACK
    pub fn accept(l: &TcpListener, present: bool, props: &[u8]) -> (Conn, Vec<u8>) {
        let (s, _) = l.accept().unwrap();
        s.set_nodelay(true).unwrap();
        let mut c = Conn(s);
        let connect = c.recv(10_000).expect("no CONNECT");
        assert_eq!(connect[0], 0x10);
        let mut b = vec![present as u8, 0, props.len() as u8];
        b.extend_from_slice(props);
        c.send(&frame(0x20, &b));
        (c, connect)
    }
    pub fn send(&mut self, b: &[u8]) {
        self.0.write_all(b).unwrap();
    }
    fn byte(&mut self) -> Option<u8> {
        let mut b = [0u8; 1];
        match self.0.read(&mut b) {
            Ok(1) => Some(b[0]),
            _ => None,
        }
    }
    /// The next packet; None at the end or after the time
    pub fn recv(&mut self, ms: u64) -> Option<Vec<u8>> {
        self.0.set_read_timeout(Some(Duration::from_millis(ms))).unwrap();
        let mut v = vec![self.byte()?];
        let (mut n, mut shift) = (0usize, 0);
        loop {
            let b = self.byte()?;
            v.push(b);
            n |= ((b & 0x7f) as usize) << shift;
            shift += 7;
            if b & 0x80 == 0 {
                break;
            }
        }
        let at = v.len();
        v.resize(at + n, 0);
        self.0.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
        self.0.read_exact(&mut v[at..]).ok()?;
        Some(v)
    }
}

pub fn wait(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms));
}
