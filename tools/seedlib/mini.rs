// A broker on a free loopback port and bare MQTT clients for it
#![allow(dead_code)]
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::time::Duration;

pub struct Running {
    pub rt: tokio::runtime::Runtime,
    pub broker: vaux_broker::Broker,
    pub addr: SocketAddr,
}

pub fn broker(f: impl Fn(&mut vaux_broker::Config)) -> Running {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    for _ in 0..20 {
        let addr = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
        let mut cfg = vaux_broker::Config { listen_addr: addr, default_keep_alive: Duration::ZERO, ..Default::default() };
        f(&mut cfg);
        let mut broker = vaux_broker::Broker::new_with_config(cfg);
        if rt.block_on(broker.run()).is_ok() {
            return Running { rt, broker, addr };
        }
    }
    panic!("no port");
}

pub fn text(s: &str) -> Vec<u8> {
    let mut v = (s.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(s.as_bytes());
    v
}

pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    let mut n = body.len();
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n == 0 {
            v.push(b);
            break;
        }
        v.push(b | 0x80);
    }
    v.extend_from_slice(body);
    v
}

pub struct Will {
    pub topic: &'static str,
    pub payload: &'static [u8],
    /// encoded will properties
    pub props: Vec<u8>,
}

pub struct Client(pub TcpStream);

impl Client {
    /// Connects; true if the session was present
    pub fn connect(addr: SocketAddr, id: &str, clean: bool, ka: u16, expiry: Option<u32>, will: Option<Will>) -> (Client, bool) {
        let s = TcpStream::connect(addr).unwrap();
        s.set_nodelay(true).unwrap();
        let mut c = Client(s);
        let mut b = text("MQTT");
        b.push(5);
        b.push(if clean { 2 } else { 0 } | if will.is_some() { 4 } else { 0 });
        b.extend_from_slice(&ka.to_be_bytes());
        match expiry {
            Some(e) => {
                b.push(5);
                b.push(0x11);
                b.extend_from_slice(&e.to_be_bytes());
            }
            None => b.push(0),
        }
        b.extend_from_slice(&text(id));
        if let Some(w) = will {
            b.push(w.props.len() as u8);
            b.extend_from_slice(&w.props);
            b.extend_from_slice(&text(w.topic));
            b.extend_from_slice(&(w.payload.len() as u16).to_be_bytes());
            b.extend_from_slice(w.payload);
        }
        c.send(&frame(0x10, &b));
        let ack = c.recv(5000).expect("CONNACK");
        assert_eq!(ack[0], 0x20, "CONNACK");
        assert_eq!(ack[3], 0, "connection refused");
        (c, ack[2] == 1)
    }
    pub fn send(&mut self, b: &[u8]) {
        self.0.write_all(b).unwrap();
    }
    /// Subscribes with the options byte; waits for the SUBACK
    pub fn subscribe(&mut self, filter: &str, options: u8) {
        let mut b = vec![0, 9, 0];
        b.extend_from_slice(&text(filter));
        b.push(options);
        self.send(&frame(0x82, &b));
        let p = self.recv(5000).expect("SUBACK");
        assert_eq!(p[0], 0x90);
        assert!(*p.last().unwrap() < 0x80);
    }
    pub fn unsubscribe(&mut self, filter: &str) -> u8 {
        let mut b = vec![0, 9, 0];
        b.extend_from_slice(&text(filter));
        self.send(&frame(0xa2, &b));
        let p = self.recv(5000).expect("UNSUBACK");
        assert_eq!(p[0], 0xb0);
        *p.last().unwrap()
    }
    pub fn publish(&mut self, topic: &str, payload: &[u8]) {
        let mut b = text(topic);
        b.push(0);
        b.extend_from_slice(payload);
        self.send(&frame(0x30, &b));
    }
    pub fn publish_qos1(&mut self, topic: &str, id: u16, payload: &[u8]) {
        let mut b = text(topic);
        b.extend_from_slice(&id.to_be_bytes());
        b.push(0);
        b.extend_from_slice(payload);
        self.send(&frame(0x32, &b));
        let p = self.recv(5000).expect("PUBACK");
        assert_eq!(p[0], 0x40);
    }
    pub fn puback(&mut self, id: [u8; 2]) {
        self.send(&frame(0x40, &id));
    }
    pub fn ping(&mut self) {
        self.send(&[0xc0, 0]);
        assert_eq!(self.recv(5000).expect("PINGRESP")[0], 0xd0);
    }
    pub fn disconnect(mut self) {
        self.send(&[0xe0, 0]);
        let mut b = [0u8; 64];
        let _ = self.0.set_read_timeout(Some(Duration::from_secs(5)));
        while matches!(self.0.read(&mut b), Ok(n) if n > 0) {}
    }
    fn byte(&mut self) -> Option<u8> {
        let mut b = [0u8; 1];
        match self.0.read(&mut b) {
            Ok(1) => Some(b[0]),
            _ => None,
        }
    }
    /// The next packet, with its first bytes; None at the end or after the time
    pub fn recv(&mut self, ms: u64) -> Option<Vec<u8>> {
        self.0.set_read_timeout(Some(Duration::from_millis(ms))).unwrap();
        let mut v = vec![self.byte()?];
        let (mut n, mut shift) = (0usize, 0);
        loop {
            let b = self.byte()?;
            v.push(b);
            n |= ((b & 0x7f) as usize) << shift;
            shift += 7;
            if b & 0x80 == 0 {
                break;
            }
        }
        let at = v.len();
        v.resize(at + n, 0);
        self.0.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
        self.0.read_exact(&mut v[at..]).ok()?;
        Some(v)
    }
    /// The payload of the next message with an empty property list
    pub fn message(&mut self, ms: u64) -> Option<Vec<u8>> {
        self.recv(ms).filter(|p| p[0] & 0xf0 == 0x30)
    }
}

pub fn wait(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms));
}
