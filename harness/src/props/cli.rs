//! The broker program: what its arguments say
use super::broker2::*;
use crate::bsim::*;
use crate::net::*;
use crate::refcodec::*;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::net::{Ipv4Addr, SocketAddr};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum Bad {
    /// not an address
    Address(String),
    Port(String),
    CertOnly,
    KeyOnly,
    NoFile(bool),
    /// a file without certificate or key
    Empty(bool),
    Garbage(bool),
    /// a key that does not belong to the certificate
    OtherKey,
    InUse,
    Unknown(String),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Cli {
    tls: bool,
    address: bool,
    port: bool,
    active: Option<u8>,
    expiry: Option<u32>,
    asked: u32,
    channel: Option<u32>,
    long: bool,
    /// ended by SIGINT while clients are connected
    clients: u8,
    bad: Option<Bad>,
    /// the order of the arguments
    order: u64,
}

pub fn cases(_: bool) -> BoxedStrategy<Cli> {
    let bad = prop_oneof![
        1 => "[a-z0-9.:]{0,12}".prop_map(Bad::Address),
        1 => prop_oneof![Just("65536".to_string()), Just("-1".into()), "[a-z]{1,4}"].prop_map(Bad::Port),
        1 => Just(Bad::CertOnly),
        1 => Just(Bad::KeyOnly),
        1 => any::<bool>().prop_map(Bad::NoFile),
        1 => any::<bool>().prop_map(Bad::Empty),
        1 => any::<bool>().prop_map(Bad::Garbage),
        1 => Just(Bad::OtherKey),
        3 => Just(Bad::InUse),
        1 => "--[a-z]{9}".prop_map(Bad::Unknown),
    ];
    (
        (any::<bool>(), prop::bool::weighted(0.9), prop::bool::weighted(0.9), prop::option::weighted(0.5, 1u8..5)),
        (
            prop::option::weighted(0.5, prop_oneof![1 => Just(0u32), 4 => 1u32..5000, 1 => Just(u32::MAX)]),
            prop_oneof![4 => 1u32..5000, 1 => Just(u32::MAX)],
            prop::option::weighted(0.4, prop_oneof![3 => 0u32..20, 1 => Just(u32::MAX)]),
        ),
        any::<bool>(),
        1u8..6,
        prop::option::weighted(0.4, bad),
        any::<u64>(),
    )
        .prop_map(|((tls, address, port, active), (expiry, asked, channel), long, clients, bad, order)| Cli {
            tls,
            address,
            port,
            active,
            expiry,
            asked,
            channel,
            long,
            clients,
            bad,
            order,
        })
        .boxed()
}

fn program() -> PathBuf {
    let me = std::env::current_exe().expect("own path");
    // target/release/vx
    me.parent().and_then(Path::parent).expect("target").join("cli/debug/vaux")
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Result<Scratch, Fail> {
        static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d = std::env::temp_dir().join(format!("vx-cli-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&d).map_err(harness("scratch directory"))?;
        Ok(Scratch(d))
    }
    fn write(&self, name: &str, b: &str) -> Result<String, Fail> {
        let p = self.0.join(name);
        std::fs::write(&p, b).map_err(harness("scratch file"))?;
        Ok(p.display().to_string())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Running(Child);
impl Drop for Running {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

impl Running {
    fn start(args: &[String]) -> Result<Running, Fail> {
        let mut c = Command::new(program());
        c.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        // ends with the harness
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        c.spawn().map(Running).map_err(harness("the program cannot be started"))
    }
    fn ended(&mut self) -> Option<std::process::ExitStatus> {
        self.0.try_wait().ok().flatten()
    }
    async fn wait(&mut self, d: Duration) -> Option<std::process::ExitStatus> {
        let at = Instant::now();
        loop {
            if let Some(s) = self.ended() {
                return Some(s);
            }
            if at.elapsed() > d {
                return None;
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
    }
    /// What it has written; it has ended
    fn output(&mut self) -> String {
        let mut s = String::new();
        if let Some(o) = &mut self.0.stdout {
            let _ = o.read_to_string(&mut s);
        }
        if let Some(o) = &mut self.0.stderr {
            let _ = o.read_to_string(&mut s);
        }
        s
    }
}

/// Self signed, and its key
fn certificate(addr: Ipv4Addr) -> Result<(String, String, rustls::pki_types::CertificateDer<'static>), Fail> {
    let mut p = rcgen::CertificateParams::new(Vec::<String>::new()).map_err(harness("certificate"))?;
    p.subject_alt_names = vec![rcgen::SanType::IpAddress(addr.into())];
    let key = rcgen::KeyPair::generate().map_err(harness("key"))?;
    let cert = p.self_signed(&key).map_err(harness("certificate"))?;
    Ok((cert.pem(), key.serialize_pem(), cert.der().clone()))
}

/// Only one case at a time uses the default addresses
static DEFAULTS: Mutex<()> = Mutex::new(());

async fn open(addr: SocketAddr, roots: &Option<Arc<rustls::RootCertStore>>) -> Result<Peer, Fail> {
    match roots {
        None => Peer::connect(addr),
        Some(r) => {
            let cfg = rustls::ClientConfig::builder()
                .with_root_certificates(r.clone())
                .with_no_client_auth();
            Peer::tls_to(addr, addr.ip().into(), Arc::new(cfg)).await
        }
    }
}

pub fn run(c: &Cli, o: &mut Obs) -> Res {
    let defaults = !c.address && !c.port;
    let _alone = defaults.then(|| DEFAULTS.lock().unwrap_or_else(|e| e.into_inner()));
    live(case(c, o))
}

async fn case(c: &Cli, o: &mut Obs) -> Res {
    let dir = Scratch::new()?;
    let own = address(0);
    let SocketAddr::V4(own) = own else { return Err(Fail::Harness("address".into())) };
    // without an argument the documented defaults
    let ip = if c.address || c.port { *own.ip() } else { Ipv4Addr::LOCALHOST };
    let port = if c.port { 4100 } else if c.tls { 8883 } else { 1883 };
    let addr = SocketAddr::from((ip, port));
    let mut args: Vec<Vec<String>> = vec![];
    let flag = |short: &str, long: &str| if c.long { long.to_string() } else { short.to_string() };
    // an address of its own wherever a port is given
    if (c.address || c.port) && !matches!(c.bad, Some(Bad::Address(_))) {
        args.push(vec![flag("-l", "--listen-addr"), ip.to_string()]);
    }
    if c.port && !matches!(c.bad, Some(Bad::Port(_))) {
        args.push(vec![flag("-p", "--port"), port.to_string()]);
    }
    if let Some(a) = c.active {
        args.push(vec![flag("-a", "--max-active-sessions"), a.to_string()]);
    }
    if let Some(x) = c.expiry {
        args.push(vec![flag("-x", "--session-expiration"), x.to_string()]);
    }
    if let Some(x) = c.channel {
        args.push(vec!["--channel-size".into(), x.to_string()]);
    }
    let mut roots = None;
    let needs_tls = !matches!(
        c.bad,
        None | Some(Bad::Address(_) | Bad::Port(_) | Bad::InUse | Bad::Unknown(_))
    );
    if c.tls || needs_tls {
        let (mut cert, mut key, der) = certificate(ip)?;
        match &c.bad {
            Some(Bad::Empty(k)) => *(if *k { &mut key } else { &mut cert }) = String::new(),
            Some(Bad::Garbage(k)) => {
                let s = if *k { &mut key } else { &mut cert };
                *s = s.replace(|x: char| x.is_ascii_lowercase(), "!");
            }
            Some(Bad::OtherKey) => key = certificate(ip)?.1,
            _ => {}
        }
        let mut cert = dir.write("cert.pem", &cert)?;
        let mut key = dir.write("key.pem", &key)?;
        if let Some(Bad::NoFile(k)) = &c.bad {
            (if *k { &mut key } else { &mut cert }).push_str(".missing");
        }
        if c.bad != Some(Bad::KeyOnly) {
            args.push(vec!["--tls-cert".into(), cert]);
        }
        if c.bad != Some(Bad::CertOnly) {
            args.push(vec!["--tls-key".into(), key]);
        }
        let mut store = rustls::RootCertStore::empty();
        store.add(der).map_err(harness("root"))?;
        roots = Some(Arc::new(store));
    }
    let mut occupied = None;
    match &c.bad {
        Some(Bad::Address(a)) => {
            if a.parse::<Ipv4Addr>().is_ok() {
                return Ok(());
            }
            args.push(vec![format!("{}={a}", "--listen-addr")]);
        }
        Some(Bad::Port(p)) => args.push(vec![format!("--port={p}")]),
        Some(Bad::Unknown(u)) => args.push(vec![u.clone()]),
        Some(Bad::InUse) => {
            let l = std::net::TcpListener::bind(addr).map_err(harness("occupy"))?;
            occupied = Some(l);
        }
        _ => {}
    }
    // any order
    let mut k = c.order;
    for i in (1..args.len()).rev() {
        args.swap(i, (k % (i as u64 + 1)) as usize);
        k /= i as u64 + 1;
    }
    let args: Vec<String> = args.concat();
    o.log(|| args.join(" "));
    let mut run = Running::start(&args)?;
    if let Some(bad) = &c.bad {
        o.label(format!("{bad:?}").split(['(', '"']).next().unwrap_or("").to_string());
        o.nontrivial();
        let Some(s) = run.wait(SOON).await else {
            return soft(format!("{}: the program cannot start, but keeps running", args.join(" ")));
        };
        let said = run.output();
        if s.success() {
            return hard(format!("{}: the program cannot start, and reports success: {said}", args.join(" ")));
        }
        if said.contains("Broker started") {
            return hard(format!("{}: the program cannot start, and says it has: {said}", args.join(" ")));
        }
        drop(occupied);
        return Ok(());
    }
    // until it listens
    let at = Instant::now();
    loop {
        if let Some(s) = run.ended() {
            let said = run.output();
            if said.contains("in use") {
                return Err(Fail::Harness(format!("{addr} is in use")));
            }
            return hard(format!("{}: the program ends with {s}: {said}", args.join(" ")));
        }
        match std::net::TcpStream::connect(addr) {
            Ok(_) => break,
            Err(_) if at.elapsed() > SOON => {
                return soft(format!("{}: nothing listens at {addr}", args.join(" ")))
            }
            Err(_) => tokio::time::sleep(Duration::from_millis(2)).await,
        }
    }
    // the port without TLS must not be served with a certificate, and the other way round
    let mut clients: Vec<Peer> = vec![];
    for n in 0..c.clients {
        let mut p = open(addr, &roots).await?;
        let pk = connect_pk(&format!("c{n}"), true, 60, Some(c.asked), None);
        p.send(&pk.encode()).await?;
        let full = c.active.is_some_and(|a| clients.len() >= a as usize);
        match p.recv("CONNACK").await? {
            Some(Pk::ConnAck { reason: 0x97, .. }) if full => {
                o.label("refused: too many active sessions");
                o.nontrivial();
                p.rest("the end of a refused connection").await?;
            }
            Some(Pk::ConnAck { reason: 0, props, .. }) if !full => {
                let limit = c.expiry.unwrap_or(600);
                let told = props.iter().find_map(|p| match p {
                    (0x11, Val::U32(x)) => Some(*x),
                    _ => None,
                });
                let want = c.asked.min(limit);
                if told.unwrap_or(c.asked) != want {
                    return hard(format!(
                        "{}: session expiry {} asked, {told:?} granted",
                        args.join(" "),
                        c.asked
                    ));
                }
                if want != c.asked {
                    o.label("session expiry limited");
                }
                subscribed(&mut p, &[("t/#", 1)]).await?;
                clients.push(p);
            }
            x => {
                return hard(format!(
                    "{}: client {} gets {x:?} instead of CONNACK",
                    args.join(" "),
                    n + 1
                ))
            }
        }
    }
    let all = clients.len();
    for n in 0..all {
        clients[n].send(&publish_pk(&format!("t/{n}"), 1, 1, b"hello".to_vec()).encode()).await?;
        let mut acked = false;
        let mut msgs = vec![];
        while !acked || msgs.is_empty() {
            match clients[n].recv("a message").await? {
                Some(Pk::Publish(m)) => msgs.push(m),
                Some(Pk::Ack { kind: 4, id: 1, .. }) => acked = true,
                x => return hard(format!("{x:?} instead of PUBACK or a message")),
            }
        }
        for (i, p) in clients.iter_mut().enumerate() {
            if i == n {
                continue;
            }
            match p.recv("a message").await? {
                Some(Pk::Publish(m)) if m.topic == format!("t/{n}") => {}
                x => return hard(format!("{x:?} instead of a message to t/{n}")),
            }
        }
    }
    o.label(if c.tls { "TLS" } else { "plain" });
    if !c.port {
        o.label(if c.tls { "default port 8883" } else { "default port 1883" });
    }
    unsafe {
        libc::kill(run.0.id() as i32, libc::SIGINT);
    }
    let Some(s) = run.wait(SOON).await else {
        return soft("the program does not end when it is interrupted");
    };
    if !s.success() {
        return hard(format!("{}: interrupted, the program ends with {s}: {}", args.join(" "), run.output()));
    }
    let said = run.output();
    if !said.contains(&addr.to_string()) {
        return hard(format!("the program does not tell its address {addr}: {said}"));
    }
    if std::net::TcpStream::connect(addr).is_ok() {
        return hard(format!("something listens at {addr} after the program has ended"));
    }
    Ok(())
}

pub fn v01() -> Property {
    Property {
        id: "V01",
        rule: "arguments it cannot start with, or clients beyond the limit of active sessions",
        assumptions: &["loopback TCP works", "12 s are enough for the program to start and to end"],
        subs: vec![Prop::net("program", 1_000, cases, run).boxed()],
    }
}
