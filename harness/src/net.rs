//! Sockets, runtimes, deadlines in real time and TLS material for the checks that use the network
use crate::runner::{soft, Fail};
use std::cell::Cell;
use std::collections::BinaryHeap;
use std::future::Future;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::task::Poll;
use std::time::{Duration, Instant};
use tokio::net::{TcpListener, TcpStream};

thread_local! {
    static THREAD: Cell<usize> = const { Cell::new(0) };
    static CASE: Cell<u32> = const { Cell::new(0) };
}
pub fn set_thread(t: usize) {
    THREAD.with(|x| x.set(t))
}

/// Runs on a thread with the stack tokio gives its workers
pub fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    let t = THREAD.with(|x| x.get());
    let n = CASE.with(|x| x.replace(x.get().wrapping_add(4)));
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || {
                THREAD.with(|x| x.set(t));
                CASE.with(|x| x.set(n));
                f()
            })
            .expect("thread");
        match h.join() {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}

/// A loopback address no other case uses at the same time
pub fn address(port: u16) -> SocketAddr {
    let t = THREAD.with(|x| x.get()) as u32;
    let n = CASE.with(|x| {
        x.set(x.get().wrapping_add(1));
        x.get()
    });
    // the process takes part as well, so that checks running at once stay apart
    let p = std::process::id();
    let a = Ipv4Addr::new(127, 1 + (p % 31) as u8 * 8 + t as u8, (n >> 7) as u8, 1 + (n & 0x7f) as u8);
    SocketAddr::V4(SocketAddrV4::new(a, port))
}

/// A single threaded runtime whose clock stands still unless the case moves it
pub fn paused<T>(f: impl Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .expect("runtime");
    // an unfinished blocking task keeps the clock from moving by itself
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let out = rt.block_on(async {
        tokio::task::spawn_blocking(move || {
            let _ = rx.recv();
        });
        f.await
    });
    drop(tx);
    rt.shutdown_background();
    out
}

/// A single threaded runtime with a running clock
pub fn live<T>(f: impl Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    let out = rt.block_on(f);
    rt.shutdown_background();
    out
}

// ------------------------------------------------------------------ real time

struct Alarm(Instant, tokio::sync::oneshot::Sender<()>);
impl PartialEq for Alarm {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Alarm {}
impl PartialOrd for Alarm {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Alarm {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}

type Alarms = (Mutex<BinaryHeap<Alarm>>, Condvar);

fn alarms() -> &'static Arc<Alarms> {
    static A: OnceLock<Arc<Alarms>> = OnceLock::new();
    A.get_or_init(|| {
        let a: Arc<Alarms> = Arc::default();
        let b = a.clone();
        std::thread::spawn(move || loop {
            let mut q = b.0.lock().unwrap();
            let now = Instant::now();
            while q.peek().is_some_and(|x| x.0 <= now || x.1.is_closed()) {
                if let Some(x) = q.pop() {
                    let _ = x.1.send(());
                }
            }
            let wait = q.peek().map(|x| x.0 - now).unwrap_or(Duration::from_secs(1));
            drop(b.1.wait_timeout(q, wait.min(Duration::from_secs(1))).unwrap());
        });
        a
    })
}

/// Completes after the time on the wall clock, whatever the runtime's clock does
pub fn real_sleep(d: Duration) -> impl Future<Output = ()> {
    let (tx, rx) = tokio::sync::oneshot::channel();
    let a = alarms();
    let mut q = a.0.lock().unwrap();
    let at = Instant::now() + d;
    let first = q.peek().is_none_or(|x| at < x.0);
    q.push(Alarm(at, tx));
    drop(q);
    if first {
        a.1.notify_one();
    }
    async move {
        let _ = rx.await;
    }
}

/// None if the future takes longer on the wall clock
pub async fn within<T>(d: Duration, f: impl Future<Output = T>) -> Option<T> {
    tokio::pin!(f);
    // most are ready at once
    if let Some(x) = poll_once(&mut f).await {
        return Some(x);
    }
    tokio::select! {
        biased;
        x = &mut f => Some(x),
        _ = real_sleep(d) => None,
    }
}

/// Patience with something that has to happen
pub const SOON: Duration = Duration::from_secs(12);

pub async fn soon<T>(what: &str, f: impl Future<Output = T>) -> Result<T, Fail> {
    match within(SOON, f).await {
        Some(x) => Ok(x),
        None => soft(format!("{what}: nothing happens within {} s", SOON.as_secs())),
    }
}

/// One poll, whatever its result
pub async fn poll_once<F: Future + Unpin>(f: &mut F) -> Option<F::Output> {
    let mut f = Pin::new(f);
    std::future::poll_fn(|cx| {
        Poll::Ready(match f.as_mut().poll(cx) {
            Poll::Ready(x) => Some(x),
            Poll::Pending => None,
        })
    })
    .await
}

/// Lets the other tasks and the sockets make progress
pub async fn turns(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

pub fn harness<E: std::fmt::Display>(what: &'static str) -> impl Fn(E) -> Fail {
    move |e| Fail::Harness(format!("{what}: {e}"))
}

pub async fn pair() -> Result<(TcpStream, TcpStream), Fail> {
    let mut last = String::new();
    for _ in 0..20 {
        let l = match TcpListener::bind(address(0)).await {
            Ok(l) => l,
            Err(e) => {
                last = e.to_string();
                continue;
            }
        };
        let addr = l.local_addr().map_err(harness("local address"))?;
        let a = TcpStream::connect(addr).await.map_err(harness("connect"))?;
        let (b, _) = l.accept().await.map_err(harness("accept"))?;
        let _ = a.set_nodelay(true);
        let _ = b.set_nodelay(true);
        return Ok((a, b));
    }
    Err(Fail::Harness(format!("no loopback address: {last}")))
}

/// The smallest send buffer: larger writes are taken in parts
pub fn small_send_buffer(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    let v: libc::c_int = 4096;
    for opt in [libc::SO_SNDBUF] {
        unsafe {
            libc::setsockopt(
                s.as_raw_fd(),
                libc::SOL_SOCKET,
                opt,
                &v as *const _ as *const libc::c_void,
                std::mem::size_of_val(&v) as u32,
            );
        }
    }
}

/// Close with a reset instead of an orderly end
pub fn reset(s: TcpStream) {
    let _ = s.set_zero_linger();
    drop(s);
}

// ------------------------------------------------------------------ TLS

pub struct Tls {
    pub acceptor: tokio_rustls::TlsAcceptor,
    pub connector: tokio_rustls::TlsConnector,
    pub client: Arc<rustls::ClientConfig>,
    pub roots: Arc<rustls::RootCertStore>,
}

pub fn tls() -> &'static Tls {
    static T: OnceLock<Tls> = OnceLock::new();
    T.get_or_init(|| {
        let name = rcgen::SanType::DnsName("localhost".try_into().expect("name"));
        let (acceptor, roots) = certified(name);
        let client = rustls::ClientConfig::builder()
            .with_root_certificates(roots.clone())
            .with_no_client_auth();
        let client = Arc::new(client);
        Tls {
            client: client.clone(),
            acceptor,
            connector: tokio_rustls::TlsConnector::from(client),
            roots,
        }
    })
}

/// For a server of this address, and what trusts it
pub fn tls_for(ip: std::net::IpAddr) -> (tokio_rustls::TlsAcceptor, Arc<rustls::RootCertStore>) {
    certified(rcgen::SanType::IpAddress(ip))
}

fn certified(san: rcgen::SanType) -> (tokio_rustls::TlsAcceptor, Arc<rustls::RootCertStore>) {
        use rcgen::{BasicConstraints, CertificateParams, CertifiedIssuer, IsCa, KeyPair};
        let mut ca = CertificateParams::new(Vec::<String>::new()).expect("ca parameters");
        ca.is_ca = IsCa::Ca(BasicConstraints::Unconstrained);
        let ca = CertifiedIssuer::self_signed(ca, KeyPair::generate().expect("key")).expect("ca");
        let ca_der = rustls::pki_types::CertificateDer::from(ca.as_ref().der().to_vec());
        let key = KeyPair::generate().expect("key");
        let mut p = CertificateParams::new(Vec::<String>::new()).expect("parameters");
        p.subject_alt_names = vec![san];
        let cert = p.signed_by(&key, &ca).expect("certificate");
        let cert_der = rustls::pki_types::CertificateDer::from(cert.der().to_vec());
        let key_der =
            rustls::pki_types::PrivateKeyDer::try_from(key.serialize_der()).expect("key");
        let server = rustls::ServerConfig::builder()
            .with_no_client_auth()
            .with_single_cert(vec![cert_der, ca_der.clone()], key_der)
            .expect("server config");
        let mut roots = rustls::RootCertStore::empty();
        roots.add(ca_der).expect("root");
        (tokio_rustls::TlsAcceptor::from(Arc::new(server)), Arc::new(roots))
}

/// A runtime with several threads and a running clock; the case itself runs on this thread
pub fn threads<T>(n: usize, f: impl Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(n)
        .enable_all()
        .build()
        .expect("runtime");
    let out = rt.block_on(f);
    rt.shutdown_background();
    out
}

// ------------------------------------------------------------------ memory

/// Counts what the threads have allocated and not given back
pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
}

fn count(n: isize) {
    let _ = LIVE.try_with(|x| x.set(x.get() + n));
}

/// The bytes this thread has allocated minus those it has freed
pub fn live_bytes() -> isize {
    LIVE.with(|x| x.get())
}

unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as isize);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        count(-(l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as isize);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        std::alloc::System.realloc(p, l, n)
    }
}
