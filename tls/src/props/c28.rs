//! C28: TLS connections are established only with servers the configuration trusts.
use crate::engine::*;
use rustls::pki_types::{CertificateDer, PrivateKeyDer, UnixTime};
use rustls::server::danger::{ClientCertVerified, ClientCertVerifier};
use rustls::server::{ClientHello, ResolvesServerCert};
use rustls::sign::CertifiedKey;
use rustls::{DigitallySignedStruct, DistinguishedName, ServerConfig, ServerConnection, SignatureScheme};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vinezombie::client::channel::SyncChannels;
use vinezombie::client::conn::ServerAddr;
use vinezombie::client::handlers::YieldAll;
use vinezombie::client::tls::{TlsConfig, TlsConfigOptions, Trust};
use vinezombie::client::Client;
use vinezombie::ircmsg::ClientMsg;
use vinezombie::string::Word;

pub const META: Meta = Meta {
    id: "C28",
    rule: "every trust setting x set of system roots x server identity x host name form x TLS version x connector (blocking, tokio), client identities x askers, and sequences of connections sharing configurations, each on a real loopback connection with a recording TLS server, against a table of which chain leads to which root; non-trivial: the connection was established or refused for a reason other than a missing root",
    assumptions: &["the system's trust store is what rustls-native-certs reads (SSL_CERT_FILE)", "rustls' own cryptography is trusted"],
};

const LIMIT: Duration = Duration::from_secs(30);
const GREETING: &str = ":s NOTE :from server";
const SECRET: &str = "HIDDEN from client";

fn fx(name: &str) -> PathBuf {
    PathBuf::from(verif_dir()).join("tls/fixtures").join(format!("{name}.pem"))
}
fn certs(name: &str) -> Vec<CertificateDer<'static>> {
    let b = std::fs::read(fx(name)).unwrap();
    rustls_pemfile::certs(&mut &b[..]).map(|c| c.unwrap()).collect()
}
fn key(name: &str) -> PrivateKeyDer<'static> {
    let b = std::fs::read(fx(&format!("{name}.key"))).unwrap();
    rustls_pemfile::private_key(&mut &b[..]).unwrap().unwrap()
}

/// What a server presents, and which roots lead to it.
struct Ident {
    name: &'static str,
    chain: &'static [&'static str],
    key: &'static str,
    /// Any of these as a root makes the chain good.
    roots: &'static [&'static str],
    dns: bool,
    ip: bool,
    /// Refused whatever the roots.
    bad: bool,
}
const fn id(name: &'static str, chain: &'static [&'static str], key: &'static str, roots: &'static [&'static str]) -> Ident {
    Ident { name, chain, key, roots, dns: true, ip: true, bad: false }
}
const fn bad(name: &'static str, chain: &'static [&'static str], key: &'static str) -> Ident {
    Ident { name, chain, key, roots: &[], dns: true, ip: true, bad: true }
}
const IDENTS: &[Ident] = &[
    id("leaf of A", &["a"], "a", &["ca-a"]),
    id("leaf of A sent with its root", &["a", "ca-a"], "a", &["ca-a"]),
    id("RSA leaf of A", &["rsa"], "rsa", &["ca-a"]),
    id("leaf of B", &["b"], "b", &["ca-b"]),
    id("leaf of B sent with root A", &["b", "ca-a"], "b", &["ca-b"]),
    id("leaf of A through an intermediate", &["viai", "inter"], "viai", &["ca-a", "inter"]),
    id("leaf of an intermediate without it", &["viai"], "viai", &["inter"]),
    id("leaf of an impostor of A", &["fake"], "fake", &["ca-x"]),
    id("leaf of an impostor sent with it", &["fake", "ca-x"], "fake", &["ca-x"]),
    id("self-signed", &["self"], "self", &["self"]),
    Ident { name: "leaf of A for another host", chain: &["other"], key: "other", roots: &["ca-a"], dns: false, ip: false, bad: false },
    Ident { name: "leaf of A for the name only", chain: &["dns"], key: "dns", roots: &["ca-a"], dns: true, ip: false, bad: false },
    Ident { name: "leaf of A for the address only", chain: &["ip"], key: "ip", roots: &["ca-a"], dns: false, ip: true, bad: false },
    Ident { name: "leaf of A naming the host only as its subject", chain: &["cn"], key: "cn", roots: &["ca-a"], dns: false, ip: false, bad: false },
    bad("expired leaf of A", &["expired"], "expired"),
    bad("leaf of A not valid yet", &["future"], "future"),
    bad("leaf signed by a leaf of A", &["byleaf", "a"], "byleaf"),
    bad("client certificate of A", &["cliuse"], "cliuse"),
    bad("certificate of A with another key", &["a"], "b"),
];
fn ident(name: &str) -> &'static Ident {
    IDENTS.iter().find(|i| i.name == name).unwrap()
}

/// Trust settings: kind and files.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct T {
    kind: char,
    files: Vec<&'static str>,
    sys: &'static str,
}
impl T {
    fn options(&self, cert: Option<&str>) -> TlsConfigOptions {
        let f: Vec<PathBuf> = self.files.iter().map(|n| fx(n)).collect();
        let trust = match self.kind {
            'O' => Trust::Only(f),
            'D' => Trust::Default,
            'A' => Trust::Also(f),
            _ => Trust::NoVerify,
        };
        TlsConfigOptions { trust, cert: cert.map(fx) }
    }
    fn build(&self, cert: Option<&str>) -> std::io::Result<TlsConfig> {
        std::env::set_var("SSL_CERT_FILE", fx(self.sys));
        std::env::remove_var("SSL_CERT_DIR");
        self.options(cert).build()
    }
    fn roots(&self) -> Vec<&'static str> {
        let mut v = Vec::new();
        if "DA".contains(self.kind) {
            v.push(self.sys);
        }
        if "OA".contains(self.kind) {
            v.extend(&self.files);
        }
        if v.contains(&"bundle") {
            v.extend(["ca-a", "ca-b"]);
        }
        if v.contains(&"bundle5") {
            v.extend(["other", "ca-x", "self", "ca-b", "ca-a"]);
        }
        v
    }
    /// Everything named is there and holds certificates.
    fn sound(&self) -> bool {
        self.roots().iter().all(|r| !["missing", "junk", "empty"].contains(r))
    }
    /// Some(must the connection be established), None if either is right.
    fn accepts(&self, i: &Ident, ip: bool) -> Option<bool> {
        if self.kind == 'N' {
            // Unverified: everyone is accepted; whether the key has to match is left open.
            return if i.chain == ["a"] && i.key != "a" { None } else { Some(true) };
        }
        let r = self.roots();
        let good = !i.bad && (if ip { i.ip } else { i.dns }) && i.roots.iter().any(|x| r.contains(x));
        if good && !self.sound() {
            None
        } else {
            Some(good)
        }
    }
}

/// Presents a fixed chain even if the key does not belong to it.
#[derive(Debug)]
struct Fixed(Arc<CertifiedKey>);
impl ResolvesServerCert for Fixed {
    fn resolve(&self, _: ClientHello<'_>) -> Option<Arc<CertifiedKey>> {
        Some(self.0.clone())
    }
}
/// Asks for a client certificate, accepts and records anything.
#[derive(Debug)]
struct Ask {
    must: bool,
    seen: Arc<Mutex<Option<Vec<Vec<u8>>>>>,
}
impl ClientCertVerifier for Ask {
    fn root_hint_subjects(&self) -> &[DistinguishedName] {
        &[]
    }
    fn client_auth_mandatory(&self) -> bool {
        self.must
    }
    fn verify_client_cert(&self, e: &CertificateDer<'_>, c: &[CertificateDer<'_>], _: UnixTime) -> Result<ClientCertVerified, rustls::Error> {
        let v = std::iter::once(e).chain(c).map(|c| c.to_vec()).collect();
        *self.seen.lock().unwrap() = Some(v);
        Ok(ClientCertVerified::assertion())
    }
    fn verify_tls12_signature(&self, m: &[u8], c: &CertificateDer<'_>, d: &DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        rustls::crypto::verify_tls12_signature(m, c, d, &rustls::crypto::ring::default_provider().signature_verification_algorithms)
    }
    fn verify_tls13_signature(&self, m: &[u8], c: &CertificateDer<'_>, d: &DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        rustls::crypto::verify_tls13_signature(m, c, d, &rustls::crypto::ring::default_provider().signature_verification_algorithms)
    }
    fn supported_verify_schemes(&self) -> Vec<SignatureScheme> {
        rustls::crypto::ring::default_provider().signature_verification_algorithms.supported_schemes()
    }
}
type Seen = Arc<Mutex<Option<Vec<Vec<u8>>>>>;

fn server(i: &Ident, v13: bool, ask: u8) -> (Arc<ServerConfig>, Seen) {
    let prov = Arc::new(rustls::crypto::ring::default_provider());
    let seen: Seen = Default::default();
    let ver: &[&rustls::SupportedProtocolVersion] = if v13 { &[&rustls::version::TLS13] } else { &[&rustls::version::TLS12] };
    let b = ServerConfig::builder_with_provider(prov.clone()).with_protocol_versions(ver).unwrap();
    let b = match ask {
        b'n' => b.with_no_client_auth(),
        a => b.with_client_cert_verifier(Arc::new(Ask { must: a == b'm', seen: seen.clone() })),
    };
    let k = prov.key_provider.load_private_key(key(i.key)).unwrap();
    let chain: Vec<_> = i.chain.iter().flat_map(|c| certs(c)).collect();
    let c = b.with_cert_resolver(Arc::new(Fixed(Arc::new(CertifiedKey::new(chain, k)))));
    (Arc::new(c), seen)
}

/// Records what really crosses the wire.
struct Rec {
    sock: TcpStream,
    raw: Vec<u8>,
}
impl Read for Rec {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.sock.read(b)?;
        self.raw.extend_from_slice(&b[..n]);
        Ok(n)
    }
}
impl Write for Rec {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.sock.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.sock.flush()
    }
}
#[derive(Default, Debug)]
struct Served {
    /// Raw bytes from the client.
    raw: Vec<u8>,
    /// What they meant.
    text: Vec<u8>,
    resumed: bool,
    connected: bool,
}
fn lines(r: &mut impl Read, out: &mut Vec<u8>) {
    let mut b = [0u8; 64];
    while !out.ends_with(b"\r\n") {
        match r.read(&mut b) {
            Ok(n) if n > 0 => out.extend_from_slice(&b[..n]),
            _ => break,
        }
    }
}
/// Serves one connection: greets and reads a line.  No configuration: without TLS.
fn serve(l: TcpListener, cfg: Option<Arc<ServerConfig>>, stop: Arc<AtomicBool>) -> Served {
    let mut s = Served::default();
    l.set_nonblocking(true).unwrap();
    let sock = loop {
        match l.accept() {
            Ok((s, _)) => break s,
            Err(_) if stop.load(SeqCst) => return s,
            Err(_) => std::thread::sleep(Duration::from_micros(200)),
        }
    };
    s.connected = true;
    sock.set_nonblocking(false).unwrap();
    sock.set_nodelay(true).unwrap();
    sock.set_read_timeout(Some(LIMIT)).unwrap();
    let mut rec = Rec { sock, raw: Vec::new() };
    let hello = format!("{GREETING}\r\n");
    match cfg {
        None => {
            let _ = rec.write_all(hello.as_bytes());
            lines(&mut rec, &mut s.text);
        }
        Some(cfg) => {
            let mut c = ServerConnection::new(cfg).unwrap();
            let mut t = rustls::Stream::new(&mut c, &mut rec);
            if t.write_all(hello.as_bytes()).and_then(|_| t.flush()).is_ok() {
                lines(&mut t, &mut s.text);
            }
            s.resumed = c.handshake_kind() == Some(rustls::HandshakeKind::Resumed);
            c.send_close_notify();
            let _ = c.write_tls(&mut rec);
        }
    }
    // Wait for the client to be done, then reset the connection: thousands of sockets must not linger.
    let t = std::time::Instant::now();
    let mut shut = false;
    while !stop.load(SeqCst) {
        if !shut && t.elapsed() > Duration::from_millis(300) {
            let _ = rec.sock.shutdown(std::net::Shutdown::Write);
            shut = true;
        }
        std::thread::sleep(Duration::from_micros(100));
    }
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        use std::os::fd::AsRawFd;
        libc::setsockopt(rec.sock.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
    }
    s.raw = rec.raw;
    s
}

#[derive(Debug)]
struct Got {
    /// What the client read.
    line: Option<String>,
    /// Why not.
    err: String,
    srv: Served,
    tls_fn_called: bool,
}
impl Got {
    fn established(&self) -> bool {
        self.line.is_some() || !self.srv.text.is_empty()
    }
}
fn msg() -> ClientMsg<'static> {
    ClientMsg::parse(SECRET).unwrap()
}
/// Connects; tries again when the machine is out of ports or descriptors.
fn connect(mk: impl Fn() -> std::io::Result<TlsConfig>, host: &str, tls: bool, no_tls: bool, srv: Option<Arc<ServerConfig>>, tokio: bool) -> Result<Got, String> {
    for _ in 0..90 {
        match connect_once(&mk, host, None, tls, no_tls, srv.clone(), tokio) {
            Err(e) if e == BUSY => std::thread::sleep(Duration::from_secs(1)),
            r => return r,
        }
    }
    panic!("no free ports on the loopback interface")
}
const BUSY: &str = "busy";
fn busy(e: &std::io::Error) -> bool {
    matches!(e.raw_os_error(), Some(libc::EADDRNOTAVAIL | libc::EADDRINUSE | libc::EMFILE | libc::ENFILE | libc::EAGAIN))
        && e.kind() != std::io::ErrorKind::TimedOut
}
/// One connection by the real client, which sends one message and reads one.
/// `at`: the port given to the client (if any) and the one the server listens on.
fn connect_once(mk: impl Fn() -> std::io::Result<TlsConfig>, host: &str, at: Option<(Option<u16>, u16)>, tls: bool, no_tls: bool, srv: Option<Arc<ServerConfig>>, tokio: bool) -> Result<Got, String> {
    let l = match if let Some((_, p)) = at { TcpListener::bind((host, p)) } else { TcpListener::bind("127.0.0.1:0") } {
        Err(e) if busy(&e) || e.kind() == std::io::ErrorKind::PermissionDenied => return Err(BUSY.into()),
        l => l.map_err(|e| e.to_string())?,
    };
    let port = l.local_addr().unwrap().port();
    let stop: Arc<AtomicBool> = Default::default();
    let th = {
        let stop = stop.clone();
        std::thread::spawn(move || serve(l, srv, stop))
    };
    let addr = ServerAddr { address: Word::try_from(host.to_string()).unwrap(), tls, port: at.map_or(Some(port), |a| a.0) };
    let called = AtomicBool::new(false);
    let mk = || {
        called.store(true, SeqCst);
        mk()
    };
    let r: std::io::Result<Option<String>> = if tokio {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async {
            let conn = if no_tls { addr.connect_tokio_no_tls().await? } else { addr.connect_tokio(mk).await? };
            let mut c = Client::new(conn, SyncChannels);
            c.set_read_timeout(Some(LIMIT));
            let (_, rx) = c.add((), YieldAll).unwrap();
            c.queue_mut().edit().push(msg());
            c.run_tokio().await?;
            Ok(rx.try_recv().ok().map(|m| m.to_string()))
        })
    } else {
        (|| {
            let conn = if no_tls { addr.connect_no_tls()? } else { addr.connect(mk)? };
            let mut c = Client::new(conn, SyncChannels);
            c.set_read_timeout(Some(LIMIT));
            let (_, rx) = c.add((), YieldAll).unwrap();
            c.queue_mut().edit().push(msg());
            c.run()?;
            Ok(rx.try_recv().ok().map(|m| m.to_string()))
        })()
    };
    stop.store(true, SeqCst);
    let srv = th.join().map_err(|_| "the server panicked".to_string())?;
    if matches!(&r, Err(e) if busy(e)) && !srv.connected {
        return Err(BUSY.into());
    }
    let (line, err) = match r {
        Ok(l) => (l, String::new()),
        Err(e) => (None, e.to_string()),
    };
    let g = Got { line, err, srv, tls_fn_called: called.load(SeqCst) };
    // Whatever happened: with TLS nothing crosses the wire in the clear.
    if tls && !no_tls {
        let raw = &g.srv.raw;
        if raw.windows(SECRET.len()).any(|w| w == SECRET.as_bytes()) {
            return Err("the client's message crossed the wire in the clear".into());
        }
        if raw.first().is_some_and(|b| *b != 0x16) {
            return Err(format!("the client did not begin with a TLS handshake but {}", show(&raw[..raw.len().min(40)])));
        }
    }
    Ok(g)
}
/// A complete exchange happened.
fn whole(g: &Got) -> R {
    if g.line.as_deref() != Some(GREETING) {
        return Err(format!("refused or read {:?} ({})", g.line, g.err));
    }
    if g.srv.text != format!("{SECRET}\r\n").as_bytes() {
        return Err(format!("the server received {}", show(&g.srv.text)));
    }
    Ok(())
}

type Configs = HashMap<(T, Option<&'static str>), Result<TlsConfig, String>>;
fn config(m: &mut Configs, t: &T, cert: Option<&'static str>) -> Result<TlsConfig, String> {
    m.entry((t.clone(), cert)).or_insert_with(|| t.build(cert).map_err(|e| e.to_string())).clone()
}

fn one(m: &mut Configs, t: &T, i: &Ident, host: &str, v13: bool, tokio: bool, st: &mut Stats) -> R {
    let want = t.accepts(i, host != "localhost");
    let cfg = match config(m, t, None) {
        Ok(c) => c,
        Err(e) => {
            st.outcome(&"no config");
            return if want == Some(true) { Err(format!("no configuration: {e}")) } else { Ok(()) };
        }
    };
    let (srv, _) = server(i, v13, b'n');
    let g = connect(move || Ok(cfg.clone()), host, true, false, Some(srv), tokio)?;
    st.step();
    st.outcome(&(g.established(), g.err.clone()));
    match want {
        Some(true) => {
            st.nontrivial();
            whole(&g).map_err(|e| format!("a trusted server ({}) was {e}", i.name))
        }
        Some(false) if g.established() => Err(format!("connection established with an untrusted server: {}", i.name)),
        Some(false) => {
            if t.kind != 'O' || !t.files.is_empty() {
                st.nontrivial();
            }
            Ok(())
        }
        None => Ok(()),
    }
}

/// Files holding client identities: Some(chain) if usable.
const MINE: &[(&str, Option<&[&str]>)] = &[
    ("me-kc", Some(&["cli"])),
    ("me-ck", Some(&["cli"])),
    ("me-chain", Some(&["clii", "inter"])),
    ("me-mixed", Some(&["clii", "inter"])),
    ("me-chain3", Some(&["clii", "inter", "ca-a"])),
    ("me-chain6", Some(&["clii", "inter", "ca-a", "ca-b", "cli", "self"])),
    ("me-rsa", Some(&["clirsa"])),
    ("me-mismatch", None),
    ("me-nokey", None),
    ("me-nocert", None),
    ("me-sec1", None),
    ("me-pkcs1", None),
    ("missing", None),
    ("empty", None),
    ("junk", None),
];
fn client_cert(m: &mut Configs, t: &T, mine: Option<usize>, v13: bool, ask: u8, tokio: bool, st: &mut Stats) -> R {
    let file = mine.map(|i| MINE[i].0);
    let usable = mine.and_then(|i| MINE[i].1);
    let cfg = match config(m, t, file) {
        Ok(c) => c,
        Err(e) if mine.is_none() || usable.is_some() => return Err(format!("no configuration: {e}")),
        Err(_) => return Ok(()),
    };
    let (srv, seen) = server(&IDENTS[0], v13, ask);
    let g = connect(move || Ok(cfg.clone()), "localhost", true, false, Some(srv), tokio)?;
    st.step();
    let seen = seen.lock().unwrap().clone();
    st.outcome(&(g.established(), seen.clone()));
    let want: Option<Vec<Vec<u8>>> = usable.map(|c| c.iter().flat_map(|c| certs(c)).map(|c| c.to_vec()).collect());
    if mine.is_none() {
        if seen.is_some() {
            return Err("a client certificate was presented though none is configured".into());
        }
        return if ask == b'm' { Ok(()) } else { whole(&g) };
    }
    match want {
        Some(w) => {
            whole(&g)?;
            st.nontrivial();
            let w = if ask == b'n' { None } else { Some(w) };
            if seen != w {
                return Err(format!("presented {} certificates, not the configured chain", seen.map_or(0, |s| s.len())));
            }
            Ok(())
        }
        // A file the documentation does not allow: an error, or the identity really used; never silently none.
        None if ask != b'n' && g.established() && seen.as_ref().is_none_or(|s| s.is_empty()) => {
            Err("the configured client identity was silently ignored".into())
        }
        None => Ok(()),
    }
}

/// Connections one after another; each is judged as if it were alone.
fn history(cs: &[(usize, usize)], trusts: &[T], ids: &[&'static str], v13: bool, tokio: bool, st: &mut Stats) -> R {
    let mut servers: HashMap<usize, Arc<ServerConfig>> = HashMap::new();
    let mut m = Configs::new();
    for (n, (t, i)) in cs.iter().enumerate() {
        let tr = &trusts[*t];
        let id = ident(ids[*i]);
        let cfg = config(&mut m, tr, None)?;
        let srv = servers.entry(*i).or_insert_with(|| server(id, v13, b'n').0).clone();
        let g = connect(move || Ok(cfg.clone()), "localhost", true, false, Some(srv), tokio)?;
        st.step();
        if g.srv.resumed {
            st.nontrivial();
        }
        st.outcome(&(g.srv.resumed, g.established()));
        match tr.accepts(id, false) {
            Some(true) => whole(&g).map_err(|e| format!("connection {n}: a trusted server ({}) was {e}", id.name))?,
            Some(false) if g.established() => {
                return Err(format!("connection {n} was established with an untrusted server ({}), resumed={}", id.name, g.srv.resumed))
            }
            _ => (),
        }
    }
    Ok(())
}

/// How the `tls` flag, the kind of server and failing configurations combine.
fn plain(tls: bool, no_tls: bool, srv_tls: bool, cfg: u8, tokio: bool, st: &mut Stats) -> R {
    let mut m = Configs::new();
    let t = T { kind: if cfg == b'N' { 'N' } else { 'O' }, files: if cfg == b'N' { vec![] } else { vec!["ca-a"] }, sys: "empty" };
    let c = config(&mut m, &t, None)?;
    let srv = srv_tls.then(|| server(&IDENTS[0], true, b'n').0);
    let mk = move || if cfg == b'e' { Err(std::io::Error::new(std::io::ErrorKind::Other, "no config")) } else { Ok(c.clone()) };
    let use_tls = tls && !no_tls;
    if !use_tls && srv_tls {
        // The TLS server rejects the plain line; nothing to learn.
        return Ok(());
    }
    let g = connect(mk, "127.0.0.1", tls, no_tls, srv, tokio)?;
    st.step();
    st.nontrivial();
    st.outcome(&(g.established(), g.tls_fn_called));
    if g.tls_fn_called != use_tls {
        return Err(format!("tls_fn called: {}, expected {use_tls}", g.tls_fn_called));
    }
    if use_tls && (cfg == b'e' || !srv_tls) {
        return if g.line.is_some() { Err("a message was accepted from a connection without TLS".into()) } else { Ok(()) };
    }
    whole(&g)
}

/// Whether TLS is used depends on the flag alone, never on the port.
fn ports(port: Option<u16>, tls: bool, no_tls: bool, tokio: bool, st: &mut Stats) -> R {
    let c = T { kind: 'N', files: vec![], sys: "empty" }.build(None).map_err(|e| e.to_string())?;
    let use_tls = tls && !no_tls;
    let listen = port.unwrap_or(if use_tls { 6697 } else { 6667 });
    for n in 0..4u32 {
        // An address of this process' own.
        let x = std::process::id().wrapping_mul(5).wrapping_add(n) & 0x3f_ffff;
        let host = format!("127.{}.{}.{}", 64 + (x >> 16), x >> 8 & 255, x & 255);
        let srv = use_tls.then(|| server(&IDENTS[0], true, b'n').0);
        match connect_once(|| Ok(c.clone()), &host, Some((port, listen)), tls, no_tls, srv, tokio) {
            Err(e) if e == BUSY => continue,
            Err(e) => return Err(e),
            Ok(g) => {
                st.step();
                st.nontrivial();
                if g.tls_fn_called != use_tls {
                    return Err(format!("tls_fn called: {}, expected {use_tls}", g.tls_fn_called));
                }
                return whole(&g);
            }
        }
    }
    // Not to be had here.
    st.outcome(&"port not available");
    Ok(())
}

/// Both directions carry every byte, whatever the sizes of the pieces.
fn carriage(kind: u8, tokio: bool, n: usize, chunk: usize, st: &mut Stats) -> R {
    let cfg = T { kind: 'O', files: vec!["ca-a"], sys: "empty" }.build(None).map_err(|e| e.to_string())?;
    let srv = (kind != b'p').then(|| server(&IDENTS[0], kind == b'3', b'n').0);
    let l = TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
    let port = l.local_addr().unwrap().port();
    let th = std::thread::spawn(move || -> Vec<u8> {
        fn go(t: &mut (impl Read + Write), n: usize, chunk: usize) -> Vec<u8> {
            let text: String = (0..n).map(|i| format!(":s DOWN {i} :some text of the server\r\n")).collect();
            for c in text.as_bytes().chunks(chunk) {
                if t.write_all(c).and_then(|_| t.flush()).is_err() {
                    return b"write failed".to_vec();
                }
            }
            let mut out = Vec::new();
            let mut b = [0u8; 4096];
            while out.iter().filter(|c| **c == b'\n').count() < n {
                match t.read(&mut b) {
                    Ok(k) if k > 0 => out.extend_from_slice(&b[..k]),
                    _ => break,
                }
            }
            out
        }
        let Ok((mut sock, _)) = l.accept() else { return Vec::new() };
        sock.set_nodelay(true).unwrap();
        sock.set_read_timeout(Some(LIMIT)).unwrap();
        match srv {
            None => go(&mut sock, n, chunk),
            Some(cfg) => {
                let mut c = ServerConnection::new(cfg).unwrap();
                let r = go(&mut rustls::Stream::new(&mut c, &mut sock), n, chunk);
                r
            }
        }
    });
    let addr = ServerAddr { address: Word::try_from("localhost".to_string()).unwrap(), tls: kind != b'p', port: Some(port) };
    let up: Vec<String> = (0..n).map(|i| format!("UP {i} :some text of the client")).collect();
    let mut down = Vec::new();
    macro_rules! go {
        ($conn:expr, $($run:tt)*) => {{
            let mut c = Client::new($conn, SyncChannels);
            c.set_read_timeout(Some(LIMIT));
            c.queue_mut().set_rate_limit(Duration::ZERO, 0);
            let (_, rx) = c.add((), YieldAll).unwrap();
            for u in &up {
                c.queue_mut().edit().push(ClientMsg::parse(u.clone()).unwrap());
            }
            while down.len() < n {
                let r = c.$($run)*;
                match r.map_err(|e| format!("run: {e}"))? {
                    None => return Err("timed out".into()),
                    Some(_) => down.extend(rx.try_iter().map(|m| m.to_string())),
                }
            }
        }};
    }
    if tokio {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async {
            let conn = addr.connect_tokio(move || Ok(cfg)).await.map_err(|e| e.to_string())?;
            go!(conn, run_tokio().await);
            Ok::<(), String>(())
        })?;
    } else {
        let conn = addr.connect(move || Ok(cfg)).map_err(|e| e.to_string())?;
        go!(conn, run());
    }
    st.nontrivial();
    st.steps(2 * n as u64);
    let want: Vec<String> = (0..n).map(|i| format!(":s DOWN {i} :some text of the server")).collect();
    if down != want {
        let i = down.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!("line {i} from the server arrived as {:?}", down.get(i)));
    }
    let got = th.join().map_err(|_| "the server panicked".to_string())?;
    let want: String = up.iter().map(|u| format!("{u}\r\n")).collect();
    if got != want.as_bytes() {
        let i = got.iter().zip(want.as_bytes()).take_while(|(a, b)| a == b).count();
        return Err(format!("the server received {} bytes of {}, equal up to {i}", got.len(), want.len()));
    }
    Ok(())
}

/// Timeouts of the blocking streams are those of their sockets.
fn timeouts(kind: u8, seq: &[usize], st: &mut Stats) -> R {
    use vinezombie::client::conn::{ReadTimeout, WriteTimeout};
    let cfg = T { kind: 'O', files: vec!["ca-a"], sys: "empty" }.build(None).map_err(|e| e.to_string())?;
    let l = TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
    let port = l.local_addr().unwrap().port();
    let srv = (kind != b'p').then(|| server(&IDENTS[0], kind == b'3', b'n').0);
    let stop: Arc<AtomicBool> = Default::default();
    let th = {
        let stop = stop.clone();
        std::thread::spawn(move || {
            let Ok((mut sock, _)) = l.accept() else { return };
            sock.set_read_timeout(Some(LIMIT)).unwrap();
            if let Some(cfg) = srv {
                let mut c = ServerConnection::new(cfg).unwrap();
                let _ = c.complete_io(&mut sock);
            }
            while !stop.load(SeqCst) {
                std::thread::sleep(Duration::from_micros(200));
            }
        })
    };
    let r = (|| {
        let addr = ServerAddr { address: Word::try_from("localhost".to_string()).unwrap(), tls: kind != b'p', port: Some(port) };
        let mut conn = addr.connect(move || Ok(cfg)).map_err(|e| e.to_string())?;
        let vals = [None, Some(Duration::from_millis(20)), Some(Duration::from_secs(7)), Some(Duration::ZERO)];
        let (mut rd, mut wr): (Option<Duration>, Option<Duration>) = (None, None);
        for x in seq {
            let v = vals[x / 4];
            let (which, res) = match x % 4 {
                0 => ('r', conn.get_ref().set_read_timeout(v)),
                1 => ('w', conn.get_ref().set_write_timeout(v)),
                2 => ('r', ReadTimeout::set_read_timeout(&mut conn, v)),
                _ => ('w', WriteTimeout::set_write_timeout(&mut conn, v)),
            };
            let ok = v != Some(Duration::ZERO);
            if res.is_ok() != ok {
                return Err(format!("setting the {which} timeout to {v:?}: {res:?}"));
            }
            if ok {
                *(if which == 'r' { &mut rd } else { &mut wr }) = v;
            }
            let (r, w) = (conn.get_ref().read_timeout().map_err(|e| e.to_string())?, conn.get_ref().write_timeout().map_err(|e| e.to_string())?);
            if (r, w) != (rd, wr) {
                return Err(format!("timeouts are {r:?} and {w:?}, set were {rd:?} and {wr:?}"));
            }
            st.step();
        }
        if rd == Some(Duration::from_millis(20)) {
            // Silence is reported (when exactly depends on the kernel's tick).
            let mut b = [0u8; 1];
            match conn.read(&mut b) {
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => (),
                r => return Err(format!("a silent server gave {r:?}")),
            }
            st.nontrivial();
        }
        conn.get_ref().shutdown(std::net::Shutdown::Both).map_err(|e| e.to_string())?;
        let mut b = [0u8; 1];
        match conn.read(&mut b) {
            Ok(n) if n > 0 => Err("read after shutdown".to_string()),
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => Err("a closed connection waits".into()),
            _ => Ok(()),
        }
    })();
    stop.store(true, SeqCst);
    let _ = th.join();
    r
}

pub fn run(cx: &mut Ctx) {
    // Nothing here may ask about the real network.
    let mut m = Configs::new();
    let mut trusts: Vec<T> = Vec::new();
    let files: &[&[&str]] = &[
        &[],
        &["ca-a"],
        &["ca-b"],
        &["ca-a", "ca-b"],
        &["bundle"],
        &["inter"],
        &["self"],
        &["ca-b", "self"],
        &["ca-x"],
        &["a"],
        &["junk"],
        &["empty"],
        &["missing"],
        &["ca-a", "missing"],
        &["junk", "ca-a"],
        &["ca-b", "self", "ca-x", "inter", "ca-a"],
        &["ca-a", "inter", "other", "self", "ca-b"],
        &["bundle5"],
    ];
    for f in files {
        trusts.push(T { kind: 'O', files: f.to_vec(), sys: "ca-a" });
        for sys in ["ca-a", "ca-b", "bundle", "empty"] {
            trusts.push(T { kind: 'A', files: f.to_vec(), sys });
        }
        trusts.push(T { kind: 'O', files: f.to_vec(), sys: "ca-b" });
    }
    for sys in ["ca-a", "ca-b", "bundle", "self", "inter", "empty", "junk", "missing"] {
        trusts.push(T { kind: 'D', files: vec![], sys });
        trusts.push(T { kind: 'N', files: vec![], sys });
    }
    // Pinning the leaf itself: a pinned certificate that is not self-signed is no root here; either answer.
    let unsure = |t: &T, i: &Ident| t.roots().contains(&"a") && (i.chain.contains(&"a"));
    cx.section("trust", &format!("{} trust settings with system roots x {} server identities x host as name and as address x TLS 1.2, 1.3 x blocking, tokio", trusts.len(), IDENTS.len()));
    for t in &trusts {
        for i in IDENTS {
            if unsure(t, i) {
                continue;
            }
            for host in ["localhost", "127.0.0.1"] {
                for v13 in [false, true] {
                    for tokio in [false, true] {
                        let m = &mut m;
                        cx.case(|| format!("{t:?}, {}, host {host}, TLS 1.{}, tokio={tokio}", i.name, 2 + v13 as u8), |st| one(m, t, i, host, v13, tokio, st));
                    }
                }
            }
        }
    }
    cx.section("client identity", "client certificate files (key and certificates in any order, chains, RSA, and broken ones) x trust settings x servers that ignore, allow or demand one");
    let ts = [
        T { kind: 'O', files: vec!["ca-a"], sys: "ca-b" },
        T { kind: 'A', files: vec!["ca-b"], sys: "ca-a" },
        T { kind: 'D', files: vec![], sys: "ca-a" },
        T { kind: 'N', files: vec![], sys: "empty" },
    ];
    for t in &ts {
        for mine in std::iter::once(None).chain((0..MINE.len()).map(Some)) {
            for ask in *b"nom" {
                for v13 in [false, true] {
                    for tokio in [false, true] {
                        let m = &mut m;
                        cx.case(|| format!("{t:?}, {:?}, server {}, TLS 1.{}, tokio={tokio}", mine.map(|i| MINE[i].0), ask as char, 2 + v13 as u8), |st| client_cert(m, t, mine, v13, ask, tokio, st));
                    }
                }
            }
        }
    }
    cx.section("histories", "sequences of connections under shared configurations to servers that resume sessions");
    let ids = ["leaf of A", "self-signed", "leaf of B", "certificate of A with another key"];
    let ht = [T { kind: 'O', files: vec!["ca-a"], sys: "ca-b" }, T { kind: 'N', files: vec![], sys: "ca-b" }, T { kind: 'D', files: vec![], sys: "ca-b" }, T { kind: 'A', files: vec!["self"], sys: "ca-b" }];
    let n = ids.len() * ht.len();
    let d = cx.pick(2, 3);
    seqs(n, 2, d, |ix| {
        let cs: Vec<(usize, usize)> = ix.iter().map(|x| (x / ids.len(), x % ids.len())).collect();
        for v13 in [false, true] {
            for tokio in [false, true] {
                cx.case(|| format!("{:?} TLS 1.{} tokio={tokio}", cs.iter().map(|(t, i)| (&ht[*t].kind, ids[*i])).collect::<Vec<_>>(), 2 + v13 as u8), |st| history(&cs, &ht, &ids, v13, tokio, st));
            }
        }
    });
    cx.section("flag", "tls flag x connector x kind of server x configuration function (works, fails, unverified)");
    for tls in [false, true] {
        for no_tls in [false, true] {
            for srv_tls in [false, true] {
                for cfg in *b"oeN" {
                    for tokio in [false, true] {
                        cx.case(|| format!("tls={tls} connector without TLS={no_tls} server with TLS={srv_tls} config {} tokio={tokio}", cfg as char), |st| plain(tls, no_tls, srv_tls, cfg, tokio, st));
                    }
                }
            }
        }
    }
    cx.section("ports", "well-known and other ports (or none given) x tls flag x connectors");
    let mut list: Vec<Option<u16>> = vec![None];
    list.extend([1u16, 21, 22, 23, 25, 80, 113, 194, 443, 529, 994, 1023, 1024, 1025, 2000, 4000, 5000, 5555].map(Some));
    list.extend((6660..=6700).chain(if cx.thorough() { 1025..=1225 } else { 7000..=7002 }).map(Some));
    list.extend([7070, 7776, 7777, 8000, 8001, 8002, 8067, 8080, 8443, 9000, 9090, 9999, 32767, 32768, 65534, 65535].map(Some));
    for p in list {
        for (tls, no_tls) in [(false, false), (false, true), (true, false), (true, true)] {
            for tokio in [false, true] {
                if no_tls && p.is_none() && tls {
                    // Which default applies is not specified.
                    continue;
                }
                cx.case(|| format!("port {p:?} tls={tls} connector without TLS={no_tls} tokio={tokio}"), |st| ports(p, tls, no_tls, tokio, st));
            }
        }
    }
    cx.section("carriage", "plain, TLS 1.2, TLS 1.3 x connectors x numbers of messages x sizes of the server's pieces");
    let most = cx.pick(600, 3000);
    for kind in *b"p23" {
        for tokio in [false, true] {
            for n in [1, 2, 30, most] {
                for chunk in [1, 7, 36, 37, 100, 4096, 16384, 40000] {
                    if chunk == 1 && n > 30 && !cx.thorough() {
                        continue;
                    }
                    cx.case(|| format!("{} tokio={tokio} {n} messages in pieces of {chunk}", kind as char), |st| carriage(kind, tokio, n, chunk, st));
                }
            }
        }
    }
    cx.section("timeouts", "all sequences of setting read and write timeouts (through both interfaces) on blocking streams, then a read of a silent server and a shutdown");
    let d = cx.pick(2, 3);
    for kind in *b"p23" {
        seqs(16, 0, d, |ix| {
            cx.case(|| format!("{} {ix:?}", kind as char), |st| timeouts(kind, ix, st));
        });
    }
}
