//! Real server processes on loopback addresses of their own, and blocking
//! clients for every stack a listener can be configured with.
use std::io::{self, Read, Write};
use std::net::{IpAddr, Ipv4Addr, SocketAddr, TcpStream};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Arc;
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

use rustls::pki_types::pem::PemObject;
use rustls::pki_types::{CertificateDer, PrivateKeyDer, ServerName};
use rustls::{ClientConfig, ClientConnection, RootCertStore, StreamOwned};

/// A loopback address nobody else uses.
pub fn fresh_ip() -> Ipv4Addr {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    let pid = std::process::id();
    Ipv4Addr::new(127, 1 + (pid % 200) as u8, 1 + (n / 250 % 250) as u8, 1 + (n % 250) as u8)
}

pub fn certs() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("mc-core/certs")
}

/// The listening IPv4 ports of one loopback address.
pub fn listening(ip: Ipv4Addr) -> Vec<u16> {
    let text = std::fs::read_to_string("/proc/self/net/tcp").unwrap_or_default();
    let me = format!("{:08X}", u32::from_le_bytes(ip.octets()));
    let mut v = vec![];
    for l in text.lines().skip(1) {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() > 3 && f[3] == "0A" && let Some((a, p)) = f[1].split_once(':') && a == me {
            v.push(u16::from_str_radix(p, 16).unwrap());
        }
    }
    v.sort();
    v
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        static NEXT: AtomicU32 = AtomicU32::new(0);
        let d = std::env::temp_dir().join(format!("mc-{tag}-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    pub fn file(&self, name: &str, text: &[u8]) -> PathBuf {
        let p = self.0.join(name);
        std::fs::write(&p, text).unwrap();
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Server {
    pub child: Child,
}
impl Server {
    pub fn start(exe: &str, config: &Path) -> Result<Server, String> {
        let child = Command::new(exe)
            .env_clear()
            .env("RUST_LOG", "off")
            .args(["start", "--config", config.to_str().unwrap()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("ENGINE: spawn {e}"))?;
        Ok(Server { child })
    }
    /// Waits until the process ended or `ready` holds.
    pub fn wait(&mut self, ready: impl Fn() -> bool) -> Result<bool, String> {
        let t = Instant::now();
        loop {
            if let Some(s) = self.child.try_wait().map_err(|e| format!("ENGINE: {e}"))? {
                return if s.code().is_some() { Ok(false) } else { Err(format!("the server was ended: {s}")) };
            }
            if ready() {
                return Ok(true);
            }
            if t.elapsed() > Duration::from_secs(20) {
                return Err("the server neither started nor stopped within 20 s".into());
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    pub fn exit_code(&mut self) -> Option<i32> {
        self.child.try_wait().ok().flatten().and_then(|s| s.code())
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub trait Rw: Read + Write + Send {}
impl<T: Read + Write + Send> Rw for T {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Head {
    None,
    /// PROXY v2 without TLS information
    Plain,
    /// PROXY v2 of a proxy that terminated TLS
    Tls,
    /// PROXY v2 LOCAL: a health check
    Local,
}
/// A PROXY v2 header for 10.1.2.3:4567.
pub fn proxy_header(h: Head) -> Vec<u8> {
    let mut d = b"\r\n\r\n\0\r\nQUIT\n".to_vec();
    match h {
        Head::None => return vec![],
        Head::Local => d.extend([0x20, 0, 0, 0]),
        _ => {
            let mut tlvs = vec![];
            if h == Head::Tls {
                tlvs.extend([0x20, 0, 5, 1, 0, 0, 0, 0]);
                tlvs.extend([0x02, 0, 11]);
                tlvs.extend(b"sni.example");
            }
            d.extend([0x21, 0x11]);
            d.extend(((12 + tlvs.len()) as u16).to_be_bytes());
            d.extend([10, 1, 2, 3, 10, 9, 9, 9]);
            d.extend(4567u16.to_be_bytes());
            d.extend(1883u16.to_be_bytes());
            d.extend(tlvs);
        }
    }
    d
}

/// A client's TLS: the certificate it presents, if any.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tls {
    No,
    Anonymous,
    Cert(&'static str),
    /// the certificate of one, the key of another
    Mixed(&'static str, &'static str),
}

fn tls_config(t: Tls) -> Result<Option<Arc<ClientConfig>>, String> {
    let (cert, key) = match t {
        Tls::No => return Ok(None),
        Tls::Anonymous => (None, None),
        Tls::Cert(n) => (Some(n), Some(n)),
        Tls::Mixed(c, k) => (Some(c), Some(k)),
    };
    let mut roots = RootCertStore::empty();
    roots.add(CertificateDer::from_pem_file(certs().join("ca.pem")).map_err(|e| format!("ENGINE: {e}"))?).map_err(|e| format!("ENGINE: {e}"))?;
    let b = ClientConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider()))
        .with_safe_default_protocol_versions()
        .map_err(|e| format!("ENGINE: {e}"))?
        .with_root_certificates(roots);
    let c = match (cert, key) {
        (Some(c), Some(k)) => {
            let chain: Vec<_> = CertificateDer::pem_file_iter(certs().join(format!("{c}.pem"))).unwrap().map(|c| c.unwrap()).collect();
            let key = PrivateKeyDer::from_pem_file(certs().join(format!("{k}.key"))).unwrap();
            if c == k {
                b.with_client_auth_cert(chain, key).map_err(|e| format!("ENGINE: {e}"))?
            } else {
                // a thief holds the certificate but not its key
                let signer = rustls::crypto::ring::sign::any_supported_type(&key).unwrap();
                #[derive(Debug)]
                struct Thief(Arc<rustls::sign::CertifiedKey>);
                impl rustls::client::ResolvesClientCert for Thief {
                    fn resolve(&self, _: &[&[u8]], _: &[rustls::SignatureScheme]) -> Option<Arc<rustls::sign::CertifiedKey>> {
                        Some(self.0.clone())
                    }
                    fn has_certs(&self) -> bool {
                        true
                    }
                }
                b.with_client_cert_resolver(Arc::new(Thief(Arc::new(rustls::sign::CertifiedKey::new(chain, signer)))))
            }
        }
        _ => b.with_no_client_auth(),
    };
    Ok(Some(Arc::new(c)))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Stack {
    pub head: Head,
    pub tls: Tls,
    pub ws: bool,
}

/// Sends `first` through the stack and returns what comes back until a whole
/// packet of at least two bytes arrived or the connection ended.
pub fn talk(addr: SocketAddr, s: &Stack, first: &[u8]) -> Result<Vec<u8>, String> {
    let eng = |e: io::Error| format!("ENGINE: {e}");
    let mut tcp = TcpStream::connect_timeout(&addr, Duration::from_secs(10)).map_err(eng)?;
    tcp.set_read_timeout(Some(Duration::from_secs(20))).map_err(eng)?;
    tcp.set_write_timeout(Some(Duration::from_secs(20))).map_err(eng)?;
    let _ = tcp.set_nodelay(true);
    // a server that refuses may have closed already: errors are refusals
    if tcp.write_all(&proxy_header(s.head)).is_err() {
        return Ok(vec![]);
    }
    let mut conn: Box<dyn Rw> = match tls_config(s.tls)? {
        None => Box::new(tcp),
        Some(c) => {
            let conn = ClientConnection::new(c, ServerName::try_from("localhost").unwrap()).map_err(|e| format!("ENGINE: {e}"))?;
            Box::new(StreamOwned::new(conn, tcp))
        }
    };
    let timed = |e: &io::Error| matches!(e.kind(), io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut);
    let read = |conn: &mut Box<dyn Rw>, out: &mut Vec<u8>| -> Result<bool, String> {
        let mut b = [0; 2048];
        match conn.read(&mut b) {
            Ok(0) => Ok(false),
            Ok(n) => {
                out.extend(&b[..n]);
                Ok(true)
            }
            Err(e) if timed(&e) => Err("neither an answer nor the end within 20 s".into()),
            Err(_) => Ok(false),
        }
    };
    if s.ws {
        let req = "GET /mqtt HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: mqtt\r\n\r\n";
        if conn.write_all(req.as_bytes()).and_then(|_| conn.flush()).is_err() {
            return Ok(vec![]);
        }
        let mut got = vec![];
        while !got.windows(4).any(|w| w == b"\r\n\r\n") {
            if !read(&mut conn, &mut got)? {
                return Ok(vec![]);
            }
        }
        if !got.starts_with(b"HTTP/1.1 101") || !String::from_utf8_lossy(&got).contains("s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") {
            return Ok(vec![]);
        }
        let mut frame = vec![0x82, 0x80 | first.len() as u8, 1, 2, 3, 4];
        frame.extend(first.iter().enumerate().map(|(i, b)| b ^ (1 + i as u8 % 4)));
        if conn.write_all(&frame).and_then(|_| conn.flush()).is_err() {
            return Ok(vec![]);
        }
        let at = got.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
        let mut got = got[at..].to_vec();
        while got.len() < 4 || got.len() < 2 + got[1] as usize {
            if !read(&mut conn, &mut got)? {
                return Ok(vec![]);
            }
        }
        return Ok(if got[0] == 0x82 { got[2..].to_vec() } else { vec![] });
    }
    if conn.write_all(first).and_then(|_| conn.flush()).is_err() {
        return Ok(vec![]);
    }
    let mut got = vec![];
    while got.len() < 2 {
        if !read(&mut conn, &mut got)? {
            break;
        }
    }
    Ok(got)
}

pub fn v4(ip: Ipv4Addr, port: u16) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(ip), port)
}
