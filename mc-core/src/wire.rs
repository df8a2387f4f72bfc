//! The client's side of the layers below MQTT, in memory: TLS by rustls,
//! WebSocket by hand.
use std::io::{Read, Write};
use std::sync::{Arc, OnceLock};

use rustls::pki_types::pem::PemObject;
use rustls::pki_types::{CertificateDer, PrivateKeyDer, ServerName};
use rustls::{ClientConfig, ClientConnection, RootCertStore, ServerConfig};

use crate::net::certs;

pub fn acceptor() -> tokio_rustls::TlsAcceptor {
    static S: OnceLock<Arc<ServerConfig>> = OnceLock::new();
    let s = S.get_or_init(|| {
        let chain: Vec<_> = CertificateDer::pem_file_iter(certs().join("server.pem")).unwrap().map(|c| c.unwrap()).collect();
        let key = PrivateKeyDer::from_pem_file(certs().join("server.key")).unwrap();
        Arc::new(
            ServerConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider()))
                .with_safe_default_protocol_versions()
                .unwrap()
                .with_no_client_auth()
                .with_single_cert(chain, key)
                .unwrap(),
        )
    });
    tokio_rustls::TlsAcceptor::from(s.clone())
}
fn client() -> ClientConnection {
    static C: OnceLock<Arc<ClientConfig>> = OnceLock::new();
    let c = C.get_or_init(|| {
        let mut roots = RootCertStore::empty();
        roots.add(CertificateDer::from_pem_file(certs().join("ca.pem")).unwrap()).unwrap();
        let mut c = ClientConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider()))
            .with_safe_default_protocol_versions()
            .unwrap()
            .with_root_certificates(roots)
            .with_no_client_auth();
        c.resumption = rustls::client::Resumption::disabled();
        Arc::new(c)
    });
    let mut t = ClientConnection::new(c.clone(), ServerName::try_from("localhost").unwrap()).unwrap();
    t.set_buffer_limit(None);
    t
}

pub const REQUEST: &str = "GET /mqtt HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: mqtt\r\n\r\n";

/// A client frame.
pub fn frame(first: u8, masked: bool, payload: &[u8]) -> Vec<u8> {
    let m = if masked { 0x80 } else { 0 };
    let mut f = vec![first];
    match payload.len() {
        n @ 0..126 => f.push(m | n as u8),
        n @ 126..65536 => {
            f.push(m | 126);
            f.extend((n as u16).to_be_bytes());
        }
        n => {
            f.push(m | 127);
            f.extend((n as u64).to_be_bytes());
        }
    }
    if masked {
        let k = [0x11, 0x22, 0x33, 0x84];
        f.extend(k);
        f.extend(payload.iter().enumerate().map(|(i, b)| b ^ k[i % 4]));
    } else {
        f.extend(payload);
    }
    f
}

pub struct Codec {
    tls: Option<ClientConnection>,
    pub ws: bool,
    /// answer to the upgrade request, once complete
    pub response: Option<String>,
    raw_off: usize,
    /// what is left of the bytes below MQTT
    below: Vec<u8>,
    /// the MQTT bytes received so far
    pub plain: Vec<u8>,
    /// frames other than binary ones
    pub others: Vec<(u8, Vec<u8>)>,
    pub errors: Vec<String>,
    frag: bool,
}
impl Codec {
    pub fn new(tls: bool, ws: bool) -> Codec {
        Codec { tls: tls.then(client), ws, response: None, raw_off: 0, below: vec![], plain: vec![], others: vec![], errors: vec![], frag: false }
    }
    pub fn handshaking(&self) -> bool {
        self.tls.as_ref().is_some_and(|t| t.is_handshaking())
    }
    /// Bytes TLS itself wants to send.
    pub fn pending(&mut self) -> Vec<u8> {
        let mut v = vec![];
        if let Some(t) = &mut self.tls {
            while t.wants_write() {
                t.write_tls(&mut v).unwrap();
            }
        }
        v
    }
    /// Through TLS only.
    pub fn seal(&mut self, bytes: &[u8]) -> Vec<u8> {
        match &mut self.tls {
            None => bytes.to_vec(),
            Some(t) => {
                t.writer().write_all(bytes).unwrap();
                self.pending()
            }
        }
    }
    /// MQTT bytes as one binary message.
    pub fn wrap(&mut self, bytes: &[u8]) -> Vec<u8> {
        if self.ws {
            let f = frame(0x82, true, bytes);
            self.seal(&f)
        } else {
            self.seal(bytes)
        }
    }
    /// Take what the server wrote since the last call.
    pub fn pull(&mut self, out: &[u8]) {
        let new = &out[self.raw_off..];
        self.raw_off = out.len();
        match &mut self.tls {
            None => self.below.extend(new),
            Some(t) => {
                let mut r = new;
                while !r.is_empty() {
                    if t.read_tls(&mut r).unwrap_or(0) == 0 {
                        break;
                    }
                    match t.process_new_packets() {
                        Ok(s) => {
                            let mut b = vec![0; s.plaintext_bytes_to_read()];
                            if t.reader().read_exact(&mut b).is_ok() {
                                self.below.extend(b);
                            }
                        }
                        Err(e) => {
                            self.errors.push(format!("TLS: {e}"));
                            return;
                        }
                    }
                }
            }
        }
        if !self.ws {
            self.plain.append(&mut self.below);
            return;
        }
        if self.response.is_none() {
            match self.below.windows(4).position(|w| w == b"\r\n\r\n") {
                None => return,
                Some(i) => {
                    self.response = Some(String::from_utf8_lossy(&self.below[..i]).to_string());
                    self.below.drain(..i + 4);
                }
            }
        }
        if !self.response.as_ref().unwrap().starts_with("HTTP/1.1 101") {
            return;
        }
        loop {
            let b = &self.below;
            if b.len() < 2 {
                return;
            }
            let (len, at) = match b[1] & 0x7f {
                126 if b.len() < 4 => return,
                126 => (u16::from_be_bytes([b[2], b[3]]) as usize, 4),
                127 if b.len() < 10 => return,
                127 => (u64::from_be_bytes(b[2..10].try_into().unwrap()) as usize, 10),
                n => (n as usize, 2),
            };
            if b.len() < at + len {
                return;
            }
            let (fin, op) = (b[0] & 0x80 != 0, b[0] & 0x0f);
            if b[0] & 0x70 != 0 || b[1] & 0x80 != 0 {
                self.errors.push(format!("frame header {:02x} {:02x}", b[0], b[1]));
            }
            let data = b[at..at + len].to_vec();
            self.below.drain(..at + len);
            if self.others.iter().any(|o| o.0 == 8) {
                self.errors.push("a frame after Close".into());
            }
            match op {
                2 | 0 if (op == 0) == self.frag => {
                    self.frag = !fin;
                    self.plain.extend(data);
                }
                8..=10 if fin && len < 126 => self.others.push((op, data)),
                _ => self.errors.push(format!("frame of opcode {op}, fin {fin}")),
            }
        }
    }
}
