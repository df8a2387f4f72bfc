//! Listener stacks: a client is served exactly if it speaks the stack its
//! listener is configured with, and is known by its real address.
use std::sync::Arc;

use akasa_core::*;
use mc_engine::Check;
use serde_json::json;

use crate::model::*;
use crate::net::*;
use crate::world::Ver::*;
use crate::world::*;

/// How one TLS listener checks its clients.
#[derive(Clone, Copy, Debug)]
struct Verify {
    ca: Option<&'static str>,
    verify: bool,
    required: bool,
}

pub fn run(c: &Arc<Check>) {
    stacks(c);
    peers(c);
}

fn stacks(c: &Arc<Check>) {
    let exe = match std::env::var("AKASA_CLI") {
        Ok(e) => e,
        Err(_) => return c.fail("cli", "ENGINE: AKASA_CLI is not set".into(), json!({})),
    };
    // one process per way to check clients, with every listener that can have it
    let verifies = [
        Verify { ca: None, verify: false, required: false },
        Verify { ca: Some("ca"), verify: false, required: true },
        Verify { ca: Some("ca"), verify: true, required: true },
        Verify { ca: Some("ca"), verify: true, required: false },
        Verify { ca: Some("ca2"), verify: true, required: true },
        Verify { ca: Some("ca2"), verify: true, required: false },
        Verify { ca: Some("both"), verify: true, required: true },
    ];
    let proxies = [None, Some(ProxyMode::Normal), Some(ProxyMode::TlsTermination)];
    let heads = [Head::None, Head::Plain, Head::Tls, Head::Local];
    let tlss = [
        Tls::No,
        Tls::Anonymous,
        Tls::Cert("client"),
        Tls::Cert("client2"),
        Tls::Cert("wrongeku"),
        Tls::Cert("expired"),
        Tls::Cert("future"),
        Tls::Mixed("client", "client2"),
        Tls::Mixed("client2", "client"),
    ];
    // listener kinds: plain or WebSocket, behind TLS or not, and the proxy
    let mut kinds = vec![];
    for ws in [false, true] {
        for p in proxies {
            kinds.push((ws, None, p));
        }
        for v in verifies {
            for p in [None, Some(ProxyMode::Normal)] {
                kinds.push((ws, Some(v), p));
            }
        }
    }
    let both = [std::fs::read(certs().join("ca.pem")), std::fs::read(certs().join("ca2.pem"))].map(|r| r.unwrap_or_default()).concat();
    let show = |i: usize| format!("listener (websocket, tls, proxy) = {:?}", kinds[i]);
    c.explore_product("stacks", "every listener configuration x every client stack and certificate", kinds.len(), show, |i| {
        let (ws, tls, proxy) = kinds[i];
        let s = Scratch::new("c30");
        let ip = fresh_ip();
        let bothf = s.file("both.pem", &both);
        let mut g = Config::new_allow_anonymous();
        g.listeners = Listeners { mqtt: None, mqtts: None, ws: None, wss: None, http: None };
        let addr = v4(ip, 1883);
        match tls {
            None => {
                let l = Some(Listener { addr, reuse_port: false, proxy_mode: proxy });
                if ws { g.listeners.ws = l } else { g.listeners.mqtt = l }
            }
            Some(v) => {
                let l = Some(TlsListener {
                    addr,
                    reuse_port: false,
                    proxy: proxy.is_some(),
                    ca_file: v.ca.map(|n| if n == "both" { bothf.clone() } else { certs().join(format!("{n}.pem")) }),
                    key_file: certs().join("server.key"),
                    cert_file: certs().join("server.pem"),
                    verify_peer: v.verify,
                    fail_if_no_peer_cert: v.required,
                });
                if ws { g.listeners.wss = l } else { g.listeners.mqtts = l }
            }
        }
        let path = s.file("config", serde_json::to_string(&g).unwrap().as_bytes());
        let mut srv = Server::start(&exe, &path)?;
        if !srv.wait(|| listening(ip) == [1883])? {
            return Err(format!("the server stopped with {:?}", srv.exit_code()));
        }
        let m = mqtt_proto::v3::Packet::from(mqtt_proto::v3::Connect::new(Arc::from("a-client-identifier"), 0)).encode().unwrap();
        for head in heads {
            for t in tlss {
                for w in [false, true] {
                    c.transition();
                    let stack = Stack { head, tls: t, ws: w };
                    let head_ok = match proxy {
                        None => head == Head::None,
                        Some(ProxyMode::Normal) => head == Head::Plain,
                        Some(ProxyMode::TlsTermination) => head == Head::Tls,
                    };
                    let tls_ok = match (tls, t) {
                        (None, t) => t == Tls::No,
                        (Some(_), Tls::No) => false,
                        (Some(v), _) if !v.verify => true,
                        (Some(v), Tls::Anonymous) => !v.required,
                        (Some(v), Tls::Cert(n)) => match n {
                            "client" => matches!(v.ca, Some("ca" | "both")),
                            "client2" => matches!(v.ca, Some("ca2" | "both")),
                            _ => false,
                        },
                        (Some(_), Tls::Mixed(..)) => false,
                    };
                    let want = head_ok && tls_ok && w == ws;
                    let got = talk(addr, &stack, m.as_slice()).map_err(|e| format!("{stack:?}: {e}"))?;
                    c.outcome(&(want, i));
                    if (got == [0x20, 2, 0, 0]) != want {
                        return Err(format!("{stack:?}: answered {got:02x?}, expected to be {}", if want { "served" } else { "refused" }));
                    }
                }
            }
        }
        Ok(())
    });
}

/// The address hooks see, for every header, cut and end of the stream.
fn peers(c: &Arc<Check>) {
    let v4h = |tlvs: &[u8]| {
        let mut d = b"\r\n\r\n\0\r\nQUIT\n\x21\x11".to_vec();
        d.extend(((12 + tlvs.len()) as u16).to_be_bytes());
        d.extend([192, 0, 2, 7, 10, 9, 9, 9]);
        d.extend(40000u16.to_be_bytes());
        d.extend(1883u16.to_be_bytes());
        d.extend(tlvs);
        d
    };
    let v6h = || {
        let mut d = b"\r\n\r\n\0\r\nQUIT\n\x21\x21\x00\x24".to_vec();
        d.extend([0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9]);
        d.extend([0xfe; 16]);
        d.extend(40001u16.to_be_bytes());
        d.extend(1883u16.to_be_bytes());
        d
    };
    let unix = || {
        let mut d = b"\r\n\r\n\0\r\nQUIT\n\x21\x31\x00\xd8".to_vec();
        d.extend([b'u'; 216]);
        d
    };
    let tls = [&[0x20, 0, 5, 1, 0, 0, 0, 0][..], &[0x02, 0, 3], b"sni"].concat();
    // (header, under TLS termination, what hooks see)
    let cases: Vec<(&str, bool, bool, Vec<u8>, Option<&str>)> = vec![
        ("no proxy", false, false, vec![], Some("own")),
        ("IPv4", true, false, v4h(&[]), Some("192.0.2.7:40000")),
        ("IPv4, unknown TLV", true, false, v4h(&[0xe0, 0, 2, 1, 2]), Some("192.0.2.7:40000")),
        ("IPv6", true, false, v6h(), Some("[2001:db8::9]:40001")),
        ("TLS at the proxy", true, true, v4h(&tls), Some("192.0.2.7:40000")),
        ("UNIX", true, false, unix(), None),
        ("LOCAL", true, false, b"\r\n\r\n\0\r\nQUIT\n\x20\0\0\0".to_vec(), None),
        ("header where none is expected", false, false, v4h(&[]), None),
        ("TLS information without termination", true, false, v4h(&tls), None),
        ("termination without TLS information", true, true, v4h(&[]), None),
        ("missing header", true, false, vec![], None),
    ];
    let n = cases.len() * 2 * 3;
    c.explore_product("peer address", "every kind of header x version x how it is cut", n, |i| format!("{}, {:?}, cut {}", cases[i / 6].0, [V5, V311][i % 2], i / 2 % 3), |i| {
        let (_, proxy, term, head, want) = &cases[i / 6];
        let ver = [V5, V311][i % 2];
        let mut w = World::new(crate::sim::base_config());
        let mut args = plain_args();
        args.proxy = *proxy;
        args.proxy_tls_termination = *term;
        let a = w.open_with(ver, args);
        match i / 2 % 3 {
            0 => w.send(a, head),
            1 => {
                for b in head {
                    w.send(a, &[*b]);
                    w.quiesce();
                }
            }
            _ => {
                w.set_chunks(a, Some(1), None);
                w.send(a, head);
            }
        }
        w.send_connect(a, &ConnSpec::new("a-client-identifier", ver));
        w.quiesce();
        let got = w.recv(a);
        let calls = w.hook.take_calls();
        let seen = calls.iter().find_map(|c| c.strip_prefix("before_connect a-client-identifier "));
        match want {
            Some(x) => {
                let own = format!("127.0.0.1:{}", 10000 + a);
                let x = if *x == "own" { own.as_str() } else { *x };
                if seen != Some(x) || !matches!(got[..], [Rx::Connack { code: 0, .. }]) {
                    return Err(format!("observed {got:?}, hooks saw {seen:?}, expected {x}"));
                }
            }
            None => {
                if seen.is_some() || got != [Rx::Closed] {
                    return Err(format!("observed {got:?}, hooks saw {seen:?}, expected the connection to be closed"));
                }
            }
        }
        c.outcome(&format!("{seen:?} {got:?}"));
        match w.panicked() {
            Some(p) => Err(format!("panic: {p}")),
            None => Ok(()),
        }
    });
}
