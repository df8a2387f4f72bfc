//! The HTTP interface: health, and a gauge that is the number of connected
//! clients after every history.
use std::io::{Read, Write};
use std::sync::Arc;
use std::time::Duration;

use akasa_core::protocols::http::get_router;
use akasa_core::{Config, GlobalState, Http, Listeners};
use http_body_util::BodyExt;
use mc_engine::Check;
use serde_json::json;
use tower::ServiceExt;

use crate::model::*;
use crate::net::*;
use crate::sim::*;
use crate::world::Ver::{self, *};
use crate::world::*;

fn block<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..1000 {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
    panic!("ENGINE: the handler waits for something")
}
fn request(g: &Arc<GlobalState>, prometheus: bool, method: &str, path: &str) -> (u16, String, Vec<u8>) {
    let cfg = Http { addr: ([127, 0, 0, 1], 1).into(), reuse_port: false, prometheus };
    let req = axum::http::Request::builder().method(method).uri(path).body(axum::body::Body::empty()).unwrap();
    let r = block(get_router(&cfg, g.clone()).oneshot(req)).unwrap();
    let kind = r.headers().get("content-type").map(|v| v.to_str().unwrap_or("").to_string()).unwrap_or_default();
    let code = r.status().as_u16();
    (code, kind, block(r.into_body().collect()).unwrap().to_bytes().to_vec())
}
/// The one sample of the exposition format, its comments about it.
fn gauge(text: &str) -> Result<u64, String> {
    let err = || format!("not an exposition of ONLINE_CLIENTS: {text:?}");
    if !text.ends_with('\n') {
        return Err(err());
    }
    let (mut value, mut typed) = (None, false);
    for l in text.lines() {
        if let Some(t) = l.strip_prefix("# TYPE ") {
            typed |= t == "ONLINE_CLIENTS gauge" && value.is_none();
        } else if l.starts_with('#') {
        } else if let Some(v) = l.strip_prefix("ONLINE_CLIENTS ") {
            if value.replace(v.parse::<u64>().map_err(|_| err())?).is_some() {
                return Err(err());
            }
        } else {
            return Err(err());
        }
    }
    if !typed {
        return Err(err());
    }
    value.ok_or_else(err)
}

#[derive(Clone, Copy, Debug)]
enum Act {
    Connect(usize, Ver, bool),
    /// refused by the hook, by authentication, or malformed
    Refused(usize, u8),
    Half(usize),
    Eof(usize),
    Reset(usize),
    Disconnect(usize),
    Error(usize),
    Wait(u64),
}
use self::Act::*;
const IDS: [&str; 2] = ["client-0", "client-1"];

pub fn run(c: &Arc<Check>) {
    let mut acts = vec![];
    for i in 0..2 {
        acts.extend([Connect(i, V5, true), Connect(i, V5, false), Eof(i), Disconnect(i)]);
    }
    acts.extend([Connect(0, V311, true), Connect(0, V311, false), Reset(0), Error(0), Refused(0, 0), Refused(0, 1), Refused(1, 1), Half(0), Wait(3000), Wait(20_000)]);
    c.explore_tree("gauge", &acts, c.pick(5, 6), |a| format!("{a:?}"), |ops, _| {
        let mut cfg = base_config();
        cfg.min_keep_alive = 0;
        let mut w = World::new(cfg);
        let mut live: [Option<usize>; 2] = [None; 2];
        for (k, op) in ops.iter().enumerate() {
            match *op {
                Connect(i, v, clean) => {
                    let a = w.open(v);
                    let s = if clean { ConnSpec::new(IDS[i], v) } else { ConnSpec::persistent(IDS[i], v).expiry(10) };
                    w.send_connect(a, &s);
                    w.quiesce();
                    // a session of the other protocol version is not taken over
                    match w.recv(a).first() {
                        Some(Rx::Connack { code: 0, .. }) => live[i] = Some(a),
                        Some(Rx::Closed) if i == 0 => {}
                        r => return Err((k, format!("CONNECT answered {r:?}"))),
                    }
                }
                Refused(i, how) => {
                    let a = w.open(V5);
                    if how == 0 {
                        let mut p = connect_v5(&ConnSpec::new(IDS[i], V5));
                        p.properties.receive_max = Some(0);
                        w.send_v5(a, p);
                    } else {
                        let mut p = connect_v5(&ConnSpec::new(IDS[i], V5));
                        p.properties.auth_method = Some(Arc::from("nothing"));
                        w.send_v5(a, p);
                    }
                }
                Half(_) => {
                    let a = w.open(V5);
                    w.send(a, &[0x10, 20, 0]);
                }
                Eof(i) | Reset(i) | Disconnect(i) | Error(i) => {
                    let Some(a) = live[i].take() else { return Ok(Some(k)) };
                    match op {
                        Eof(_) => w.eof(a),
                        Reset(_) => w.reset(a),
                        Disconnect(_) => w.send_disconnect(a, 0, None),
                        _ => w.send(a, &[0xf7, 0]),
                    }
                }
                Wait(ms) => w.advance(ms),
            }
            w.quiesce();
            let want = live.iter().flatten().count() as u64;
            let (code, kind, body) = request(&w.global, true, "GET", "/metrics");
            let text = String::from_utf8_lossy(&body).to_string();
            if code != 200 || !kind.starts_with("text/plain") {
                return Err((k, format!("GET /metrics answered {code}, {kind}")));
            }
            let n = gauge(&text).map_err(|e| (k, e))?;
            if n != want {
                return Err((k, format!("the gauge is {n}, {want} clients are connected")));
            }
            c.state(&(n, w.global.clients_count()));
            if let Some(p) = w.panicked() {
                return Err((k, format!("panic: {p}")));
            }
        }
        Ok(None)
    });
    let paths = ["/health", "/metrics", "/openapi.json", "/api", "/", "/healthy", "/metrics/x", "/nothing"];
    let methods = ["GET", "HEAD", "POST", "DELETE"];
    c.explore_product("interface", "every path x method x with and without metrics", paths.len() * methods.len() * 2, |i| format!("{} {} prometheus {}", methods[i / 2 % 4], paths[i / 8], i % 2 == 1), |i| {
        let (path, method, prom) = (paths[i / 8], methods[i / 2 % 4], i % 2 == 1);
        let g = Arc::new(GlobalState::new(base_config()));
        let (code, kind, body) = request(&g, prom, method, path);
        let exists = matches!(path, "/health" | "/openapi.json" | "/api") || path == "/metrics" && prom;
        c.outcome(&(code, path));
        match (exists, method) {
            (false, _) if (400..500).contains(&code) => return Ok(()),
            (true, "POST" | "DELETE") if code == 405 => return Ok(()),
            (true, "HEAD") if code == 200 && body.is_empty() => return Ok(()),
            (true, "GET") if code == 200 => {}
            _ => return Err(format!("answered {code}, {kind}, {} bytes", body.len())),
        }
        let json = || serde_json::from_slice::<serde_json::Value>(&body).map_err(|e| format!("{e}: {:?}", String::from_utf8_lossy(&body)));
        match path {
            "/health" if json()? != json!({"status": "ok"}) || !kind.starts_with("application/json") => Err(format!("{kind}: {:?}", String::from_utf8_lossy(&body))),
            "/openapi.json" if !json()?["openapi"].is_string() => Err("not an OpenAPI document".into()),
            "/api" if !String::from_utf8_lossy(&body).contains("/openapi.json") => Err("the page does not name the document".into()),
            _ => Ok(()),
        }
    });
    served(c);
}

/// The same from a real process with connected clients.
fn served(c: &Arc<Check>) {
    let exe = match std::env::var("AKASA_CLI") {
        Ok(e) => e,
        Err(_) => return c.fail("cli", "ENGINE: AKASA_CLI is not set".into(), json!({})),
    };
    c.explore_product("process", "metrics on or off x port reuse x 0 to 3 connected clients", 16, |i| format!("prometheus {}, reuse_port {}, {} clients", i & 1, i >> 1 & 1, i >> 2), |i| {
        let s = Scratch::new("c26");
        let ip = fresh_ip();
        let mut g = Config::new_allow_anonymous();
        let l = akasa_core::Listener { addr: v4(ip, 1883), reuse_port: i >> 1 & 1 == 1, proxy_mode: None };
        g.listeners = Listeners { mqtt: Some(l), mqtts: None, ws: None, wss: None, http: Some(Http { addr: v4(ip, 8081), reuse_port: i >> 1 & 1 == 1, prometheus: i & 1 == 1 }) };
        let path = s.file("config", serde_json::to_string(&g).unwrap().as_bytes());
        let mut srv = Server::start(&exe, &path)?;
        if !srv.wait(|| {
            let mut l = listening(ip);
            l.dedup();
            l == [1883, 8081]
        })? {
            return Err(format!("the server stopped with {:?}", srv.exit_code()));
        }
        let get = |p: &str| -> Result<(String, String), String> {
            let mut t = std::net::TcpStream::connect(v4(ip, 8081)).map_err(|e| format!("ENGINE: {e}"))?;
            t.set_read_timeout(Some(Duration::from_secs(10))).ok();
            t.write_all(format!("GET {p} HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n").as_bytes()).map_err(|e| format!("ENGINE: {e}"))?;
            let mut text = String::new();
            t.read_to_string(&mut text).map_err(|e| format!("reading the answer: {e}"))?;
            let (head, body) = text.split_once("\r\n\r\n").ok_or(format!("not an answer: {text:?}"))?;
            Ok((head.lines().next().unwrap_or("").to_string(), body.to_string()))
        };
        let mut clients = vec![];
        for k in 0..i >> 2 {
            let mut t = std::net::TcpStream::connect(v4(ip, 1883)).map_err(|e| format!("ENGINE: {e}"))?;
            t.set_read_timeout(Some(Duration::from_secs(10))).ok();
            let m = mqtt_proto::v3::Packet::from(mqtt_proto::v3::Connect::new(Arc::from(format!("client-{k}")), 0)).encode().unwrap();
            t.write_all(m.as_slice()).map_err(|e| format!("ENGINE: {e}"))?;
            let mut b = [0; 4];
            t.read_exact(&mut b).map_err(|e| format!("no CONNACK: {e}"))?;
            clients.push(t);
        }
        let (head, body) = get("/health")?;
        if !head.contains(" 200 ") || !body.contains("ok") {
            return Err(format!("/health: {head} {body:?}"));
        }
        let (head, body) = get("/metrics")?;
        if i & 1 == 0 {
            if !head.contains(" 404 ") {
                return Err(format!("/metrics/ without metrics: {head} {body:?}"));
            }
        } else if gauge(&body)? != (i >> 2) as u64 {
            return Err(format!("/metrics/ with {} clients: {body:?}", i >> 2));
        }
        c.outcome(&i);
        Ok(())
    });
}
