//! Configuration: accepted exactly if valid, loss-free as text, and served as
//! written by a real process.
use std::collections::{HashMap, HashSet};
use std::path::PathBuf;
use std::sync::Arc;

use akasa_core::*;
use mc_engine::Check;
use serde_json::{Value, json};

use crate::model::*;
use crate::net::*;
use crate::world::Ver::*;
use crate::world::*;

fn scram(iterations: u16) -> ScramPasswordInfo {
    ScramPasswordInfo { hashed_password: vec![1, 2, 0xff], iterations, salt: vec![0, 9] }
}
fn lis(port: u16) -> Listener {
    Listener { addr: ([127, 0, 0, 1], port).into(), reuse_port: true, proxy_mode: None }
}
fn tls(port: u16) -> TlsListener {
    let f = |n: &str| certs().join(n);
    TlsListener {
        addr: ([127, 0, 0, 1], port).into(),
        reuse_port: false,
        proxy: false,
        ca_file: None,
        key_file: f("server.key"),
        cert_file: f("server.pem"),
        verify_peer: false,
        fail_if_no_peer_cert: false,
    }
}

/// The mixed-radix digits of `i`.
pub fn digits(mut i: usize, dims: &[usize]) -> Vec<usize> {
    dims.iter()
        .map(|d| {
            let k = i % d;
            i /= d;
            k
        })
        .collect()
}

const DIMS: [usize; 11] = [2, 2, 6, 4, 4, 4, 6, 32, 3, 3, 2];
fn config(i: usize) -> (Config, bool) {
    use SaslMechanism::*;
    let k = digits(i, &DIMS);
    let mut c = Config::new_allow_anonymous();
    c.auth = AuthConfig { enable: k[0] == 1, password_file: (k[1] == 1).then(|| PathBuf::from("p")) };
    c.max_allowed_qos = [0, 1, 2, 3, 4, 255][k[2]];
    c.max_packet_size_client = [0, 1, 65536, u32::MAX][k[3]];
    c.max_packet_size_server = [0, 1, 65536, u32::MAX][k[4]];
    c.sasl_mechanisms = [vec![], vec![ScramSha256], vec![ScramSha256Plus], vec![ScramSha256, ScramSha256Plus]][k[5]].iter().copied().collect::<HashSet<_>>();
    let its: &[u16] = [&[][..], &[4096], &[4095], &[4096, 0], &[u16::MAX, 4096], &[4096, 4096, 4095]][k[6]];
    c.scram_users = its.iter().enumerate().map(|(j, n)| (format!("u{j}"), scram(*n))).collect::<HashMap<_, _>>();
    let on = |b: usize| k[7] >> b & 1 == 1;
    c.listeners = Listeners {
        mqtt: on(0).then(|| lis(1)),
        mqtts: on(1).then(|| tls(2)),
        ws: on(2).then(|| lis(3)),
        wss: on(3).then(|| tls(4)),
        http: on(4).then(|| Http { addr: ([127, 0, 0, 1], 5).into(), reuse_port: false, prometheus: true }),
    };
    c.max_inflight_client = [0, 1, u16::MAX][k[8]];
    c.max_inflight_server = [0, 1, u16::MAX][k[9]];
    c.shared_subscription_mode = [SharedSubscriptionMode::Random, SharedSubscriptionMode::HashTopicName][k[10]];
    let ok = (k[0] == 0 || k[1] == 1) && k[2] < 3 && k[3] > 0 && k[4] > 0 && k[5] < 2 && its.iter().all(|n| *n >= 4096) && k[7] > 0 && k[8] > 0 && k[9] > 0;
    (c, ok)
}

pub fn run(c: &Arc<Check>) {
    let n: usize = DIMS.iter().product();
    c.explore_product("validity", "authentication x maximum QoS x packet sizes x mechanisms x SCRAM users x listeners x in-flight limits", n, |i| format!("{:?}", config(i).0), |i| {
        let (k, ok) = config(i);
        c.outcome(&ok);
        if k.is_valid() != ok {
            return Err(format!("is_valid() = {}", !ok));
        }
        Ok(())
    });
    if !Config::default().is_valid() || !Config::new_allow_anonymous().is_valid() {
        c.fail("default", "a default configuration is not valid".into(), json!({"section": "default"}));
    }
    honoured(c);
    texts(c);
    cli(c);
}

/// Every configuration that is accepted serves clients.
fn honoured(c: &Arc<Check>) {
    let dims = [3, 2, 3, 2, 3, 3, 3, 3, 2, 2, 3];
    let n: usize = dims.iter().product();
    let make = |i: usize| {
        let k = digits(i, &dims);
        let mut g = Config::new_allow_anonymous();
        g.max_allowed_qos = k[0] as u8;
        g.max_packet_size_server = [200, u32::MAX][k[1]];
        g.max_inflight_server = [0, 1, u16::MAX][k[2]];
        g.topic_alias_max = [0, 2][k[3]];
        g.max_inflight_client = [0, 1, u16::MAX][k[4]];
        g.max_session_expiry_interval = [0, 5, u32::MAX][k[5]];
        g.inflight_timeout = [0, 1, u64::MAX / 4][k[6]];
        (g.min_keep_alive, g.max_keep_alive) = [(0, u16::MAX), (10, 60), (0, 0)][k[7]];
        g.retain_available = k[8] == 1;
        g.max_packet_size_client = [100, u32::MAX][k[9]];
        g.max_in_mem_pending_messages = [1, 2, usize::MAX][k[10]];
        g
    };
    let dims2 = [n, 2];
    c.explore_product("every accepted configuration serves", "limits x QoS x sizes x keep alive x expiry x v5/v3.1.1", n * dims2[1], |i| format!("{:?} {:?}", [V5, V311][i % 2], make(i / 2)), |i| {
        let cfg = make(i / 2);
        let ver = [V5, V311][i % 2];
        if !cfg.is_valid() {
            return Ok(());
        }
        let (qos, timeout) = (cfg.max_allowed_qos, cfg.inflight_timeout);
        let mut w = World::new(cfg);
        let (s, p) = (w.open(ver), w.open(ver));
        for (k, id) in [(s, "s"), (p, "p")] {
            w.send_connect(k, &ConnSpec::new(id, ver));
            w.quiesce();
            let got = w.recv(k);
            if !matches!(got[..], [Rx::Connack { code: 0, .. }]) {
                return Err(format!("CONNECT answered by {got:?}"));
            }
            if let Some(a) = &w.conns[k].last_connack {
                if a.receive_max == Some(0) || a.max_packet_size == Some(0) || a.max_qos == Some(mqtt_proto::QoS::Level2) {
                    return Err(format!("CONNACK violates the protocol: {a:?}"));
                }
            }
        }
        w.send_sub(s, 1, &[("t", q(2))], None);
        w.quiesce();
        w.recv(s);
        for round in 0..2u16 {
            for x in 0..=qos {
                w.send_pub(p, &publ("t", x, if x > 0 { 20 + round } else { 0 }), "m");
                w.quiesce();
                let got = w.recv(p);
                let want = match x {
                    0 => vec![],
                    1 => vec![Rx::Puback(20 + round, 0)],
                    _ => vec![Rx::Pubrec(20 + round, 0)],
                };
                if got != want {
                    return Err(format!("publish at QoS {x} answered by {got:?}"));
                }
                let mut got = w.recv(s);
                if timeout == 0 {
                    got.dedup();
                }
                let pid = match &got[..] {
                    [Rx::Pub(m)] if m.payload == "m" && m.qos == x => m.pid,
                    _ => return Err(format!("publish at QoS {x} delivered as {got:?}")),
                };
                if x == 1 {
                    w.send_ack(s, 4, pid, 0);
                } else if x == 2 {
                    w.send_ack(s, 5, pid, 0);
                    w.quiesce();
                    let mut got = w.recv(s);
                    if timeout == 0 {
                        got.dedup();
                    }
                    if got != [Rx::Pubrel(pid, 0)] {
                        return Err(format!("PUBREC answered by {got:?}"));
                    }
                    w.send_ack(s, 7, pid, 0);
                    w.send_ack(p, 6, 20 + round, 0);
                    w.quiesce();
                    w.recv(p);
                }
            }
        }
        w.quiesce();
        match w.panicked() {
            Some(e) => Err(format!("panic: {e}")),
            None => Ok(()),
        }
    });
}

fn full() -> Config {
    let mut g = Config::default();
    let mut m = lis(1883);
    m.proxy_mode = Some(ProxyMode::Normal);
    let mut t = tls(8883);
    t.ca_file = Some("/ca".into());
    g.listeners = Listeners { mqtt: Some(m), mqtts: Some(t), ws: Some(lis(8080)), wss: Some(tls(8443)), http: Some(Http::default()) };
    g
}

/// What a leaf of the configuration may hold, by its name.
fn leaf_ok(path: &[String], v: Option<&Value>) -> bool {
    let name = path.last().unwrap().as_str();
    let int = |max: u64| v.is_some_and(|v| v.as_u64().is_some_and(|n| n <= max));
    let strs = |l: &[&str]| v.is_some_and(|v| v.as_str().is_some_and(|s| l.contains(&s)));
    let none = v.is_none_or(|v| v.is_null());
    match name {
        "addr" => v.is_some_and(|v| v.as_str().is_some_and(|s| s.parse::<std::net::SocketAddr>().is_ok())),
        "proxy_mode" => none || strs(&["Normal", "TlsTermination"]),
        "ca_file" | "password_file" => none || v.is_some_and(|v| v.is_string()),
        "key_file" | "cert_file" => v.is_some_and(|v| v.is_string()),
        "shared_subscription_mode" => strs(&["Random", "HashClientId", "HashTopicName"]),
        "max_allowed_qos" => int(u8::MAX as u64),
        "max_inflight_client" | "max_inflight_server" | "min_keep_alive" | "max_keep_alive" | "topic_alias_max" | "iterations" => int(u16::MAX as u64),
        "max_session_expiry_interval" | "max_packet_size_client" | "max_packet_size_server" => int(u32::MAX as u64),
        "inflight_timeout" | "max_in_mem_pending_messages" | "max_in_db_pending_messages" => int(u64::MAX),
        "hashed_password" | "salt" => v.is_some_and(|v| v.as_str().is_some_and(|s| s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit()))),
        "0" => strs(&["SCRAM-SHA-256", "SCRAM-SHA-256-PLUS"]),
        _ => v.is_some_and(|v| v.is_boolean()),
    }
}
fn leaves(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                at.push(k.clone());
                leaves(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            for (k, x) in a.iter().enumerate() {
                at.push(k.to_string());
                leaves(x, at, out);
                at.pop();
            }
        }
        _ => out.push(at.clone()),
    }
}
fn put(v: &mut Value, path: &[String], new: Option<&Value>) {
    let (last, dir) = path.split_last().unwrap();
    let mut x = v;
    for p in dir {
        x = match x {
            Value::Array(a) => &mut a[p.parse::<usize>().unwrap()],
            _ => &mut x[p.as_str()],
        };
    }
    match (x, new) {
        (Value::Array(a), Some(n)) => a[last.parse::<usize>().unwrap()] = n.clone(),
        (Value::Array(a), None) => {
            a.remove(last.parse().unwrap());
        }
        (x, Some(n)) => x[last.as_str()] = n.clone(),
        (x, None) => {
            x.as_object_mut().unwrap().remove(last);
        }
    }
}

/// The text form: one or two leaves of a full configuration replaced by every value.
fn texts(c: &Arc<Check>) {
    let base = serde_json::to_value(full()).unwrap();
    let mut ls = vec![];
    leaves(&base, &mut vec![], &mut ls);
    let mut vals: Vec<Option<Value>> = vec![None];
    for v in [
        json!(null), json!(true), json!(false), json!(0), json!(1), json!(-1), json!(2), json!(255), json!(256), json!(4096), json!(65535), json!(65536),
        json!(4294967295u32), json!(4294967296u64), json!(u64::MAX), json!(1.5), json!(""), json!("x"), json!("0"), json!("true"), json!([]), json!({}),
        json!([1]), json!("Random"), json!("HashClientId"), json!("HashTopicName"), json!("random"), json!("Normal"), json!("TlsTermination"),
        json!("SCRAM-SHA-256"), json!("SCRAM-SHA-256-PLUS"), json!("SCRAM-SHA-1"), json!("127.0.0.1:1"), json!("[::1]:65535"), json!("127.0.0.1"),
        json!("127.0.0.1:65536"), json!("localhost:1"), json!("00ff"), json!("0f0"), json!("0g"),
    ] {
        vals.push(Some(v));
    }
    let judge = |edits: &[(usize, usize)]| -> Result<(), String> {
        let mut v = base.clone();
        let mut ok = true;
        for (l, x) in edits {
            let (path, new) = (&ls[*l], &vals[*x]);
            put(&mut v, path, new.as_ref());
            // an element of the set of mechanisms may be left out
            ok &= leaf_ok(path, new.as_ref()) || path.last().unwrap() == "0" && new.is_none();
        }
        match (serde_json::from_value::<Config>(v.clone()), ok) {
            (Err(_), false) => Ok(()),
            (Ok(g), true) => {
                let mut want = v;
                for (l, x) in edits {
                    // an absent option reads as none
                    if vals[*x].is_none() && ls[*l].last().unwrap() != "0" {
                        put(&mut want, &ls[*l], Some(&Value::Null));
                    }
                }
                let got = serde_json::to_value(&g).map_err(|e| format!("writing failed: {e}"))?;
                if got != want {
                    return Err(format!("read and written back: {got}"));
                }
                Ok(())
            }
            (r, _) => Err(format!("accepted = {}: {:?}", r.is_ok(), edits.iter().map(|(l, x)| (ls[*l].join("."), &vals[*x])).collect::<Vec<_>>())),
        }
    };
    let show = |e: &[(usize, usize)]| format!("{:?}", e.iter().map(|(l, x)| (ls[*l].join("."), vals[*x].clone())).collect::<Vec<_>>());
    let one = ls.len() * vals.len();
    let single = |i: usize| (i / vals.len(), i % vals.len());
    c.explore_product("one value", "every leaf of a full configuration x every value or none", one, |i| show(&[single(i)]), |i| judge(&[single(i)]));
    // pairs: the values a leaf may hold, so that cross-talk would show
    let good: Vec<(usize, usize)> = (0..one).map(single).filter(|(l, x)| leaf_ok(&ls[*l], vals[*x].as_ref())).collect();
    let m = good.len();
    c.explore_product("two values", "every pair of leaves x every pair of legal values", m * m, |i| show(&[good[i / m], good[i % m]]), |i| {
        let (a, b) = (good[i / m], good[i % m]);
        if a.0 >= b.0 { Ok(()) } else { judge(&[a, b]) }
    });
    // containers: absent, null, empty, or of the wrong kind
    let bad = [None, Some(json!(null)), Some(json!([])), Some(json!({})), Some(json!(1)), Some(json!("x"))];
    let conts: Vec<(&str, [bool; 6])> = vec![
        ("listeners", [false, false, false, true, false, false]),
        ("listeners.mqtt", [true, true, false, false, false, false]),
        ("listeners.mqtts", [true, true, false, false, false, false]),
        ("listeners.ws", [true, true, false, false, false, false]),
        ("listeners.wss", [true, true, false, false, false, false]),
        ("listeners.http", [true, true, false, false, false, false]),
        ("auth", [false, false, false, false, false, false]),
        ("scram_users", [false, false, false, true, false, false]),
        ("scram_users.user", [true, false, false, false, false, false]),
        ("sasl_mechanisms", [false, false, true, false, false, false]),
        ("hook", [false, false, false, false, false, false]),
    ];
    c.explore_product("sections", "every section absent, null, empty or of the wrong kind", conts.len() * bad.len(), |i| format!("{} = {:?}", conts[i / 6].0, bad[i % 6]), |i| {
        let (path, oks) = &conts[i / 6];
        let path: Vec<String> = path.split('.').map(String::from).collect();
        let mut v = base.clone();
        put(&mut v, &path, bad[i % 6].as_ref());
        let r = serde_json::from_value::<Config>(v);
        if r.is_ok() != oks[i % 6] {
            return Err(format!("accepted = {}", r.is_ok()));
        }
        Ok(())
    });
}

fn cli(c: &Arc<Check>) {
    let exe = match std::env::var("AKASA_CLI") {
        Ok(e) => e,
        Err(_) => return c.fail("cli", "ENGINE: AKASA_CLI is not set".into(), json!({})),
    };
    // default-config
    for anonymous in [false, true] {
        let mut cmd = std::process::Command::new(&exe);
        cmd.env_clear().env("RUST_LOG", "off").arg("default-config");
        if anonymous {
            cmd.arg("--allow-anonymous");
        }
        let out = cmd.output().map_err(|e| e.to_string());
        let want = if anonymous { Config::new_allow_anonymous() } else { Config::default() };
        let verdict = match &out {
            Err(e) => Err(format!("ENGINE: {e}")),
            Ok(o) => match serde_json::from_slice::<Config>(&o.stdout) {
                Ok(g) if o.status.success() && g.is_valid() && g.auth.enable != anonymous && serde_json::to_value(&g).unwrap() == serde_json::to_value(&want).unwrap() => Ok(()),
                r => Err(format!("default-config (anonymous {anonymous}): exit {}, read back as {r:?}", o.status)),
            },
        };
        if let Err(e) = verdict {
            c.fail(&format!("default-config {anonymous}"), e, json!({"section": "default-config"}));
        }
    }
    // start: served exactly as written, or refused
    let dims = [32, 2, 9];
    let n: usize = dims.iter().product();
    let what = ["as it is", "invalid: QoS 3", "invalid: packet size 0", "not a configuration", "password file", "password file missing", "password file malformed", "TLS key missing", "CA required but not given"];
    c.explore_product("start", "every set of listeners x port reuse x what is wrong", n, |i| {
        let k = digits(i, &dims);
        format!("listeners {:#07b}, reuse_port {}, {}", k[0], k[1], what[k[2]])
    }, |i| {
        let k = digits(i, &dims);
        let s = Scratch::new("c22");
        let ip = fresh_ip();
        let on = |b: usize| k[0] >> b & 1 == 1;
        let reuse = k[1] == 1;
        let mut g = Config::new_allow_anonymous();
        let l = |p| Listener { addr: v4(ip, p), reuse_port: reuse, proxy_mode: None };
        let mut t = TlsListener { reuse_port: reuse, ..tls(1) };
        if k[2] == 7 {
            t.key_file = s.0.join("nothing.key");
        }
        if k[2] == 8 {
            t.verify_peer = true;
        }
        let t = |p| TlsListener { addr: v4(ip, p), ..t.clone() };
        g.listeners = Listeners {
            mqtt: on(0).then(|| l(1883)),
            mqtts: on(1).then(|| t(8883)),
            ws: on(2).then(|| l(8080)),
            wss: on(3).then(|| t(8443)),
            http: on(4).then(|| Http { addr: v4(ip, 8081), reuse_port: reuse, prometheus: false }),
        };
        let mut ok = k[0] > 0;
        match k[2] {
            1 => g.max_allowed_qos = 3,
            2 => g.max_packet_size_server = 0,
            4..=6 => {
                let salt = b"0123456789ab";
                let h = hash_password(HashAlgorithm::Sha256, salt, b"right");
                let m = dashmap::DashMap::new();
                m.insert("u".to_string(), AuthPassword { hash_algorithm: HashAlgorithm::Sha256, hashed_password: h, salt: salt.to_vec() });
                let mut text = vec![];
                dump_passwords(&mut text, &m).map_err(|e| format!("ENGINE: {e}"))?;
                if k[2] == 6 {
                    text.extend(b"half a line");
                }
                let f = if k[2] == 5 { s.0.join("none") } else { s.file("passwords", &text) };
                g.auth = AuthConfig { enable: true, password_file: Some(f) };
            }
            _ => {}
        }
        ok &= match k[2] {
            0 | 4 => true,
            7 | 8 => !(on(1) || on(3)),
            _ => false,
        };
        let text = if k[2] == 3 { "listeners: [".to_string() } else { serde_json::to_string(&g).unwrap() };
        let path = s.file("config", text.as_bytes());
        let ports: Vec<u16> = [(0, 1883), (1, 8883), (2, 8080), (3, 8443), (4, 8081)].iter().filter(|(b, _)| on(*b)).map(|(_, p)| *p).collect();
        let mut want: Vec<u16> = ports.iter().flat_map(|p| vec![*p; if reuse && *p != 8081 { 4 } else { 1 }]).collect();
        want.sort();
        let mut srv = Server::start(&exe, &path)?;
        let up = srv.wait(|| !want.is_empty() && listening(ip) == want)?;
        if up != ok {
            return Err(match (up, srv.exit_code()) {
                (true, _) => "a server started with a configuration that is not valid".into(),
                (false, code) => format!("the server stopped with {code:?}"),
            });
        }
        if !ok {
            return match srv.exit_code() {
                Some(0) => Err("refused, but the exit status is 0".into()),
                _ => Ok(()),
            };
        }
        for p in ports {
            if p == 8081 {
                continue;
            }
            let stack = Stack { head: Head::None, tls: if p == 8883 || p == 8443 { Tls::Anonymous } else { Tls::No }, ws: p == 8080 || p == 8443 };
            for (user, pw) in [(None, None), (Some("u"), Some("right")), (Some("u"), Some("wrong")), (Some("v"), Some("right"))] {
                let mut m = mqtt_proto::v3::Connect::new(Arc::from("client"), 0);
                m.username = user.map(Arc::from);
                m.password = pw.map(|p: &str| bytes::Bytes::from(p.to_string()));
                let m = mqtt_proto::v3::Packet::from(m).encode().unwrap();
                let got = talk(v4(ip, p), &stack, m.as_slice())?;
                let admitted = k[2] != 4 || pw == Some("right") && user == Some("u");
                let want: &[u8] = if admitted { &[0x20, 2, 0, 0] } else { &[0x20, 2, 0, 4] };
                if got != want {
                    return Err(format!("port {p}, user {user:?}, password {pw:?}: answered {got:?}, expected {want:?}"));
                }
            }
        }
        if listening(ip) != want {
            return Err(format!("listening on {:?}, configured {want:?}", listening(ip)));
        }
        Ok(())
    });
}
