//! Connection set-up: five seconds from the accept to a complete CONNECT,
//! whatever the layers and wherever the client stalls.
use std::sync::Arc;

use akasa_core::Config;
use bytes::Bytes;
use mc_engine::Check;
use mqtt_proto::v5;

use crate::c14::{salted, scram_config};
use crate::c22::digits;
use crate::model::*;
use crate::refscram::{self, Exchange};
use crate::sim::*;
use crate::wire::Codec;
use crate::world::Ver::{self, *};
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Proxy {
    No,
    Normal,
    Terminated,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mqtt {
    Plain(Ver),
    Scram,
}
#[derive(Clone, Copy, Debug)]
struct Kind {
    proxy: Proxy,
    tls: bool,
    ws: bool,
    mqtt: Mqtt,
}
/// What the client must send, one after the other; each depends on the
/// server's answer to the ones before.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Leg {
    Proxy,
    Hello,
    Finished,
    Upgrade,
    Connect,
    Auth,
}
impl Kind {
    fn legs(&self) -> Vec<Leg> {
        let mut v = vec![];
        if self.proxy != Proxy::No {
            v.push(Leg::Proxy);
        }
        if self.tls {
            v.extend([Leg::Hello, Leg::Finished]);
        }
        if self.ws {
            v.push(Leg::Upgrade);
        }
        v.push(Leg::Connect);
        if self.mqtt == Mqtt::Scram {
            v.push(Leg::Auth);
        }
        v
    }
    fn ver(&self) -> Ver {
        match self.mqtt {
            Mqtt::Plain(v) => v,
            Mqtt::Scram => V5,
        }
    }
}

fn header(p: Proxy) -> Vec<u8> {
    let tlvs: &[u8] = match p {
        Proxy::Terminated => &[0x20, 0, 5, 1, 0, 0, 0, 0, 0x02, 0, 3, b's', b'n', b'i'],
        _ => &[0xe0, 0, 2, 1, 2],
    };
    let mut d = b"\r\n\r\n\0\r\nQUIT\n\x21\x11".to_vec();
    d.extend(((12 + tlvs.len()) as u16).to_be_bytes());
    d.extend([192, 0, 2, 7, 10, 9, 9, 9]);
    d.extend(40000u16.to_be_bytes());
    d.extend(1883u16.to_be_bytes());
    d.extend(tlvs);
    d
}

struct Client {
    w: World,
    c: usize,
    kind: Kind,
}
impl Client {
    fn new(kind: Kind) -> Client {
        let mut cfg: Config = if kind.mqtt == Mqtt::Scram { scram_config() } else { base_config() };
        cfg.min_keep_alive = 0;
        let mut w = World::new(cfg);
        let mut args = plain_args();
        args.proxy = kind.proxy != Proxy::No;
        args.proxy_tls_termination = kind.proxy == Proxy::Terminated;
        args.websocket = kind.ws;
        args.tls_acceptor = kind.tls.then(crate::wire::acceptor);
        let c = w.open_with(kind.ver(), args);
        w.conns[c].codec = Some(Box::new(Codec::new(kind.tls, kind.ws)));
        w.quiesce();
        Client { w, c, kind }
    }
    /// The bytes of one leg, given what the server answered so far.
    fn bytes(&mut self, leg: Leg) -> Result<Vec<u8>, String> {
        self.w.pull(self.c);
        let spec = ConnSpec::new("a-client-identifier", self.kind.ver());
        let k = self.w.conns[self.c].codec.as_mut().unwrap();
        Ok(match leg {
            Leg::Proxy => header(self.kind.proxy),
            Leg::Hello | Leg::Finished => k.pending(),
            Leg::Upgrade => k.seal(crate::wire::REQUEST.as_bytes()),
            Leg::Connect => {
                if self.kind.ws && !k.response.as_deref().unwrap_or("").starts_with("HTTP/1.1 101") {
                    return Err(format!("upgrade answered {:?}", k.response));
                }
                let b = match self.kind.mqtt {
                    Mqtt::Plain(V5) => v5::Packet::from(connect_v5(&spec)).encode().unwrap(),
                    Mqtt::Plain(_) => mqtt_proto::v3::Packet::from(connect_v3(&spec)).encode().unwrap(),
                    Mqtt::Scram => {
                        let mut p = connect_v5(&spec);
                        p.properties.auth_method = Some(Arc::from("SCRAM-SHA-256"));
                        p.properties.auth_data = Some(Bytes::from(format!("n,,n=alice,r={}", refscram::CLIENT_NONCE)));
                        v5::Packet::from(p).encode().unwrap()
                    }
                };
                k.wrap(b.as_slice())
            }
            Leg::Auth => {
                let got = self.w.recv(self.c);
                let p = self.w.conns[self.c].last_auth.clone();
                let (Some(p), [Rx::Auth(0x18)]) = (p, &got[..]) else { return Err(format!("CONNECT answered {got:?}")) };
                let sf = p.auth_data.and_then(|d| String::from_utf8(d.to_vec()).ok()).ok_or("challenge without data")?;
                let (nonce, ..) = refscram::server_first_parts(&sf).ok_or("malformed challenge")?;
                let ex = Exchange {
                    gs2: "n,,".into(),
                    bare: format!("n=alice,r={}", refscram::CLIENT_NONCE),
                    server_first: sf,
                    nonce,
                    salted: salted("alice").clone(),
                };
                let mut a = v5::Auth::new(v5::AuthReasonCode::ContinueAuthentication);
                a.properties.auth_method = Some(Arc::from("SCRAM-SHA-256"));
                a.properties.auth_data = Some(Bytes::from(ex.client_final()));
                let b = v5::Packet::from(a).encode().unwrap();
                let k = self.w.conns[self.c].codec.as_mut().unwrap();
                k.wrap(b.as_slice())
            }
        })
    }
    fn put(&mut self, b: &[u8]) {
        self.w.send_raw(self.c, b);
        self.w.quiesce();
    }
    fn legs(&mut self, legs: &[Leg]) -> Result<(), String> {
        for l in legs {
            let b = self.bytes(*l)?;
            if !self.w.alive(self.c) {
                return Err(format!("closed before {l:?}"));
            }
            self.put(&b);
        }
        Ok(())
    }
    /// Connected: a CONNACK of success, and answers to pings for ever after.
    fn served(&mut self) -> Result<(), String> {
        let got = self.w.recv(self.c);
        if !matches!(got[..], [Rx::Connack { code: 0, .. }]) {
            return Err(format!("expected to be served, observed {got:?}"));
        }
        for ms in [0, 1500, 3500, 30_000] {
            self.w.advance(ms);
            self.w.send_ping(self.c);
            self.w.quiesce();
            let got = self.w.recv(self.c);
            if got != [Rx::Pingresp] {
                return Err(format!("{ms} ms later a ping is answered {got:?}"));
            }
        }
        Ok(())
    }
    /// Not connected, and the server is done with it.
    fn dropped(&mut self) -> Result<(), String> {
        let got = self.w.recv(self.c);
        if let Some(r) = got.iter().find(|r| matches!(r, Rx::Connack { code: 0, .. })) {
            return Err(format!("served too late: {r:?}"));
        }
        if self.w.alive(self.c) {
            return Err("still not closed".into());
        }
        if self.w.global.clients_count() != 0 || self.w.global.online_clients_count() != 0 {
            return Err("the refused client is counted".into());
        }
        Ok(())
    }
    fn open(&mut self) -> Result<(), String> {
        match self.w.alive(self.c) {
            true => Ok(()),
            false => Err("closed before the time was over".into()),
        }
    }
    fn end(&mut self) -> Result<(), String> {
        match self.w.panicked() {
            Some(p) => Err(format!("panic: {p}")),
            None => Ok(()),
        }
    }
}

pub fn run(c: &Arc<Check>) {
    let mut kinds = vec![];
    for proxy in [Proxy::No, Proxy::Normal, Proxy::Terminated] {
        for tls in [false, true] {
            if tls && proxy == Proxy::Terminated {
                continue;
            }
            for ws in [false, true] {
                for mqtt in [Mqtt::Plain(V310), Mqtt::Plain(V311), Mqtt::Plain(V5), Mqtt::Scram] {
                    kinds.push(Kind { proxy, tls, ws, mqtt });
                }
            }
        }
    }
    // every (kind, leg, cut); lengths are fixed, so one dry run tells them
    let mut cuts: Vec<(Kind, usize, usize)> = vec![];
    for k in &kinds {
        let legs = k.legs();
        let r = mc_engine::guarded(|| {
            let mut cl = Client::new(*k);
            let mut out = vec![];
            for (i, l) in legs.iter().enumerate() {
                let b = cl.bytes(*l)?;
                let step = if b.len() > 200 { c.pick(4, 1) } else { 1 };
                out.extend((0..b.len()).filter(|n| n % step == 0 || *n + 8 > b.len()).map(|n| (*k, i, n)));
                cl.put(&b);
            }
            cl.served()?;
            Ok::<_, String>(out)
        });
        match r.and_then(|r| r) {
            Ok(o) => cuts.extend(o),
            Err(e) => c.fail(&format!("{k:?}"), e, serde_json::json!({"section": "dry run"})),
        }
    }
    let then = ["nothing more", "the rest at 4.6 s", "the rest at 5.5 s", "one more byte each second", "the other side closes"];
    c.explore_product("stall", "every layer stack and version x every byte at which the client stalls x what it does then", cuts.len() * then.len(), |i| {
        let (k, l, n) = cuts[i / then.len()];
        format!("{k:?}: {n} bytes of {:?}, then {}", k.legs()[l], then[i % then.len()])
    }, |i| {
        let (k, l, n) = cuts[i / then.len()];
        let legs = k.legs();
        let mut cl = Client::new(k);
        cl.legs(&legs[..l])?;
        let b = cl.bytes(legs[l])?;
        cl.put(&b[..n.min(b.len())]);
        cl.open()?;
        let rest = &b[n.min(b.len())..];
        match i % then.len() {
            0 => {
                cl.w.advance(4700);
                cl.open()?;
                cl.w.advance(1000);
                cl.dropped()?;
            }
            1 => {
                cl.w.advance(4600);
                cl.open()?;
                cl.put(rest);
                cl.legs(&legs[l + 1..])?;
                cl.served()?;
            }
            2 => {
                cl.w.advance(5500);
                cl.put(rest);
                // a client that notices nothing goes on
                for l in &legs[l + 1..] {
                    match cl.bytes(*l) {
                        Ok(b) => cl.put(&b),
                        Err(_) => break,
                    }
                }
                cl.w.advance(200);
                cl.dropped()?;
            }
            3 => {
                // never quite silent, never done
                for j in 0..5 {
                    cl.w.advance(1000);
                    if j + 1 < rest.len() && j < 4 {
                        cl.open()?;
                        cl.put(&rest[j..j + 1]);
                    }
                }
                cl.w.advance(700);
                cl.dropped()?;
            }
            _ => {
                cl.w.advance(300);
                cl.w.eof(cl.c);
                cl.w.quiesce();
                cl.dropped()?;
            }
        }
        c.outcome(&(i % then.len(), l, cl.w.conns[cl.c].result.map(|r| r.is_ok())));
        cl.end()
    });
    // a client that reads nothing: the server's answer cannot leave
    let dims = [kinds.len(), 4, 3];
    let n: usize = dims.iter().product();
    c.explore_product("not reading", "every layer stack x bytes the client takes before CONNECT is answered x what it does then", n, |i| {
        let k = digits(i, &dims);
        format!("{:?}, takes {} bytes, {}", kinds[k[0]], [0, 1, 20, 150][k[1]], ["nothing", "reads again at 4.6 s", "reads again at 5.5 s"][k[2]])
    }, |i| {
        let k = digits(i, &dims);
        let kind = kinds[k[0]];
        let legs = kind.legs();
        if kind.mqtt == Mqtt::Scram && !kind.tls && !kind.ws && k[1] < 3 {
            // the first hundred bytes always fit the socket of a real server
            return Ok(());
        }
        let mut cl = Client::new(kind);
        cl.w.set_window(cl.c, Some([0, 1, 20, 150][k[1]]));
        let mut done = 0;
        for l in &legs {
            cl.w.pull(cl.c);
            if matches!(l, Leg::Upgrade | Leg::Connect | Leg::Auth) && cl.w.conns[cl.c].codec.as_ref().unwrap().handshaking() {
                break;
            }
            let b = match cl.bytes(*l) {
                Ok(b) => b,
                Err(_) => break,
            };
            if b.is_empty() {
                break;
            }
            cl.put(&b);
            done += 1;
        }
        if done == legs.len() {
            // the CONNECT is complete: the limit no longer applies
            return Ok(());
        }
        cl.open()?;
        match k[2] {
            0 => {
                cl.w.advance(4700);
                cl.open()?;
                cl.w.advance(1000);
                cl.dropped()?;
            }
            1 => {
                cl.w.advance(4600);
                cl.open()?;
                cl.w.set_window(cl.c, None);
                cl.w.quiesce();
                cl.legs(&legs[done..])?;
                cl.served()?;
            }
            _ => {
                cl.w.advance(5500);
                cl.w.set_window(cl.c, None);
                cl.w.quiesce();
                cl.dropped()?;
            }
        }
        c.outcome(&(k[2], cl.w.conns[cl.c].result.map(|r| r.is_ok())));
        cl.end()
    });
}
