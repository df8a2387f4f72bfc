//! Admission: who gets a connection. Password authentication over the product
//! of credentials, versions and existing sessions; the SCRAM exchange over
//! every order of messages.
use std::num::NonZeroU32;
use std::sync::Arc;

use akasa_core::{AuthConfig, AuthPassword, Config, GlobalState, HashAlgorithm, SaslMechanism, ScramPasswordInfo};
use bytes::Bytes;
use mc_engine::Check;
use mqtt_proto::v5;
use mqtt_proto::v5::AuthReasonCode as A;

use crate::model::*;
use crate::refscram::{self, Exchange};
use crate::sim::*;
use crate::world::Ver::{self, *};
use crate::world::*;

fn passwords(g: &GlobalState) {
    use ring::{digest, pbkdf2};
    let it = NonZeroU32::new(3).unwrap();
    for (i, (u, pw)) in [("u", "right"), ("v", "other"), ("empty", ""), ("right", "u")].into_iter().enumerate() {
        let salt = format!("salt-of-{u}").into_bytes();
        let salted = [pw.as_bytes(), &salt].concat();
        let (hash_algorithm, hashed_password) = match i {
            0 => (HashAlgorithm::Sha256, digest::digest(&digest::SHA256, &salted).as_ref().to_vec()),
            1 => (HashAlgorithm::Sha512, digest::digest(&digest::SHA512, &salted).as_ref().to_vec()),
            2 => {
                let mut o = vec![0; 32];
                pbkdf2::derive(pbkdf2::PBKDF2_HMAC_SHA256, it, &salt, pw.as_bytes(), &mut o);
                (HashAlgorithm::Sha256Pkbdf2 { iterations: it }, o)
            }
            _ => {
                let mut o = vec![0; 64];
                pbkdf2::derive(pbkdf2::PBKDF2_HMAC_SHA512, it, &salt, pw.as_bytes(), &mut o);
                (HashAlgorithm::Sha512Pkbdf2 { iterations: it }, o)
            }
        };
        g.auth_passwords.insert(u.to_string(), AuthPassword { hash_algorithm, hashed_password, salt });
    }
}
const USERS: [Option<&str>; 8] = [None, Some("u"), Some("v"), Some("empty"), Some("right"), Some("U"), Some("nobody"), Some("")];
const PWS: [Option<&str>; 9] = [None, Some("right"), Some("other"), Some(""), Some("u"), Some("Right"), Some("righ"), Some("right "), Some("rightt")];
fn accepted(u: Option<&str>, p: Option<&str>) -> bool {
    matches!((u, p), (Some("u"), Some("right")) | (Some("v"), Some("other")) | (Some("empty"), Some("")) | (Some("right"), Some("u")))
}

fn connect(w: &mut World, c: usize, s: &ConnSpec, user: Option<&str>, pw: Option<&str>, method: Option<(&str, Option<Vec<u8>>)>) {
    if s.ver.is_v5() {
        let mut p = connect_v5(s);
        p.username = user.map(Arc::from);
        p.password = pw.map(|p| Bytes::from(p.to_string()));
        if let Some((m, d)) = method {
            p.properties.auth_method = (!m.is_empty()).then(|| Arc::from(m));
            p.properties.auth_data = d.map(Bytes::from);
        }
        w.send_v5(c, p);
    } else {
        let mut p = connect_v3(s);
        p.username = user.map(Arc::from);
        p.password = pw.map(|p| Bytes::from(p.to_string()));
        w.send_v3(c, p);
    }
    w.quiesce();
}

/// A refused connection: an error CONNACK or nothing, then the end.
fn refused(got: &[Rx], code: Option<u8>) -> Result<(), String> {
    match got {
        [Rx::Connack { sp: false, code: k }, Rx::Closed] if *k != 0 && code.is_none_or(|c| c == *k) => Ok(()),
        [Rx::Closed] | [Rx::Disconnect(_), Rx::Closed] if code.is_none() => Ok(()),
        _ => Err(format!("expected a refusal{}, observed {got:?}", code.map(|c| format!(" with code {c:#x}")).unwrap_or_default())),
    }
}

/// The state a refused connection must not disturb, and what it is then.
struct Scene {
    w: World,
    watcher: usize,
    owner: Option<usize>,
    clients: usize,
    online: u64,
}
impl Scene {
    /// existing: 0 none, 1 connected, 2 offline
    fn new(cfg: Config, ver: Ver, existing: usize, creds: (Option<&str>, Option<&str>)) -> Result<Scene, String> {
        let g = GlobalState::new(cfg);
        passwords(&g);
        let mut w = World::with_global(g);
        let watcher = w.open(V5);
        connect(&mut w, watcher, &ConnSpec::new("watch", V5), creds.0, creds.1, None);
        w.send_sub(watcher, 1, &[("#", q(0))], None);
        w.quiesce();
        let mut owner = None;
        if existing > 0 {
            let c = w.open(ver);
            connect(&mut w, c, &ConnSpec::persistent("c", ver), creds.0, creds.1, None);
            w.send_sub(c, 1, &[("t", q(1))], None);
            w.quiesce();
            let got = w.recv(c);
            if !matches!(got[..], [Rx::Connack { sp: false, code: 0 }, Rx::Suback(..)]) {
                return Err(format!("a client with good credentials was not served: {got:?}"));
            }
            if existing == 2 {
                w.eof(c);
                w.quiesce();
                w.recv(c);
            } else {
                owner = Some(c);
            }
        }
        let got = w.recv(watcher);
        if !matches!(got[..], [Rx::Connack { code: 0, .. }, Rx::Suback(..)]) {
            return Err(format!("the watcher was not served: {got:?}"));
        }
        let (clients, online) = (w.global.clients_count(), w.global.online_clients_count());
        Ok(Scene { w, watcher, owner, clients, online })
    }
    /// Nothing happened except that the refused connection came and went.
    fn undisturbed(&mut self, existing: usize) -> Result<(), String> {
        if (self.w.global.clients_count(), self.w.global.online_clients_count()) != (self.clients, self.online) {
            return Err(format!(
                "a refused connection changed the client counts to {} ({} online)",
                self.w.global.clients_count(),
                self.w.global.online_clients_count()
            ));
        }
        let got = self.w.recv(self.watcher);
        if !got.is_empty() {
            return Err(format!("a refused connection caused {got:?} (its will?)"));
        }
        if let Some(o) = self.owner {
            let got = self.w.recv(o);
            if !got.is_empty() {
                return Err(format!("the connected client of the same identifier observed {got:?}"));
            }
            self.w.send_pub(self.watcher, &publ("t", 0, 0), "m");
            self.w.quiesce();
            let got = self.w.recv(o);
            if !matches!(&got[..], [Rx::Pub(p)] if p.payload == "m") {
                return Err(format!("the connected client of the same identifier lost its service: {got:?}"));
            }
        }
        let _ = existing;
        self.panic()
    }
    fn panic(&mut self) -> Result<(), String> {
        match self.w.panicked() {
            Some(p) => Err(format!("panic: {p}")),
            None => Ok(()),
        }
    }
    /// An admitted connection is served, with the right session.
    fn serves(&mut self, c: usize, present: bool) -> Result<(), String> {
        self.w.send_ping(c);
        self.w.send_pub(self.watcher, &publ("t", 0, 0), "m2");
        self.w.quiesce();
        let mut got = self.w.recv(c);
        let del: Vec<Rx> = got.extract_if(.., |r| matches!(r, Rx::Pub(_))).collect();
        if got != [Rx::Pingresp] {
            return Err(format!("the admitted client is not served: {got:?}"));
        }
        if del.len() != present as usize {
            return Err(format!("session present {present}, deliveries {del:?}"));
        }
        if let Some(o) = self.owner {
            let got = self.w.recv(o);
            if !matches!(got.last(), Some(Rx::Closed)) {
                return Err(format!("the replaced connection was not closed: {got:?}"));
            }
        }
        self.panic()
    }
}

pub fn run(c: &Arc<Check>) {
    passwords_product(c);
    method_product(c);
    scram(c);
}

fn passwords_product(c: &Arc<Check>) {
    let vers = [V5, V311, V310];
    let n = 2 * USERS.len() * PWS.len() * 3 * 2 * 3 * 2;
    let split = |i: usize| {
        let (auth, i) = (i % 2 == 0, i / 2);
        let (u, i) = (USERS[i % 8], i / 8);
        let (p, i) = (PWS[i % 9], i / 9);
        let (v, i) = (vers[i % 3], i / 3);
        let (clean, i) = (i % 2 == 1, i / 2);
        let (existing, i) = (i % 3, i / 3);
        (auth, u, p, v, clean, existing, i % 2 == 1)
    };
    let show = |i: usize| {
        let (auth, u, p, v, clean, e, hooks) = split(i);
        format!("authentication {auth}, user {u:?}, password {p:?}, {v:?}, clean {clean}, existing session {e}, hooks {hooks}")
    };
    c.explore_product("password", "authentication on/off x user x password x version x clean x existing session x hooks", n, show, |i| {
        let (auth, u, p, ver, clean, existing, hooks) = split(i);
        // a v3.1.1 password without a user name is a malformed CONNECT
        if !auth && u.is_none() && p.is_some() && !ver.is_v5() {
            return Ok(());
        }
        let mut cfg = if hooks { base_config() } else { no_hooks(base_config()) };
        cfg.auth = AuthConfig { enable: auth, password_file: None };
        let mut s = Scene::new(cfg, ver, existing, (Some("u"), Some("right")))?;
        let x = s.w.open(ver);
        let will = WillSpec { topic: "will", payload: "will", qos: 0, retain: false, delay: 0, expiry: None };
        let mut spec = ConnSpec::persistent("c", ver).clean(clean);
        spec.will = Some(will);
        connect(&mut s.w, x, &spec, u, p, None);
        s.w.advance(1500);
        let got = s.w.recv(x);
        if !auth || accepted(u, p) {
            let present = existing > 0 && !clean;
            if got != [Rx::Connack { sp: present, code: 0 }] {
                return Err(format!("expected admission (session present {present}), observed {got:?}"));
            }
            s.serves(x, present)
        } else {
            refused(&got, Some(if ver.is_v5() { 0x86 } else { 4 }))?;
            s.undisturbed(existing)
        }
    });
}

const METHODS: [&str; 6] = ["SCRAM-SHA-256", "SCRAM-SHA-256-PLUS", "scram-sha-256", "SCRAM-SHA-1", "PLAIN", "X"];

/// Which methods are offered: only the enabled one, and only with both
/// authentications when both are on.
fn method_product(c: &Arc<Check>) {
    let n = METHODS.len() * 2 * 2 * 3 * 2;
    let split = |i: usize| (METHODS[i % 6], i / 6 % 2 == 1, i / 12 % 2 == 1, i / 24 % 3, i / 72 == 1);
    let show = |i: usize| {
        let (m, on, auth, creds, ex) = split(i);
        format!("method {m}, SCRAM enabled {on}, password authentication {auth}, credentials {creds}, existing {ex}")
    };
    c.explore_product("methods", "method x enabled x password authentication x credentials x existing session", n, show, |i| {
        let (m, on, auth, creds, ex) = split(i);
        let mut cfg = scram_config();
        cfg.auth.enable = auth;
        if !on {
            cfg.sasl_mechanisms.clear();
        }
        let (u, p) = [(None, None), (Some("u"), Some("right")), (Some("u"), Some("wrong"))][creds];
        let mut s = Scene::new(cfg, V5, ex as usize, (Some("u"), Some("right")))?;
        let x = s.w.open(V5);
        let first = format!("n,,n=alice,r={}", refscram::CLIENT_NONCE);
        connect(&mut s.w, x, &ConnSpec::persistent("c", V5), u, p, Some((m, Some(first.into_bytes()))));
        let got = s.w.recv(x);
        if auth && creds != 1 {
            refused(&got, Some(0x86))?;
            return s.undisturbed(ex as usize);
        }
        if !on || m != "SCRAM-SHA-256" {
            refused(&got, Some(0x8C))?;
            return s.undisturbed(ex as usize);
        }
        if got != [Rx::Auth(0x18)] {
            return Err(format!("expected the server's challenge, observed {got:?}"));
        }
        s.w.eof(x);
        s.w.quiesce();
        s.undisturbed(ex as usize)
    });
}

pub fn scram_config() -> Config {
    let mut cfg = base_config();
    cfg.sasl_mechanisms = [SaslMechanism::ScramSha256].into_iter().collect();
    cfg.scram_users.clear();
    for (u, pw) in [("alice", "pw"), ("bob", "other")] {
        cfg.scram_users.insert(
            u.into(),
            ScramPasswordInfo { hashed_password: salted(u).clone(), iterations: 4096, salt: format!("salt-{u}").into_bytes() },
        );
        let _ = pw;
    }
    cfg
}
pub fn salted(user: &str) -> &'static Vec<u8> {
    use std::sync::OnceLock;
    static A: OnceLock<Vec<u8>> = OnceLock::new();
    static B: OnceLock<Vec<u8>> = OnceLock::new();
    if user == "alice" {
        A.get_or_init(|| refscram::salted("pw", b"salt-alice", 4096))
    } else {
        B.get_or_init(|| refscram::salted("other", b"salt-bob", 4096))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum First {
    Valid,
    ValidClean,
    Bob,
    OtherAuthz,
    Unknown,
    Malformed,
    NotUtf8,
    Missing,
    NoMethodData,
    NoMethod,
    WrongMethod,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Final {
    Right,
    WrongPassword,
    /// Alice's final under Bob's key, as Bob would sign
    Foreign,
    /// correct final of the exchange of another connection
    OtherConn,
    FlippedBit,
    NoProof,
    Malformed,
    NotUtf8,
    Missing,
    First,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum X {
    Connect(First),
    /// final message, AUTH reason code, method (0 right, 1 other, 2 none)
    Auth(Final, u8, u8),
    Ping,
    Publish,
    Subscribe,
    Eof,
    Late,
    Disconnect,
}

fn scram(c: &Arc<Check>) {
    use First::*;
    let mut a: Vec<X> = [Valid, ValidClean, Bob, OtherAuthz, Unknown, Malformed, NotUtf8, Missing, NoMethodData, WrongMethod, NoMethod].map(X::Connect).to_vec();
    for f in [Final::Right, Final::WrongPassword, Final::Foreign, Final::OtherConn, Final::FlippedBit, Final::NoProof, Final::Malformed, Final::NotUtf8, Final::Missing, Final::First] {
        a.push(X::Auth(f, 0x18, 0));
    }
    for (r, m) in [(0, 0), (0x19, 0), (0x18, 1), (0x18, 2)] {
        a.push(X::Auth(Final::Right, r, m));
    }
    a.extend([X::Auth(Final::First, 0x19, 0), X::Ping, X::Publish, X::Subscribe, X::Eof, X::Late, X::Disconnect]);
    for existing in 0..3 {
        for hooks in [true, false] {
            for ka in [true, false] {
                let name = format!("scram, existing session {existing}, hooks {hooks}, eager client {ka}");
                c.explore_tree(&name, &a, c.pick(4, 5), |x| format!("{x:?}"), |ops, log| scram_run(c, ops, log, existing, hooks, ka));
            }
        }
    }
}

/// `eager`: the client does not wait before it sends the next message.
fn scram_run(c: &Check, ops: &[X], log: bool, existing: usize, hooks: bool, eager: bool) -> Result<Option<usize>, (usize, String)> {
    let mut cfg = scram_config();
    if !hooks {
        cfg = no_hooks(cfg);
    }
    let mut s = Scene::new(cfg, V5, existing, (None, None)).map_err(|e| (0, e))?;
    // another exchange, in progress all the time
    let o = s.w.open(V5);
    let other = begin(&mut s.w, o, "other", First::Valid, false).map_err(|e| (0, e))?;
    s.w.recv(o);
    let x = s.w.open(V5);
    let mut ex: Option<(Exchange, First)> = None;
    // 0 nothing sent, 1 challenged, 2 admitted, 3 refused
    let mut st = 0;
    for (i, op) in ops.iter().enumerate() {
        let err = |e: String| (i, e);
        if st >= 2 && !matches!(op, X::Ping | X::Subscribe | X::Eof | X::Late) {
            return Ok(Some(i));
        }
        if st == 3 {
            return Ok(Some(i));
        }
        let mut want_code = None;
        match *op {
            X::Connect(f) => {
                if st != 0 && !matches!(f, First::Valid | First::NoMethod) {
                    return Ok(Some(i));
                }
                let got_ex = if st == 0 {
                    begin(&mut s.w, x, "c", f, f == First::ValidClean)
                } else {
                    let m = (f == First::Valid).then(|| ("SCRAM-SHA-256", Some(format!("n,,n=alice,r={}", refscram::CLIENT_NONCE).into_bytes())));
                    connect(&mut s.w, x, &ConnSpec::persistent("c", V5), None, None, m);
                    Err(String::new())
                };
                st = match (st, f) {
                    (0, First::Valid | First::ValidClean | First::Bob | First::OtherAuthz) => {
                        ex = Some((got_ex.map_err(err)?, f));
                        1
                    }
                    (0, First::NoMethod) => 2,
                    (0, First::WrongMethod) => {
                        want_code = Some(0x8C);
                        3
                    }
                    (0, First::NoMethodData) => {
                        want_code = Some(0x82);
                        3
                    }
                    (0, _) => {
                        want_code = Some(0x87);
                        3
                    }
                    _ => 3,
                };
                if st == 2 {
                    // anonymous connections are allowed in this configuration
                    let got = s.w.recv(x);
                    if got != [Rx::Connack { sp: existing > 0, code: 0 }] {
                        return Err(err(format!("expected admission without a method, observed {got:?}")));
                    }
                    s.serves(x, existing > 0).map_err(err)?;
                    continue;
                }
            }
            X::Auth(f, reason, method) => {
                if st == 0 && !(f == Final::Right && reason == 0x18) {
                    return Ok(Some(i));
                }
                let data = final_data(f, ex.as_ref().map(|e| &e.0), &other);
                let mut au = v5::Auth::new(match reason {
                    0 => A::Success,
                    0x18 => A::ContinueAuthentication,
                    _ => A::ReAuthentication,
                });
                au.properties.auth_method = match method {
                    0 => Some(Arc::from("SCRAM-SHA-256")),
                    1 => Some(Arc::from("PLAIN")),
                    _ => None,
                };
                au.properties.auth_data = data.map(Bytes::from);
                s.w.send_v5(x, au);
                if eager {
                    s.w.send_ping(x);
                }
                s.w.quiesce();
                let right = ex.as_ref().is_some_and(|e| e.1 != First::OtherAuthz);
                st = if st == 1 && f == Final::Right && reason == 0x18 && method == 0 && right { 2 } else { 3 };
                if st == 2 {
                    let (e, f) = ex.as_ref().unwrap();
                    let present = existing > 0 && *f != First::ValidClean;
                    let mut got = s.w.recv(x);
                    if eager && got.last() == Some(&Rx::Pingresp) {
                        got.pop();
                    } else if eager {
                        return Err(err(format!("the PINGREQ behind the final message is not answered: {got:?}")));
                    }
                    if got != [Rx::Connack { sp: present, code: 0 }] {
                        return Err(err(format!("expected admission (session present {present}), observed {got:?}")));
                    }
                    let p = s.w.conns[x].last_connack.clone().unwrap_or_default();
                    if p.auth_data.as_deref() != Some(e.server_final().as_bytes()) || p.auth_method.as_deref() != Some("SCRAM-SHA-256") {
                        return Err(err(format!("CONNACK does not carry the server's proof: {:?} {:?}", p.auth_method, p.auth_data)));
                    }
                    s.serves(x, present).map_err(err)?;
                    continue;
                }
            }
            X::Ping | X::Publish | X::Subscribe | X::Disconnect => {
                match op {
                    X::Ping => s.w.send_ping(x),
                    X::Publish => s.w.send_pub(x, &publ("t", 0, 0), "sneaked in"),
                    X::Subscribe => s.w.send_sub(x, 9, &[("t", q(0))], None),
                    _ => s.w.send_disconnect(x, 0, None),
                }
                s.w.quiesce();
                if st == 2 {
                    let got = s.w.recv(x);
                    if !matches!(got[..], [Rx::Pingresp] | [Rx::Suback(..)]) {
                        return Err(err(format!("the admitted client is not served: {got:?}")));
                    }
                    continue;
                }
                st = 3;
            }
            X::Eof | X::Late => {
                if *op == X::Eof {
                    s.w.eof(x);
                    s.w.quiesce();
                } else {
                    s.w.advance(6000);
                }
                if st == 2 {
                    let got = s.w.recv(x);
                    let ok = if *op == X::Eof { matches!(got.last(), Some(Rx::Closed)) } else { got.is_empty() };
                    if !ok {
                        return Err(err(format!("admitted, then {op:?}: observed {got:?}")));
                    }
                    return Ok(if i + 1 < ops.len() { Some(i + 1) } else { None });
                }
                st = 3;
            }
        }
        if log {
            println!("  {op:?} -> stage {st}");
        }
        c.state(&(st, existing, format!("{op:?}")));
        let got = if st == 1 { vec![] } else { s.w.recv(x) };
        if st == 3 {
            s.w.advance(1500);
            let mut got = got;
            got.extend(s.w.recv(x));
            refused(&got, want_code).map_err(err)?;
            s.undisturbed(existing).map_err(err)?;
        }
    }
    if st == 1 {
        // nothing is granted for half an exchange
        s.undisturbed(existing).map_err(|e| (ops.len() - 1, e))?;
    }
    Ok(None)
}

fn begin(w: &mut World, c: usize, id: &'static str, f: First, clean: bool) -> Result<Exchange, String> {
    let user = if f == First::Bob { "bob" } else { "alice" };
    let gs2 = if f == First::OtherAuthz { "n,a=bob," } else { "n,," };
    let bare = format!("n={user},r={}", refscram::CLIENT_NONCE);
    let data: Option<Vec<u8>> = match f {
        First::Unknown => Some(format!("n,,n=carol,r={}", refscram::CLIENT_NONCE).into()),
        First::Malformed => Some(b"n,,n=alice".to_vec()),
        First::NotUtf8 => Some(b"n,,n=ali\xff,r=abc".to_vec()),
        First::Missing => None,
        _ => Some(format!("{gs2}{bare}").into()),
    };
    let method = match f {
        First::NoMethod => None,
        First::NoMethodData => Some(("", data)),
        First::WrongMethod => Some(("SCRAM-SHA-1", data)),
        _ => Some(("SCRAM-SHA-256", data)),
    };
    connect(w, c, &ConnSpec::persistent(id, V5).clean(clean), None, None, method);
    if !matches!(f, First::Valid | First::ValidClean | First::Bob | First::OtherAuthz) {
        return Err(String::new());
    }
    let got = w.recv(c);
    if got != [Rx::Auth(0x18)] {
        return Err(format!("expected the server's challenge, observed {got:?}"));
    }
    let p = w.conns[c].last_auth.clone().unwrap();
    if p.auth_method.as_deref() != Some("SCRAM-SHA-256") {
        return Err(format!("challenge for method {:?}", p.auth_method));
    }
    let sf = p.auth_data.and_then(|d| String::from_utf8(d.to_vec()).ok()).ok_or("challenge without data")?;
    let (nonce, salt, iters) = refscram::server_first_parts(&sf).ok_or(format!("malformed challenge {sf:?}"))?;
    if !nonce.starts_with(refscram::CLIENT_NONCE) || nonce.len() <= refscram::CLIENT_NONCE.len() {
        return Err(format!("the nonce {nonce:?} does not extend the client's"));
    }
    if salt != format!("salt-{user}").into_bytes() || iters != 4096 {
        return Err(format!("challenge for other credentials: {sf:?}"));
    }
    Ok(Exchange { gs2: gs2.into(), bare, server_first: sf, nonce, salted: salted(user).clone() })
}

fn final_data(f: Final, ex: Option<&Exchange>, other: &Exchange) -> Option<Vec<u8>> {
    let e = ex.unwrap_or(other);
    let with = |key: &[u8]| Exchange { gs2: e.gs2.clone(), bare: e.bare.clone(), server_first: e.server_first.clone(), nonce: e.nonce.clone(), salted: key.to_vec() };
    Some(match f {
        Final::Right => e.client_final().into_bytes(),
        Final::WrongPassword => {
            static W: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
            with(W.get_or_init(|| refscram::salted("wrong", b"salt-alice", 4096))).client_final().into_bytes()
        }
        Final::Foreign => with(salted(if e.salted == *salted("bob") { "alice" } else { "bob" })).client_final().into_bytes(),
        Final::OtherConn => other.client_final().into_bytes(),
        Final::FlippedBit => {
            let mut p = e.proof();
            p[0] ^= 1;
            let full = e.client_final();
            format!("{},p={}", &full[..full.find(",p=").unwrap()], refscram::b64(&p)).into_bytes()
        }
        Final::NoProof => {
            let full = e.client_final();
            full[..full.find(",p=").unwrap()].as_bytes().to_vec()
        }
        Final::Malformed => b"c=biws".to_vec(),
        Final::NotUtf8 => {
            let mut v = e.client_final().into_bytes();
            v.push(0xff);
            v
        }
        Final::Missing => return None,
        Final::First => format!("{}{}", e.gs2, e.bare).into_bytes(),
    })
}
