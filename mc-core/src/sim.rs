//! Runs one operation sequence against the real broker and the reference
//! model side by side and compares what every client observes.
use std::sync::Arc;

use akasa_core::{Config, HashAlgorithm};
use bytes::Bytes;
use mqtt_proto::{v3, v5, Pid, Protocol, QoS, QosPid, TopicFilter, TopicName};

use crate::model::*;
use crate::world::*;

pub struct Sim {
    pub w: World,
    pub m: Model,
    /// slot -> current connection
    pub slots: Vec<Option<usize>>,
    next_pid: u16,
    pub log: Vec<String>,
    pub sub_pid: u16,
    /// everything each connection received, in order
    pub trace: bool,
    /// also compare the broker's client counters with the model
    pub counts: bool,
    next_pub: u16,
    ticks: u64,
    /// connection that is saying goodbye: what it is still sent is not judged
    leaving: Option<usize>,
}

pub enum Step {
    Ok,
    /// the operation does not apply here
    Noop,
}

pub fn base_config() -> Config {
    let mut c = Config::new_allow_anonymous();
    c.min_keep_alive = 0;
    c
}
/// All hook points off: the path a deployment without hooks takes.
pub fn no_hooks(mut c: Config) -> Config {
    c.hook.enable_before_connect = false;
    c.hook.enable_after_connect = false;
    c.hook.enable_publish = false;
    c.hook.enable_subscribe = false;
    c.hook.enable_unsubscribe = false;
    c.hook.enable_after_disconnect = false;
    c
}
#[allow(dead_code)]
pub fn alg() -> HashAlgorithm {
    HashAlgorithm::Sha256
}

pub fn qos(q: u8) -> QoS {
    match q {
        0 => QoS::Level0,
        1 => QoS::Level1,
        _ => QoS::Level2,
    }
}
pub fn qpid(q: u8, pid: u16) -> QosPid {
    match q {
        0 => QosPid::Level0,
        1 => QosPid::Level1(Pid::try_from(pid).unwrap()),
        _ => QosPid::Level2(Pid::try_from(pid).unwrap()),
    }
}
pub fn pid(p: u16) -> Pid {
    Pid::try_from(p).unwrap()
}
pub fn tn(s: &str) -> TopicName {
    TopicName::try_from(s).unwrap()
}
pub fn tf(s: &str) -> TopicFilter {
    TopicFilter::try_from(s).unwrap()
}

pub fn connect_v5(s: &ConnSpec) -> v5::Connect {
    let mut c = v5::Connect::new(Arc::from(s.id), s.keep_alive);
    c.clean_start = s.clean;
    c.properties.session_expiry_interval = s.expiry;
    c.properties.receive_max = s.recv_max;
    c.properties.topic_alias_max = s.alias_max;
    c.properties.max_packet_size = s.max_packet;
    if let Some(w) = &s.will {
        let mut lw = v5::LastWill::new(qos(w.qos), tn(w.topic), Bytes::from(w.payload));
        lw.retain = w.retain;
        lw.properties.delay_interval = if w.delay > 0 { Some(w.delay) } else { None };
        lw.properties.message_expiry_interval = w.expiry;
        c.last_will = Some(lw);
    }
    c
}
pub fn connect_v3(s: &ConnSpec) -> v3::Connect {
    let mut c = v3::Connect::new(Arc::from(s.id), s.keep_alive);
    c.protocol = if s.ver == Ver::V310 { Protocol::V310 } else { Protocol::V311 };
    c.clean_session = s.clean;
    if let Some(w) = &s.will {
        c.last_will = Some(v3::LastWill { topic_name: tn(w.topic), message: Bytes::from(w.payload), qos: qos(w.qos), retain: w.retain });
    }
    c
}
pub fn pub_v5(p: &PubOp, payload: &str) -> v5::Publish {
    let mut x = v5::Publish::new(qpid(p.qos, p.pid), tn(p.topic), Bytes::from(payload.to_string()));
    x.dup = p.dup;
    x.retain = p.retain;
    x.properties.topic_alias = p.alias;
    x.properties.message_expiry_interval = p.expiry;
    if p.props {
        x.properties.payload_is_utf8 = Some(true);
        x.properties.response_topic = Some(tn("r/t"));
        x.properties.correlation_data = Some(Bytes::from_static(b"cd"));
        x.properties.content_type = Some(Arc::from("text"));
        x.properties.user_properties = vec![v5::UserProperty { name: Arc::from("k"), value: Arc::from("v") }];
    }
    x
}
pub fn pub_v3(p: &PubOp, payload: &str) -> v3::Publish {
    let mut x = v3::Publish::new(qpid(p.qos, p.pid), tn(p.topic), Bytes::from(payload.to_string()));
    x.dup = p.dup;
    x.retain = p.retain;
    x
}
pub fn sub_opts(o: &SubOpt) -> v5::SubscriptionOptions {
    let mut x = v5::SubscriptionOptions::new(qos(o.qos));
    x.no_local = o.nl;
    x.retain_as_published = o.rap;
    x.retain_handling = match o.rh {
        0 => v5::RetainHandling::SendAtSubscribe,
        1 => v5::RetainHandling::SendAtSubscribeIfNotExist,
        _ => v5::RetainHandling::DoNotSend,
    };
    x
}
fn v5_len(p: v5::Packet) -> usize {
    p.encode_len().unwrap()
}
fn v3_len(p: v3::Packet) -> usize {
    p.encode_len().unwrap()
}
fn pub_len(ver: Ver, p: &PubOp, payload: &str) -> usize {
    if ver.is_v5() { v5_len(pub_v5(p, payload).into()) } else { v3_len(pub_v3(p, payload).into()) }
}
fn sub_len(ver: Ver, sp: u16, items: &[(&'static str, SubOpt)], id: Option<u32>) -> usize {
    if ver.is_v5() {
        let mut s = v5::Subscribe::new(pid(sp), items.iter().map(|(f, o)| (tf(f), sub_opts(o))).collect());
        s.properties.subscription_id = id.map(|i| i.try_into().unwrap());
        v5_len(s.into())
    } else {
        v3_len(v3::Subscribe::new(pid(sp), items.iter().map(|(f, o)| (tf(f), qos(o.qos))).collect()).into())
    }
}
impl World {
    pub fn send_connect(&mut self, c: usize, s: &ConnSpec) {
        if s.ver.is_v5() {
            self.conns[c].alias_max = s.alias_max.unwrap_or(0);
            self.conns[c].max_size = s.max_packet.map(|x| x as usize).unwrap_or(usize::MAX);
            self.send_v5(c, connect_v5(s));
        } else {
            self.send_v3(c, connect_v3(s));
        }
    }
    pub fn send_pub(&mut self, c: usize, p: &PubOp, payload: &str) {
        if self.conns[c].ver.is_v5() {
            self.send_v5(c, pub_v5(p, payload))
        } else {
            self.send_v3(c, pub_v3(p, payload))
        }
    }
    pub fn send_sub(&mut self, c: usize, sp: u16, items: &[(&str, SubOpt)], id: Option<u32>) {
        if self.conns[c].ver.is_v5() {
            let mut s = v5::Subscribe::new(pid(sp), items.iter().map(|(f, o)| (tf(f), sub_opts(o))).collect());
            s.properties.subscription_id = id.map(|i| i.try_into().unwrap());
            self.send_v5(c, s);
        } else {
            self.send_v3(c, v3::Subscribe::new(pid(sp), items.iter().map(|(f, o)| (tf(f), qos(o.qos))).collect()));
        }
    }
    pub fn send_unsub(&mut self, c: usize, sp: u16, fs: &[&str]) {
        if self.conns[c].ver.is_v5() {
            self.send_v5(c, v5::Unsubscribe::new(pid(sp), fs.iter().map(|f| tf(f)).collect()));
        } else {
            self.send_v3(c, v3::Unsubscribe::new(pid(sp), fs.iter().map(|f| tf(f)).collect()));
        }
    }
    pub fn send_disconnect(&mut self, c: usize, reason: u8, expiry: Option<u32>) {
        if self.conns[c].ver.is_v5() {
            let mut d = v5::Disconnect::new(v5::DisconnectReasonCode::from_u8(reason).unwrap());
            d.properties.session_expiry_interval = expiry;
            self.send_v5(c, d);
        } else {
            self.send_v3(c, v3::Packet::Disconnect);
        }
    }
    /// stage: 4 PUBACK, 5 PUBREC, 6 PUBREL, 7 PUBCOMP
    pub fn send_ack(&mut self, c: usize, kind: u8, p: u16, code: u8) {
        let mut b = vec![match kind {
            6 => 0x62,
            k => k << 4,
        }];
        if self.conns[c].ver.is_v5() && code != 0 {
            b.extend([3, (p >> 8) as u8, p as u8, code]);
        } else {
            b.extend([2, (p >> 8) as u8, p as u8]);
        }
        self.send(c, &b);
    }
    pub fn send_ping(&mut self, c: usize) {
        self.send(c, &[0xC0, 0]);
    }
}

impl Sim {
    pub fn new(config: Config, slots: usize) -> Sim {
        let m = Model::new(&config, crate::clock::base_ms());
        Sim { w: World::new(config), m, slots: vec![None; slots], next_pid: 100, log: vec![], sub_pid: 0, trace: false, counts: false, next_pub: 1000, ticks: 0, leaving: None }
    }
    pub fn live(&self, slot: usize) -> Option<usize> {
        self.slots[slot].filter(|&c| self.m.conns[c].live)
    }
    pub fn step(&mut self, op: &Op) -> Result<Step, String> {
        self.m.begin();
        let mut subscribe = false;
        self.leaving = None;
        // time never stands still between two operations
        let mut r = Ok(());
        if self.ticks > 0 {
            self.m.advance(1);
            self.w.advance(1);
            r = self.compare(false);
        }
        self.ticks += 1;
        r?;
        self.m.begin();
        macro_rules! live {
            ($s:expr) => {
                match self.live(*$s) {
                    Some(c) => c,
                    None => return Ok(Step::Noop),
                }
            };
        }
        match op {
            Op::Connect(slot, spec) => {
                // a slot is one client: it gives up its old connection
                if let Some(c) = self.live(*slot)
                    && self.m.conns[c].id != spec.id
                {
                    return Ok(Step::Noop);
                }
                let c = self.w.open(spec.ver);
                self.slots[*slot] = Some(c);
                self.m.connect(c, spec);
                self.w.send_connect(c, spec);
                self.w.quiesce();
                let r = self.compare(false);
                return r.and_then(|_| self.connack_properties(c, spec)).map(|_| Step::Ok);
            }
            Op::Disconnect(slot, reason, exp) => {
                let c = live!(slot);
                self.leaving = Some(c);
                self.m.disconnect(c, *reason, *exp);
                self.w.send_disconnect(c, *reason, *exp);
                self.w.quiesce();
            }
            Op::Drop(slot) => {
                let c = live!(slot);
                self.m.dropped(c);
                self.w.eof(c);
                self.w.quiesce();
            }
            Op::Sub(slot, items, id) => {
                let c = live!(slot);
                subscribe = true;
                self.next_pid += 1;
                let p = self.next_pid;
                let len = sub_len(self.w.conns[c].ver, p, items, *id);
                if len > self.m.cfg.max_packet as usize {
                    self.m.protocol_error(c, vec![0x95]);
                } else {
                    self.m.subscribe(c, p, items, *id);
                }
                self.w.send_sub(c, p, &items.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>(), *id);
                self.w.quiesce();
            }
            Op::Unsub(slot, fs) => {
                let c = live!(slot);
                self.next_pid += 1;
                let p = self.next_pid;
                self.m.unsubscribe(c, p, fs);
                self.w.send_unsub(c, p, fs);
                self.w.quiesce();
            }
            Op::Pub(slot, p) => {
                let c = live!(slot);
                let mut p = p.clone();
                if p.pid == 0 && p.qos > 0 {
                    // a fresh packet identifier
                    self.next_pub += 1;
                    p.pid = self.next_pub;
                }
                let p = &p;
                let payload = match &p.body {
                    Body::Auto => self.m.next_payload(),
                    Body::Empty => String::new(),
                    Body::Text(t) => t.to_string(),
                };
                if pub_len(self.w.conns[c].ver, p, &payload) > self.m.cfg.max_packet as usize {
                    self.m.protocol_error(c, vec![0x95]);
                } else {
                    self.m.publish(c, p);
                }
                self.w.send_pub(c, p, &payload);
                self.w.quiesce();
            }
            Op::Pubrel(slot, p) => {
                let c = live!(slot);
                self.m.pubrel(c, *p);
                self.w.send_ack(c, 6, *p, 0);
                self.w.quiesce();
            }
            Op::Ack(slot, n) => {
                let c = live!(slot);
                let Some(&(p, stage)) = self.w.conns[c].unacked.get(*n) else { return Ok(Step::Noop) };
                match stage {
                    Stage::Pub1 => {
                        self.w.conns[c].unacked.remove(*n);
                        self.m.puback(c, p);
                        self.w.send_ack(c, 4, p, 0);
                    }
                    Stage::Pub2 => {
                        // answered by PUBREL, which moves it to Rel
                        self.m.pubrec(c, p, 0);
                        self.w.send_ack(c, 5, p, 0);
                    }
                    Stage::Rel => {
                        self.w.conns[c].unacked.remove(*n);
                        self.m.pubcomp(c, p);
                        self.w.send_ack(c, 7, p, 0);
                    }
                }
                self.w.quiesce();
            }
            Op::Refuse(slot, n) => {
                let c = live!(slot);
                let Some(&(p, Stage::Pub2)) = self.w.conns[c].unacked.get(*n) else { return Ok(Step::Noop) };
                self.w.conns[c].unacked.remove(*n);
                self.m.pubrec(c, p, 0x83);
                self.w.send_ack(c, 5, p, 0x83);
                self.w.quiesce();
            }
            Op::Stray(slot, kind, p) => {
                let c = live!(slot);
                match kind {
                    4 => self.m.puback(c, *p),
                    5 => self.m.pubrec(c, *p, 0),
                    _ => self.m.pubcomp(c, *p),
                }
                self.w.send_ack(c, *kind, *p, 0);
                self.w.quiesce();
                // the client does not track the PUBREL it provoked
                let r = self.compare(subscribe);
                self.w.conns[c].unacked.retain(|u| u.0 != *p);
                return r.map(|_| Step::Ok);
            }
            Op::Ping(slot) => {
                let c = live!(slot);
                self.m.ping(c);
                self.w.send_ping(c);
                self.w.quiesce();
            }
            Op::Adv(ms) => {
                // stop at every moment a timer is due, so that both see it
                // at the same second
                let start = self.m.now;
                let mut at = start;
                for t in self.m.advance(*ms) {
                    self.w.advance(t - at);
                    at = t;
                }
                self.w.advance(start + ms - at);
            }
            Op::Raw(slot, _, bytes, exp) => {
                let c = live!(slot);
                match exp {
                    RawExp::CloseWith(codes) => self.m.protocol_error(c, codes.clone()),
                    RawExp::Nothing => {}
                }
                self.w.send(c, bytes);
                self.w.quiesce();
            }
        }
        self.compare(subscribe).map(|_| Step::Ok)
    }

    /// A CONNACK announces exactly the limits that are in force.
    fn connack_properties(&mut self, c: usize, s: &ConnSpec) -> Result<(), String> {
        let Some(mut got) = self.w.conns[c].last_connack.clone() else { return Ok(()) };
        if !self.m.conns[c].live {
            return Ok(());
        }
        let k = &self.m.cfg;
        let ka = s.keep_alive.clamp(k.keep_alive.0, k.keep_alive.1);
        let want = v5::ConnackProperties {
            session_expiry_interval: (s.expiry.unwrap_or(0) > k.max_session_expiry).then_some(k.max_session_expiry),
            receive_max: (k.server_window < 65535).then_some(k.server_window as u16),
            max_qos: (k.max_qos < 2).then(|| qos(k.max_qos)),
            retain_available: (!k.retain_available).then_some(false),
            max_packet_size: (k.max_packet < u32::MAX).then_some(k.max_packet),
            assigned_client_id: None,
            topic_alias_max: (k.alias_max > 0).then_some(k.alias_max),
            wildcard_subscription_available: (!k.wildcard).then_some(false),
            subscription_id_available: (!k.sub_ids).then_some(false),
            shared_subscription_available: (!k.shared).then_some(false),
            server_keep_alive: (ka != s.keep_alive).then_some(ka),
            ..Default::default()
        };
        let assigned = got.assigned_client_id.take();
        if assigned.is_some() != s.id.is_empty() {
            return Err(format!("connection {c}: client identifier {assigned:?} assigned to {:?}", s.id));
        }
        // the defaults may be spelled out
        let explicit_default = |g: &mut v5::ConnackProperties| {
            g.receive_max = g.receive_max.filter(|x| *x != 65535);
            g.max_qos = g.max_qos.filter(|x| *x != QoS::Level2);
            g.retain_available = g.retain_available.filter(|x| !*x);
            g.topic_alias_max = g.topic_alias_max.filter(|x| *x != 0);
            g.wildcard_subscription_available = g.wildcard_subscription_available.filter(|x| !*x);
            g.subscription_id_available = g.subscription_id_available.filter(|x| !*x);
            g.shared_subscription_available = g.shared_subscription_available.filter(|x| !*x);
            g.session_expiry_interval = g.session_expiry_interval.filter(|x| *x != s.expiry.unwrap_or(0));
            g.server_keep_alive = g.server_keep_alive.filter(|x| *x != s.keep_alive);
            g.reason_string = None;
            g.user_properties.clear();
        };
        explicit_default(&mut got);
        if got != want {
            return Err(format!("connection {c}: CONNACK announces {got:?}, in force is {want:?}"));
        }
        Ok(())
    }

    fn compare(&mut self, subscribe: bool) -> Result<(), String> {
        if let Some(p) = self.w.panicked() {
            return Err(format!("panic: {p}"));
        }
        if self.counts {
            let (n, on) = (self.w.global.clients_count(), self.w.global.online_clients_count());
            let (m, mo) = (self.m.sess.len(), self.m.online_count());
            if (n, on as usize) != (m, mo) {
                return Err(format!("the broker counts {n} clients, {on} online; there are {m} sessions, {mo} online"));
            }
        }
        for c in 0..self.w.conns.len() {
            let got = self.w.recv(c);
            if let Some(e) = self.w.conns[c].wire_errors.first() {
                return Err(format!("connection {c}: {e}"));
            }
            let exp = std::mem::take(&mut self.m.out[c]);
            if self.trace {
                println!("   conn {c}: got {got:?}");
                println!("            exp {exp:?}");
            }
            self.compare_conn(c, &got, &exp, subscribe)
                .map_err(|e| format!("connection {c}: {e}\n     observed: {got:?}\n     expected: {exp:?}"))?;
        }
        Ok(())
    }

    fn compare_conn(&mut self, c: usize, got: &[Rx], exp: &[Ex], subscribe: bool) -> Result<(), String> {
        let is_del = |r: &Rx| matches!(r, Rx::Pub(_) | Rx::Pubrel(..));
        let is_del_x = |e: &Ex| matches!(e, Ex::Pub(_) | Ex::Rel { .. } | Ex::RelRaw(..));
        if let Some(i) = got.iter().position(|r| matches!(r, Rx::Connack { .. }))
            && i != 0
        {
            return Err("CONNACK is not the first packet".into());
        }
        if let Some(i) = got.iter().position(|r| matches!(r, Rx::Closed))
            && i + 1 != got.len()
        {
            return Err("packets after the end of the stream".into());
        }
        // acknowledgements, in order
        let ga: Vec<&Rx> = got.iter().filter(|r| !is_del(r)).collect();
        let ea: Vec<&Ex> = exp.iter().filter(|r| !is_del_x(r)).collect();
        // a v5 DISCONNECT before closing on an error is optional
        let mut gi = 0;
        for e in &ea {
            let g = ga.get(gi);
            let ok = match (e, g) {
                (Ex::Connack { sp, code }, Some(Rx::Connack { sp: s, code: k })) => sp == s && code == k,
                (Ex::Puback { pid, code, lax }, Some(Rx::Puback(p, k))) => pid == p && (code == k || *lax && *k == 0),
                (Ex::Pubrec { pid, code, lax }, Some(Rx::Pubrec(p, k))) => pid == p && (code == k || *lax && *k == 0),
                (Ex::Pubcomp(p, k), Some(Rx::Pubcomp(a, b))) => p == a && k == b,
                (Ex::Suback(p, k), Some(Rx::Suback(a, b))) => p == a && k == b,
                (Ex::Unsuback(p, k), Some(Rx::Unsuback(a, b))) => p == a && k == b,
                (Ex::Pingresp, Some(Rx::Pingresp)) => true,
                (Ex::Disconnect(codes), Some(Rx::Disconnect(k))) => codes.contains(k),
                (Ex::Disconnect(_), Some(Rx::Closed)) => continue,
                (Ex::Closed, Some(Rx::Closed)) => true,
                _ => false,
            };
            if !ok {
                return Err(format!("expected {e:?}, observed {g:?}"));
            }
            gi += 1;
        }
        if gi < ga.len() {
            return Err(format!("unexpected {:?}", ga[gi]));
        }
        if self.leaving == Some(c) {
            return Ok(());
        }
        // deliveries
        let gd: Vec<&Rx> = got.iter().filter(|r| is_del(r)).collect();
        let mut ed: Vec<Option<&Ex>> = exp.iter().filter(|r| is_del_x(r)).map(Some).collect();
        for g in &gd {
            let mut hit = None;
            let mut why = String::from("nothing of the kind is due");
            for j in 0..ed.len() {
                let Some(e) = ed[j] else { continue };
                match self.matches(c, g, e) {
                    Ok(()) => {
                        let blocked = ed[..j].iter().flatten().any(|b| !commute(b, e, subscribe));
                        if blocked {
                            why = "out of order".into();
                            continue;
                        }
                        hit = Some(j);
                        break;
                    }
                    Err(w) => {
                        if !w.is_empty() {
                            why = w;
                        }
                    }
                }
            }
            let Some(j) = hit else { return Err(format!("unexpected delivery {g:?}: {why}")) };
            let e = ed[j].take().unwrap();
            self.bind(c, g, e);
        }
        if let Some(e) = ed.iter().flatten().next() {
            return Err(format!("missing delivery {e:?}"));
        }
        // the order of retained messages, and of copies of one message for
        // overlapping subscriptions, is the broker's choice, and stays
        let pids: Vec<u16> = gd.iter().filter_map(|r| if let Rx::Pub(p) = r { Some(p.pid) } else { None }).filter(|p| *p > 0).collect();
        self.m.reorder(c, &pids);
        Ok(())
    }

    fn matches(&mut self, c: usize, g: &Rx, e: &Ex) -> Result<(), String> {
        match (g, e) {
            (Rx::Pub(g), Ex::Pub(x)) => {
                if g.topic != x.topic || g.payload != x.payload {
                    return Err(String::new());
                }
                if g.qos != x.qos {
                    return Err(format!("QoS {} instead of {}", g.qos, x.qos));
                }
                if g.dup != x.dup {
                    return Err(format!("DUP {} instead of {}", g.dup, x.dup));
                }
                if let Some(r) = x.retain
                    && g.retain != r
                {
                    return Err(format!("RETAIN {} instead of {r}", g.retain));
                }
                if g.ids != x.ids {
                    return Err(format!("subscription identifiers {:?} instead of {:?}", g.ids, x.ids));
                }
                if g.expiry != x.expiry {
                    return Err(format!("message expiry {:?} instead of {:?}", g.expiry, x.expiry));
                }
                if g.rest != x.rest {
                    return Err(format!("properties {} instead of {}", g.rest, x.rest));
                }
                if let Some((sess, uid)) = x.entry {
                    let bound = self.m.entry_by_uid(sess, uid).and_then(|e| e.pid);
                    match bound {
                        Some(p) if p != g.pid => return Err(format!("resent under packet identifier {} instead of {p}", g.pid)),
                        Some(_) => {}
                        None => {
                            if g.pid == 0 {
                                return Err("packet identifier 0".into());
                            }
                            let id = self.m.conns[c].id.clone();
                            if let Some(s) = self.m.sess.get(&id)
                                && s.queue.iter().any(|e| e.uid != uid && e.pid == Some(g.pid) && !matches!(e.st, St::Done))
                            {
                                return Err(format!("packet identifier {} is in use", g.pid));
                            }
                        }
                    }
                }
                Ok(())
            }
            (Rx::Pubrel(p, code), Ex::Rel { sess, uid, .. }) => {
                let b = self.m.entry_by_uid(*sess, *uid).and_then(|e| e.pid);
                if b == Some(*p) && *code == 0 {
                    Ok(())
                } else {
                    Err(format!("PUBREL for {b:?} was due"))
                }
            }
            (Rx::Pubrel(p, code), Ex::RelRaw(q, k)) if p == q && code == k => Ok(()),
            _ => Err(String::new()),
        }
    }
    fn bind(&mut self, _c: usize, g: &Rx, e: &Ex) {
        if let (Rx::Pub(g), Ex::Pub(x)) = (g, e)
            && let Some((sess, uid)) = x.entry
            && let Some(ent) = self.m.entry_by_uid(sess, uid)
        {
            ent.pid = Some(g.pid);
        }
    }
    /// Run a whole sequence; Err((step, what)).
    pub fn run(&mut self, ops: &[Op]) -> Result<Option<usize>, (usize, String)> {
        for (i, o) in ops.iter().enumerate() {
            match self.step(o) {
                Ok(Step::Ok) => {}
                Ok(Step::Noop) => return Ok(Some(i)),
                Err(e) => return Err((i, e)),
            }
        }
        Ok(None)
    }
}

/// May `b` be delivered after `a` although it was expected before it?
fn commute(b: &Ex, a: &Ex, subscribe: bool) -> bool {
    match (b, a) {
        (Ex::Pub(b), Ex::Pub(a)) => {
            if subscribe && !b.dup && !a.dup {
                return true;
            }
            if b.dup && a.dup {
                return false;
            }
            b.src != a.src || b.msg == a.msg
        }
        // PUBRELs are ordered among themselves, not relative to PUBLISHes
        (Ex::Rel { .. }, Ex::Rel { .. }) => false,
        _ => true,
    }
}

pub fn show_op(o: &Op) -> String {
    match o {
        Op::Connect(s, c) => format!(
            "{s}:connect({} {:?}{}{}{}{})",
            c.id,
            c.ver,
            if c.clean { " clean" } else { "" },
            c.expiry.map(|e| format!(" expiry={e}")).unwrap_or_default(),
            c.recv_max.map(|e| format!(" recv_max={e}")).unwrap_or_default(),
            c.will.as_ref().map(|w| format!(" will={}/{}q{}r{}d{}", w.topic, w.payload, w.qos, w.retain as u8, w.delay)).unwrap_or_default(),
        ),
        Op::Disconnect(s, r, e) => format!("{s}:disconnect({r:#x}{})", e.map(|e| format!(" expiry={e}")).unwrap_or_default()),
        Op::Drop(s) => format!("{s}:drop"),
        Op::Sub(s, i, id) => format!(
            "{s}:sub({}{})",
            i.iter()
                .map(|(f, o)| format!("{f} q{}{}{}{}", o.qos, if o.nl { " nl" } else { "" }, if o.rap { " rap" } else { "" }, if o.rh > 0 { format!(" rh{}", o.rh) } else { String::new() }))
                .collect::<Vec<_>>()
                .join(", "),
            id.map(|i| format!(" id={i}")).unwrap_or_default()
        ),
        Op::Unsub(s, f) => format!("{s}:unsub({})", f.join(", ")),
        Op::Pub(s, p) => format!(
            "{s}:pub({} q{} pid={}{}{}{}{}{}{})",
            p.topic,
            p.qos,
            p.pid,
            if p.retain { " retain" } else { "" },
            if p.dup { " dup" } else { "" },
            match &p.body {
                Body::Auto => String::new(),
                Body::Empty => " empty".into(),
                Body::Text(t) => format!(" '{t}'"),
            },
            p.alias.map(|a| format!(" alias={a}")).unwrap_or_default(),
            p.expiry.map(|a| format!(" expiry={a}")).unwrap_or_default(),
            if p.props { " props" } else { "" }
        ),
        Op::Pubrel(s, p) => format!("{s}:pubrel({p})"),
        Op::Ack(s, n) => format!("{s}:ack#{n}"),
        Op::Refuse(s, n) => format!("{s}:refuse#{n}"),
        Op::Stray(s, k, p) => format!("{s}:stray({k},{p})"),
        Op::Ping(s) => format!("{s}:ping"),
        Op::Adv(ms) => format!("+{ms}ms"),
        Op::Raw(s, n, _, _) => format!("{s}:raw({n})"),
    }
}

/// Explore every sequence over `alphabet` up to `depth` after a fixed prefix.
pub fn explore(check: &mc_engine::Check, section: &str, config: &Config, slots: usize, prefix: &[Op], alphabet: &[Op], depth: usize) {
    explore_with(check, section, config, slots, prefix, alphabet, depth, false)
}
#[allow(clippy::too_many_arguments)]
pub fn explore_with(check: &mc_engine::Check, section: &str, config: &Config, slots: usize, prefix: &[Op], alphabet: &[Op], depth: usize, counts: bool) {
    check.explore_tree(section, alphabet, depth, show_op, |ops, log| {
        let mut s = Sim::new(config.clone(), slots);
        s.trace = log;
        s.counts = counts;
        for o in prefix {
            if log {
                println!("  [{}]", show_op(o));
            }
            match s.step(o) {
                Ok(Step::Ok) => {}
                Ok(Step::Noop) => return Err((0, "ENGINE: prefix operation does not apply".into())),
                Err(e) => return Err((0, format!("in the prefix, {}: {e}", show_op(o)))),
            }
        }
        for (i, o) in ops.iter().enumerate() {
            if log {
                println!("  {}", show_op(o));
            }
            match s.step(o) {
                Ok(Step::Ok) => check.state(&s.m.digest()),
                Ok(Step::Noop) => return Ok(Some(i)),
                Err(e) => return Err((i, e)),
            }
        }
        Ok(None)
    });
}
