//! Reference model of the broker: what every connected client must observe.
//! It is written from the MQTT specifications plus the broker's documented
//! choices (in-memory queues with a cap, timed resends); it is kept bound to
//! the code by running every explored operation sequence against both and
//! comparing each client's byte stream after each step (`sim.rs`).
use std::collections::{BTreeMap, BTreeSet, VecDeque};

use crate::topics::matches;
use crate::world::Ver;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct WillSpec {
    pub topic: &'static str,
    pub payload: &'static str,
    pub qos: u8,
    pub retain: bool,
    pub delay: u32,
    pub expiry: Option<u32>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ConnSpec {
    pub id: &'static str,
    pub ver: Ver,
    pub clean: bool,
    pub expiry: Option<u32>,
    pub recv_max: Option<u16>,
    pub will: Option<WillSpec>,
    pub keep_alive: u16,
    pub alias_max: Option<u16>,
    pub max_packet: Option<u32>,
}
impl ConnSpec {
    pub fn new(id: &'static str, ver: Ver) -> ConnSpec {
        ConnSpec { id, ver, clean: true, expiry: None, recv_max: None, will: None, keep_alive: 0, alias_max: None, max_packet: None }
    }
    pub fn persistent(id: &'static str, ver: Ver) -> ConnSpec {
        let mut s = Self::new(id, ver);
        s.clean = false;
        if ver.is_v5() {
            s.expiry = Some(1000);
        }
        s
    }
    pub fn clean(mut self, c: bool) -> Self {
        self.clean = c;
        self
    }
    pub fn expiry(mut self, e: u32) -> Self {
        self.expiry = Some(e);
        self
    }
    pub fn recv_max(mut self, e: u16) -> Self {
        self.recv_max = Some(e);
        self
    }
    pub fn alias_max(mut self, e: u16) -> Self {
        self.alias_max = Some(e);
        self
    }
    pub fn max_packet(mut self, e: u32) -> Self {
        self.max_packet = Some(e);
        self
    }
    pub fn keep_alive(mut self, e: u16) -> Self {
        self.keep_alive = e;
        self
    }
    pub fn will(mut self, w: WillSpec) -> Self {
        self.will = Some(w);
        self
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct SubOpt {
    pub qos: u8,
    pub nl: bool,
    pub rap: bool,
    pub rh: u8,
}
pub const fn q(qos: u8) -> SubOpt {
    SubOpt { qos, nl: false, rap: false, rh: 0 }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Body {
    /// a payload no other message has
    Auto,
    Empty,
    Text(&'static str),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PubOp {
    pub topic: &'static str,
    pub qos: u8,
    pub retain: bool,
    pub dup: bool,
    pub pid: u16,
    pub body: Body,
    pub alias: Option<u16>,
    pub expiry: Option<u32>,
    /// content type, response topic, correlation data, user property, format
    pub props: bool,
}
pub fn publ(topic: &'static str, qos: u8, pid: u16) -> PubOp {
    PubOp { topic, qos, retain: false, dup: false, pid, body: Body::Auto, alias: None, expiry: None, props: false }
}
impl PubOp {
    pub fn retain(mut self) -> Self {
        self.retain = true;
        self
    }
    pub fn dup(mut self) -> Self {
        self.dup = true;
        self
    }
    pub fn body(mut self, b: Body) -> Self {
        self.body = b;
        self
    }
    pub fn text(self, s: &'static str) -> Self {
        self.body(Body::Text(s))
    }
    pub fn alias(mut self, a: u16) -> Self {
        self.alias = Some(a);
        self
    }
    pub fn expiry(mut self, e: u32) -> Self {
        self.expiry = Some(e);
        self
    }
    pub fn props(mut self) -> Self {
        self.props = true;
        self
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Connect(usize, ConnSpec),
    Disconnect(usize, u8, Option<u32>),
    Drop(usize),
    Sub(usize, Vec<(&'static str, SubOpt)>, Option<u32>),
    Unsub(usize, Vec<&'static str>),
    Pub(usize, PubOp),
    Pubrel(usize, u16),
    /// answer the nth unanswered delivery of this client
    Ack(usize, usize),
    /// v5: refuse the nth unanswered QoS 2 delivery (PUBREC with an error code)
    Refuse(usize, usize),
    /// an acknowledgement for an identifier nothing is in flight under
    Stray(usize, u8, u16),
    Ping(usize),
    Adv(u64),
    /// raw bytes; the model is told what must happen
    Raw(usize, &'static str, Vec<u8>, RawExp),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RawExp {
    /// closed; a v5 server may first send DISCONNECT with one of these codes
    CloseWith(Vec<u8>),
    Nothing,
}

/// What a client must observe.
#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    Connack { sp: bool, code: u8 },
    Pub(ExPub),
    /// PUBREL of a queue entry
    Rel { sess: u64, uid: u64, resend: bool },
    /// PUBREL answering an unknown identifier
    RelRaw(u16, u8),
    /// acknowledgement to a publisher; `lax`: Success is also fine
    Puback { pid: u16, code: u8, lax: bool },
    Pubrec { pid: u16, code: u8, lax: bool },
    Pubcomp(u16, u8),
    Suback(u16, Vec<u8>),
    Unsuback(u16, Vec<u8>),
    Pingresp,
    Disconnect(Vec<u8>),
    Closed,
}
#[derive(Clone, Debug, PartialEq)]
pub struct ExPub {
    pub topic: String,
    pub payload: String,
    pub qos: u8,
    pub dup: bool,
    /// None: not judged
    pub retain: Option<bool>,
    pub ids: Vec<u32>,
    pub expiry: Option<u32>,
    pub rest: String,
    /// queue entry, for packet identifier binding
    pub entry: Option<(u64, u64)>,
    pub src: String,
    pub msg: u64,
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub n: u64,
    pub src: String,
    pub topic: String,
    pub payload: String,
    pub qos: u8,
    pub retain: bool,
    pub expiry: Option<u32>,
    pub rest: String,
    pub v5: bool,
    /// when it was published, in seconds
    pub at: u64,
}

#[derive(Clone, Debug)]
pub enum St {
    New { sent: u64, dup: bool },
    Rel { sent: u64 },
    Done,
}
#[derive(Clone, Debug)]
pub struct Ent {
    pub uid: u64,
    pub added: u64,
    pub st: St,
    pub pid: Option<u16>,
    pub x: ExPub,
}
#[derive(Clone, Debug)]
pub struct Sub {
    pub o: SubOpt,
    pub id: Option<u32>,
}
#[derive(Clone, Debug)]
pub struct Sess {
    pub uid: u64,
    pub ver: Ver,
    pub online: Option<usize>,
    pub expiry: u32,
    pub subs: BTreeMap<String, Sub>,
    pub queue: VecDeque<Ent>,
    pub qos2_in: BTreeMap<u16, String>,
    pub will: Option<WillSpec>,
    pub will_due: Option<u64>,
    pub expire_at: Option<u64>,
    pub window: usize,
}

#[derive(Clone, Debug)]
pub struct MConn {
    pub ver: Ver,
    pub id: String,
    pub live: bool,
    pub alias: BTreeMap<u16, String>,
    pub max_packet: Option<u32>,
}

#[derive(Clone, Debug)]
pub struct ModelCfg {
    pub window: usize,
    pub server_window: usize,
    pub cap: usize,
    pub timeout: u64,
    pub max_qos: u8,
    pub retain_available: bool,
    pub wildcard: bool,
    pub shared: bool,
    pub sub_ids: bool,
    pub alias_max: u16,
    pub max_session_expiry: u32,
    pub max_packet: u32,
    pub keep_alive: (u16, u16),
}

pub struct Model {
    pub cfg: ModelCfg,
    pub now: u64,
    pub conns: Vec<MConn>,
    pub sess: BTreeMap<String, Sess>,
    pub retained: BTreeMap<String, Msg>,
    pub out: Vec<Vec<Ex>>,
    uid: u64,
    msgs: u64,
}

impl ExPub {
    /// Size of the packet, without a topic alias.
    pub fn wire_size(&self) -> usize {
        let var = |n: usize| 1 + (n > 127) as usize + (n > 16_383) as usize + (n > 2_097_151) as usize;
        let mut props = if self.rest.is_empty() { 0 } else { 27 };
        props += self.expiry.map_or(0, |_| 5);
        props += self.ids.iter().map(|i| 1 + var(*i as usize)).sum::<usize>();
        let rem = 2 + self.topic.len() + if self.qos > 0 { 2 } else { 0 } + var(props) + props + self.payload.len();
        1 + var(rem) + rem
    }
}

pub const PROPS: &str = "utf8=true;resp=r/t;corr=b\"cd\";ct=text;user=UserProperty { name: \"k\", value: \"v\" };";

impl Model {
    pub fn new(c: &akasa_core::Config, now: u64) -> Model {
        Model {
            cfg: ModelCfg {
                window: c.max_inflight_client as usize,
                server_window: c.max_inflight_server as usize,
                cap: c.max_in_mem_pending_messages,
                timeout: c.inflight_timeout,
                max_qos: c.max_allowed_qos() as u8,
                retain_available: c.retain_available,
                wildcard: c.wildcard_subscription_available,
                shared: c.shared_subscription_available,
                sub_ids: c.subscription_id_available,
                alias_max: c.topic_alias_max,
                max_session_expiry: c.max_session_expiry_interval,
                max_packet: c.max_packet_size_server,
                keep_alive: (c.min_keep_alive, c.max_keep_alive),
            },
            now,
            conns: vec![],
            sess: BTreeMap::new(),
            retained: BTreeMap::new(),
            out: vec![],
            uid: 0,
            msgs: 0,
        }
    }
    fn secs(&self) -> u64 {
        self.now / 1000
    }
    fn uid(&mut self) -> u64 {
        self.uid += 1;
        self.uid
    }
    fn emit(&mut self, conn: usize, e: Ex) {
        self.out[conn].push(e);
    }
    fn close(&mut self, conn: usize) {
        self.conns[conn].live = false;
        self.emit(conn, Ex::Closed);
    }
    /// Begin an operation: expectations per connection are collected afresh.
    pub fn begin(&mut self) {
        for o in &mut self.out {
            o.clear();
        }
    }
    pub fn next_payload(&mut self) -> String {
        format!("m{}", self.msgs + 1)
    }

    // ---- connections -----------------------------------------------------

    pub fn connect(&mut self, conn: usize, s: &ConnSpec) {
        while self.conns.len() <= conn {
            self.conns.push(MConn { ver: s.ver, id: String::new(), live: false, alias: BTreeMap::new(), max_packet: None });
            self.out.push(vec![]);
        }
        let id = if s.id.is_empty() { format!("auto{conn}") } else { s.id.to_string() };
        self.conns[conn] = MConn { ver: s.ver, id: id.clone(), live: true, alias: BTreeMap::new(), max_packet: s.max_packet };
        if let Some(w) = &s.will
            && !s.ver.is_v5()
            && w.qos > self.cfg.max_qos
        {
            // there is no code for it
            self.close(conn);
            return;
        }
        if let Some(w) = &s.will
            && s.ver.is_v5()
        {
            let code = if w.retain && !self.cfg.retain_available {
                0x9A
            } else if w.qos > self.cfg.max_qos {
                0x9B
            } else {
                0
            };
            if code != 0 {
                self.emit(conn, Ex::Connack { sp: false, code });
                self.close(conn);
                return;
            }
        }
        let mut sp = false;
        let mut old_will = None;
        if let Some(old) = self.sess.get(&id).cloned() {
            if old.ver.is_v5() != s.ver.is_v5() {
                // documented: sessions are not taken over across v3/v5
                self.close(conn);
                return;
            }
            if let Some(oc) = old.online {
                self.close(oc);
            }
            self.sess.get_mut(&id).unwrap().online = None;
            let ended = old.online.is_some() && old.expiry == 0;
            if !s.clean && old.ver == s.ver && !ended {
                sp = true;
                // the old connection ended; a delayed will lives on only if
                // nobody reconnects
                if old.online.is_some() {
                    old_will = old.will.clone().filter(|w| w.delay == 0 || !s.ver.is_v5());
                }
            } else {
                self.end_session(&id);
            }
        }
        if !sp {
            let uid = self.uid();
            self.sess.insert(
                id.clone(),
                Sess {
                    uid,
                    ver: s.ver,
                    online: None,
                    expiry: 0,
                    subs: BTreeMap::new(),
                    queue: VecDeque::new(),
                    qos2_in: BTreeMap::new(),
                    will: None,
                    will_due: None,
                    expire_at: None,
                    window: 0,
                },
            );
        }
        let w = if s.ver.is_v5() { s.recv_max.map(|r| r as usize).unwrap_or(self.cfg.window) } else { self.cfg.window };
        let maxexp = self.cfg.max_session_expiry;
        let se = self.sess.get_mut(&id).unwrap();
        se.online = Some(conn);
        se.window = w;
        se.will = s.will.clone();
        se.will_due = None;
        se.expire_at = None;
        se.expiry = if s.ver.is_v5() {
            s.expiry.unwrap_or(0).min(maxexp)
        } else if s.clean {
            0
        } else {
            u32::MAX
        };
        for e in &mut se.queue {
            match &mut e.st {
                St::New { sent, .. } => *sent = 0,
                St::Rel { sent } => *sent = 0,
                St::Done => {}
            }
        }
        self.emit(conn, Ex::Connack { sp, code: 0 });
        self.pump_queue(&id);
        if let Some(w) = old_will {
            self.will_message(&id, w);
        }
    }

    /// The session is over: its will is due now, and it is forgotten.
    fn end_session(&mut self, id: &str) {
        self.publish_will(id);
        self.sess.remove(id);
    }

    fn publish_will(&mut self, id: &str) {
        let Some(w) = self.sess.get_mut(id).and_then(|s| {
            s.will_due = None;
            s.will.take()
        }) else {
            return;
        };
        self.will_message(id, w);
    }
    fn will_message(&mut self, id: &str, w: WillSpec) {
        let v5 = self.sess[id].ver.is_v5();
        self.msgs += 1;
        let m = Msg {
            n: self.msgs,
            src: id.to_string(),
            topic: w.topic.into(),
            payload: w.payload.into(),
            qos: w.qos,
            retain: w.retain,
            expiry: w.expiry,
            rest: String::new(),
            v5,
            at: self.secs(),
        };
        self.route(Some(id.to_string()), m);
    }

    /// The network connection of `conn` is gone.
    fn lost(&mut self, conn: usize, normal: bool) {
        self.conns[conn].live = false;
        let id = self.conns[conn].id.clone();
        let now = self.now;
        let Some(s) = self.sess.get_mut(&id) else { return };
        if s.online != Some(conn) {
            return;
        }
        s.online = None;
        if normal {
            s.will = None;
        }
        let v5 = s.ver.is_v5();
        let delay = if v5 { s.will.as_ref().map(|w| w.delay).unwrap_or(0) } else { 0 };
        let expiry = s.expiry;
        if expiry == 0 {
            self.end_session(&id);
            return;
        }
        if v5 && expiry != u32::MAX {
            s.expire_at = Some(now + expiry as u64 * 1000);
        }
        if s.will.is_some() {
            if delay == 0 {
                self.publish_will(&id);
            } else {
                s.will_due = Some(now + (delay.min(expiry)) as u64 * 1000);
            }
        }
    }

    pub fn disconnect(&mut self, conn: usize, reason: u8, expiry: Option<u32>) {
        let id = self.conns[conn].id.clone();
        if self.conns[conn].ver.is_v5()
            && let Some(e) = expiry
        {
            let s = self.sess.get_mut(&id).unwrap();
            if s.expiry == 0 && e > 0 {
                self.protocol_error(conn, vec![0x82]);
                return;
            }
            s.expiry = e.min(self.cfg.max_session_expiry);
        }
        self.emit(conn, Ex::Closed);
        self.lost(conn, reason == 0);
    }
    pub fn dropped(&mut self, conn: usize) {
        self.emit(conn, Ex::Closed);
        self.lost(conn, false);
    }
    /// The client broke the protocol: only its own connection is closed.
    pub fn protocol_error(&mut self, conn: usize, codes: Vec<u8>) {
        if self.conns[conn].ver.is_v5() && !codes.is_empty() {
            self.emit(conn, Ex::Disconnect(codes));
        }
        self.emit(conn, Ex::Closed);
        self.lost(conn, false);
    }

    // ---- subscriptions ---------------------------------------------------

    pub fn subscribe(&mut self, conn: usize, pid: u16, items: &[(&'static str, SubOpt)], sub_id: Option<u32>) {
        let id = self.conns[conn].id.clone();
        let v5 = self.conns[conn].ver.is_v5();
        if v5 && (sub_id == Some(0) || items.iter().any(|(f, o)| o.nl && f.starts_with("$share/"))) {
            self.protocol_error(conn, vec![0x82]);
            return;
        }
        let mut codes = vec![];
        for (f, o) in items {
            if v5 && !self.cfg.sub_ids && sub_id.is_some() {
                codes.push(0xA1);
                continue;
            }
            if v5 && !self.cfg.shared && f.starts_with("$share/") {
                codes.push(0x9E);
                continue;
            }
            if v5 && !self.cfg.wildcard && f.contains(['+', '#']) {
                codes.push(0xA2);
                continue;
            }
            let mut o = *o;
            o.qos = o.qos.min(self.cfg.max_qos);
            codes.push(o.qos);
            let existed = self.sess.get_mut(&id).unwrap().subs.insert(f.to_string(), Sub { o, id: if v5 { sub_id } else { None } }).is_some();
            let send = !f.starts_with("$share/")
                && if v5 { self.cfg.retain_available && (o.rh == 0 || o.rh == 1 && !existed) } else { true };
            if send {
                let ms: Vec<Msg> = self.retained.values().filter(|m| matches(f, &m.topic)).cloned().collect();
                for mut m in ms {
                    if v5 && o.nl && m.src == id {
                        continue;
                    }
                    if let Some(e) = m.expiry {
                        let passed = self.secs() - m.at;
                        if passed >= e as u64 {
                            continue;
                        }
                        m.expiry = Some(e - passed as u32);
                    }
                    let ids: Vec<u32> = if v5 { sub_id.into_iter().collect() } else { vec![] };
                    // v5: the broker sends RETAIN as the subscription's
                    // retain-as-published says; pinned by its own tests
                    let retain = if v5 { None } else { Some(true) };
                    self.deliver(&id, &m, o.qos, retain, ids, false);
                }
                self.pump_queue(&id);
            }
        }
        self.emit(conn, Ex::Suback(pid, codes));
        self.after_packet(&id);
    }

    pub fn unsubscribe(&mut self, conn: usize, pid: u16, fs: &[&'static str]) {
        let id = self.conns[conn].id.clone();
        let v5 = self.conns[conn].ver.is_v5();
        let mut codes = vec![];
        for f in fs {
            let had = self.sess.get_mut(&id).unwrap().subs.remove(*f).is_some();
            if v5 {
                codes.push(if had { 0 } else { 0x11 });
            }
        }
        self.emit(conn, Ex::Unsuback(pid, codes));
        self.after_packet(&id);
    }

    // ---- publishing ------------------------------------------------------

    pub fn publish(&mut self, conn: usize, p: &PubOp) {
        let id = self.conns[conn].id.clone();
        let v5 = self.conns[conn].ver.is_v5();
        if p.qos > self.cfg.max_qos {
            return self.protocol_error(conn, vec![0x9B]);
        }
        let mut topic = p.topic.to_string();
        if topic.starts_with('$') {
            return self.protocol_error(conn, vec![0x90, 0x82, 0x87]);
        }
        if p.qos == 0 && p.dup {
            return self.protocol_error(conn, vec![0x82, 0x81]);
        }
        if v5 {
            if let Some(a) = p.alias {
                if a == 0 || a > self.cfg.alias_max {
                    return self.protocol_error(conn, vec![0x94]);
                }
                if topic.is_empty() {
                    match self.conns[conn].alias.get(&a) {
                        Some(t) => topic = t.clone(),
                        None => return self.protocol_error(conn, vec![0x82, 0x94]),
                    }
                } else {
                    self.conns[conn].alias.insert(a, topic.clone());
                }
            } else if topic.is_empty() {
                return self.protocol_error(conn, vec![0x82]);
            }
        } else if topic.is_empty() {
            return self.protocol_error(conn, vec![]);
        }
        let payload = match &p.body {
            Body::Auto => self.next_payload(),
            Body::Empty => String::new(),
            Body::Text(t) => t.to_string(),
        };
        let mut fresh = true;
        if p.qos == 2 {
            let fp = format!("{:?} {} {} {:?} {:?} {}", p.topic, payload, p.retain, p.alias, p.expiry, p.props);
            let s = self.sess.get_mut(&id).unwrap();
            if let Some(old) = s.qos2_in.get(&p.pid) {
                if *old != fp {
                    if v5 {
                        self.emit(conn, Ex::Pubrec { pid: p.pid, code: 0x91, lax: false });
                        self.after_packet(&id);
                    } else {
                        self.protocol_error(conn, vec![]);
                    }
                    return;
                }
                if !p.dup {
                    return self.protocol_error(conn, vec![0x82]);
                }
                fresh = false;
            } else if v5 && s.qos2_in.len() >= self.cfg.server_window {
                return self.protocol_error(conn, vec![0x93]);
            } else {
                s.qos2_in.insert(p.pid, fp);
            }
        }
        let mut matched = 1;
        if fresh {
            self.msgs += 1;
            let m = Msg {
                n: self.msgs,
                src: id.clone(),
                topic,
                payload,
                qos: p.qos,
                retain: p.retain,
                expiry: if v5 { p.expiry } else { None },
                rest: if v5 && p.props { PROPS.to_string() } else { String::new() },
                v5,
                at: self.secs(),
            };
            matched = self.route(Some(id.clone()), m);
        }
        let code = if v5 && matched == 0 { 0x10 } else { 0 };
        match p.qos {
            1 => self.emit(conn, Ex::Puback { pid: p.pid, code, lax: code == 0x10 }),
            2 => self.emit(conn, Ex::Pubrec { pid: p.pid, code, lax: code == 0x10 }),
            _ => {}
        }
        self.after_packet(&id);
    }

    pub fn pubrel(&mut self, conn: usize, pid: u16) {
        let id = self.conns[conn].id.clone();
        let had = self.sess.get_mut(&id).unwrap().qos2_in.remove(&pid).is_some();
        if !had && !self.conns[conn].ver.is_v5() {
            return self.protocol_error(conn, vec![]);
        }
        self.emit(conn, Ex::Pubcomp(pid, if had { 0 } else { 0x92 }));
        self.after_packet(&id);
    }

    /// Returns the number of matching topic filters.
    fn route(&mut self, from: Option<String>, m: Msg) -> usize {
        if m.retain {
            if m.payload.is_empty() {
                self.retained.remove(&m.topic);
            } else {
                self.retained.insert(m.topic.clone(), m.clone());
            }
        }
        let mut filters: BTreeSet<String> = BTreeSet::new();
        let ids: Vec<String> = self.sess.keys().cloned().collect();
        for id in &ids {
            let s = &self.sess[id];
            let v5 = s.ver.is_v5();
            let mine = from.as_deref() == Some(id.as_str());
            let hit: Vec<(String, Sub)> =
                s.subs.iter().filter(|(f, _)| !f.starts_with("$share/") && matches(f, &m.topic)).map(|(f, s)| (f.clone(), s.clone())).collect();
            filters.extend(hit.iter().map(|h| h.0.clone()));
            let hit: Vec<(String, Sub)> = hit.into_iter().filter(|(_, s)| !(mine && s.o.nl && m.v5)).collect();
            if hit.is_empty() {
                continue;
            }
            let mut queued = false;
            if m.v5 {
                let qos = hit.iter().map(|h| h.1.o.qos).max().unwrap();
                if v5 {
                    let rap = hit.iter().any(|h| h.1.o.rap);
                    let mut sids: Vec<u32> = hit.iter().filter_map(|h| h.1.id).collect();
                    sids.sort();
                    sids.dedup();
                    queued |= self.deliver(id, &m, qos, Some(m.retain && rap && self.cfg.retain_available), sids, false);
                } else {
                    queued |= self.deliver(id, &m, qos, Some(false), vec![], false);
                }
            } else {
                for (_, sub) in hit {
                    if v5 {
                        let sids = sub.id.into_iter().collect();
                        queued |= self.deliver(id, &m, sub.o.qos, Some(m.retain && sub.o.rap && self.cfg.retain_available), sids, false);
                    } else {
                        queued |= self.deliver(id, &m, sub.o.qos, Some(false), vec![], false);
                    }
                }
            }
            // a QoS 0 delivery alone does not look at the queue
            if queued {
                self.pump_queue(id);
            }
        }
        filters.len()
    }

    fn deliver(&mut self, id: &str, m: &Msg, subqos: u8, retain: Option<bool>, ids: Vec<u32>, _x: bool) -> bool {
        let uid = self.uid();
        let secs = self.secs();
        let cap = self.cfg.cap;
        let s = self.sess.get_mut(id).unwrap();
        let v5 = s.ver.is_v5();
        let qos = m.qos.min(subqos);
        let x = ExPub {
            topic: m.topic.clone(),
            payload: m.payload.clone(),
            qos,
            dup: false,
            retain,
            ids,
            expiry: if v5 || qos > 0 { m.expiry } else { None },
            rest: if v5 { m.rest.clone() } else { String::new() },
            entry: if qos > 0 { Some((s.uid, uid)) } else { None },
            src: m.src.clone(),
            msg: m.n,
        };
        if qos == 0 {
            if let Some(c) = s.online
                && (!v5 || x.wire_size() <= self.conns[c].max_packet.map_or(usize::MAX, |m| m as usize))
            {
                self.emit(c, Ex::Pub(x));
            }
            return false;
        }
        clean_complete(&mut s.queue);
        if s.queue.len() < cap {
            s.queue.push_back(Ent { uid, added: secs, st: St::New { sent: 0, dup: false }, pid: None, x });
        }
        true
    }

    /// Send what the in-flight window and the resend timer allow.
    fn pump_queue(&mut self, id: &str) {
        let secs = self.secs();
        let timeout = self.cfg.timeout;
        let Some(s) = self.sess.get_mut(id) else { return };
        let Some(conn) = s.online else { return };
        let v5 = s.ver.is_v5();
        let limit = if s.ver.is_v5() { self.conns[conn].max_packet.map_or(usize::MAX, |m| m as usize) } else { usize::MAX };
        let suid = s.uid;
        let mut out = vec![];
        // what is discarded makes room
        let mut discarded = true;
        while std::mem::take(&mut discarded) {
        clean_complete(&mut s.queue);
        for e in s.queue.iter_mut().take(s.window) {
            match &mut e.st {
                St::New { sent, dup } => {
                    if secs < timeout + *sent {
                        continue;
                    }
                    let mut x = e.x.clone();
                    if let Some(v) = x.expiry {
                        let passed = secs - e.added;
                        if !*dup && passed >= v as u64 {
                            e.st = St::Done;
                            discarded = true;
                            continue;
                        }
                        x.expiry = v5.then_some(v.saturating_sub(passed as u32));
                    }
                    if x.wire_size() > limit {
                        // discarded as if it had been delivered
                        e.st = St::Done;
                        discarded = true;
                        continue;
                    }
                    x.dup = *dup;
                    *dup = true;
                    *sent = secs;
                    out.push(Ex::Pub(x));
                }
                St::Rel { sent } => {
                    if secs < timeout + *sent {
                        continue;
                    }
                    *sent = secs;
                    out.push(Ex::Rel { sess: suid, uid: e.uid, resend: true });
                }
                St::Done => {}
            }
        }
        }
        clean_complete(&mut s.queue);
        for o in out {
            self.emit(conn, o);
        }
    }

    pub fn after_packet(&mut self, id: &str) {
        self.pump_queue(id);
    }

    // ---- acknowledgements of deliveries ----------------------------------

    fn entry(&mut self, conn: usize, pid: u16) -> Option<&mut Ent> {
        let id = self.conns[conn].id.clone();
        let s = self.sess.get_mut(&id)?;
        let w = s.window;
        s.queue.iter_mut().take(w).find(|e| e.pid == Some(pid) && !matches!(e.st, St::Done))
    }
    pub fn puback(&mut self, conn: usize, pid: u16) {
        if let Some(e) = self.entry(conn, pid)
            && let St::New { .. } = e.st
        {
            e.st = St::Done;
        }
        let id = self.conns[conn].id.clone();
        self.after_packet(&id);
    }
    pub fn pubrec(&mut self, conn: usize, pid: u16, code: u8) {
        let secs = self.secs();
        let id = self.conns[conn].id.clone();
        let suid = self.sess[&id].uid;
        let v5 = self.conns[conn].ver.is_v5();
        let e = self.entry(conn, pid);
        let found = match e {
            Some(e) if matches!(e.st, St::New { .. }) => {
                if code >= 0x80 {
                    e.st = St::Done;
                    None
                } else {
                    e.st = St::Rel { sent: secs };
                    Some(Some(e.uid))
                }
            }
            _ if code >= 0x80 => None,
            _ => Some(None),
        };
        match found {
            Some(Some(uid)) => self.emit(conn, Ex::Rel { sess: suid, uid, resend: false }),
            Some(None) => self.emit(conn, Ex::RelRaw(pid, if v5 { 0x92 } else { 0 })),
            None => {}
        }
        self.after_packet(&id);
    }
    pub fn pubcomp(&mut self, conn: usize, pid: u16) {
        if let Some(e) = self.entry(conn, pid)
            && let St::Rel { .. } = e.st
        {
            e.st = St::Done;
        }
        let id = self.conns[conn].id.clone();
        self.after_packet(&id);
    }
    pub fn ping(&mut self, conn: usize) {
        self.emit(conn, Ex::Pingresp);
        let id = self.conns[conn].id.clone();
        self.after_packet(&id);
    }

    /// Timers up to `now + ms`, in order. Returns the moments one fired.
    pub fn advance(&mut self, ms: u64) -> Vec<u64> {
        let end = self.now + ms;
        let mut fired = vec![];
        loop {
            let mut best: Option<(u64, bool, String)> = None;
            for (id, s) in &self.sess {
                for (t, exp) in [(s.will_due, false), (s.expire_at, true)] {
                    if let Some(t) = t
                        && t <= end
                        && best.as_ref().is_none_or(|b| (t, exp) < (b.0, b.1))
                    {
                        best = Some((t, exp, id.clone()));
                    }
                }
            }
            let Some((t, exp, id)) = best else { break };
            self.now = self.now.max(t);
            fired.push(self.now);
            if exp {
                self.end_session(&id);
            } else {
                self.publish_will(&id);
            }
        }
        self.now = end;
        fired
    }

    pub fn entry_by_uid(&mut self, sess: u64, uid: u64) -> Option<&mut Ent> {
        self.sess.values_mut().find(|s| s.uid == sess)?.queue.iter_mut().find(|e| e.uid == uid)
    }
    /// The entries in flight under these identifiers were sent in this order.
    pub fn reorder(&mut self, conn: usize, pids: &[u16]) {
        let id = self.conns[conn].id.clone();
        let Some(s) = self.sess.get_mut(&id) else { return };
        let at: Vec<usize> = (0..s.queue.len()).filter(|i| s.queue[*i].pid.is_some_and(|p| pids.contains(&p)) && !matches!(s.queue[*i].st, St::Done)).collect();
        let mut sorted: Vec<Ent> = at.iter().map(|i| s.queue[*i].clone()).collect();
        sorted.sort_by_key(|e| pids.iter().position(|p| e.pid == Some(*p)));
        for (i, e) in at.into_iter().zip(sorted) {
            s.queue[i] = e;
        }
    }
    pub fn online_count(&self) -> usize {
        self.sess.values().filter(|s| s.online.is_some()).count()
    }
    /// Canonical rendering of the model state, for counting distinct states.
    pub fn digest(&self) -> String {
        let mut s = String::new();
        for (id, x) in &self.sess {
            s += &format!("{id}:{:?}/{:?}/{}/", x.ver, x.online.is_some(), x.expiry);
            for (f, b) in &x.subs {
                s += &format!("{f}{:?}{:?},", b.o, b.id);
            }
            for e in &x.queue {
                s += &format!("{}{}{:?}{};", e.x.topic, e.x.qos, std::mem::discriminant(&e.st), e.x.dup);
            }
            s += &format!("{:?}{:?}{:?}|", x.qos2_in.keys().collect::<Vec<_>>(), x.will_due.map(|t| t as i64 - self.now as i64), x.expire_at.map(|t| t as i64 - self.now as i64));
        }
        for (t, m) in &self.retained {
            s += &format!("R{t}{}{};", m.qos, m.src);
        }
        s
    }
}

fn clean_complete(q: &mut VecDeque<Ent>) {
    while let Some(Ent { st: St::Done, .. }) = q.front() {
        q.pop_front();
    }
}
