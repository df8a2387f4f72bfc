//! Hooks: what they are called with, what their answers do, and what happens
//! while they have not answered yet.
use std::collections::BTreeMap;
use std::sync::Arc;

use akasa_core::*;
use bytes::Bytes;
use mc_engine::Check;

use crate::hook::raw;
use crate::model::*;
use crate::sim::*;
use crate::world::Ver::{self, *};
use crate::world::*;

/// What the hook does about one event.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ans {
    Allow,
    /// the nth refusal of the event's kind
    Refuse(usize),
    Fails,
    /// replace the topic (or first filter) by t2
    Rewrite,
    /// replace the payload
    Payload,
    /// allow; afterwards do the nth list of actions
    After(usize),
    AfterErr,
    /// undecided until released, before or after the event takes effect
    Wait,
    WaitAfter,
    /// undecided; the client's network connection is gone meanwhile
    WaitEof,
    /// undecided; another connection of the client arrives meanwhile
    WaitTakeover,
}
use Ans::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Connect(Ans),
    /// a second connection of the client
    Takeover(Ans),
    Pub(u8, Ans),
    Sub(Ans),
    Sub2(Ans),
    Unsub(Ans),
    Unsub2(Ans),
    Eof(Ans),
    Disconnect(Ans),
    /// the other client publishes
    Other(&'static str),
}

#[derive(Clone, Copy, Debug)]
struct On {
    before_connect: bool,
    after_connect: bool,
    publish: bool,
    subscribe: bool,
    unsubscribe: bool,
    after_disconnect: bool,
}
impl On {
    fn bits(n: usize) -> On {
        let b = |i: usize| n >> i & 1 == 1;
        On { before_connect: b(0), after_connect: b(1), publish: b(2), subscribe: b(3), unsubscribe: b(4), after_disconnect: b(5) }
    }
}

const CONNECT: [(HookConnectCode, u8, u8); 7] = [
    (HookConnectCode::UnspecifiedError, 0x80, 3),
    (HookConnectCode::ClientIdentifierNotValid, 0x85, 2),
    (HookConnectCode::BadUserNameOrPassword, 0x86, 4),
    (HookConnectCode::NotAuthorized, 0x87, 5),
    (HookConnectCode::ServerUnavailable, 0x88, 3),
    (HookConnectCode::QuotaExceeded, 0x97, 3),
    (HookConnectCode::ConnectionRateExceeded, 0x9F, 3),
];
const PUBLISH: [(HookPublishCode, u8); 4] = [
    (HookPublishCode::UnspecifiedError, 0x80),
    (HookPublishCode::NotAuthorized, 0x87),
    (HookPublishCode::TopicNameInvalid, 0x90),
    (HookPublishCode::QuotaExceeded, 0x97),
];
const SUBSCRIBE: [(HookSubscribeCode, u8); 4] = [
    (HookSubscribeCode::UnspecifiedError, 0x80),
    (HookSubscribeCode::NotAuthorized, 0x87),
    (HookSubscribeCode::TopicFilterInvalid, 0x8F),
    (HookSubscribeCode::QuotaExceeded, 0x97),
];
const UNSUBSCRIBE: [(HookUnsubscribeCode, u8); 3] = [
    (HookUnsubscribeCode::UnspecifiedError, 0x80),
    (HookUnsubscribeCode::NotAuthorized, 0x87),
    (HookUnsubscribeCode::TopicFilterInvalid, 0x8F),
];

#[derive(Clone, Copy)]
enum Act {
    Pub(&'static str, u8, bool, &'static str),
    Sub(&'static [(&'static str, u8)]),
    Unsub(&'static [&'static str]),
}
const ACTIONS: [&[Act]; 7] = [
    &[Act::Pub("t2", 0, false, "x0")],
    &[Act::Pub("t1", 1, true, "x1")],
    &[Act::Sub(&[("t1", 1), ("r", 1), ("t2", 0)])],
    &[Act::Unsub(&["t1"])],
    &[Act::Unsub(&["t1"]), Act::Pub("t1", 1, false, "x2"), Act::Sub(&[("t1", 1)]), Act::Pub("t1", 2, false, "x3")],
    &[Act::Sub(&[("t2", 1)]), Act::Pub("t2", 1, true, "x4")],
    &[Act::Pub("t2", 0, true, "")],
];
fn actions(n: usize) -> Vec<HookAction> {
    ACTIONS[n]
        .iter()
        .map(|a| match *a {
            Act::Pub(t, q, retain, p) => HookAction::Publish(PublishAction {
                retain,
                qos: qos(q),
                topic_name: tn(t),
                payload: Bytes::from(p),
                payload_is_utf8: None,
                message_expiry_interval: None,
                content_type: None,
            }),
            Act::Sub(l) => HookAction::Subscribe(SubscribeAction(l.iter().map(|(f, q)| (tf(f), qos(*q))).collect())),
            Act::Unsub(l) => HookAction::Unsubscribe(UnsubscribeAction(l.iter().map(|f| tf(f)).collect())),
        })
        .collect()
}

type Msg = (String, String, u8);

struct S {
    w: World,
    ver: Ver,
    on: On,
    keep: bool,
    conn: Option<usize>,
    other: usize,
    /// the session exists
    session: bool,
    subs: BTreeMap<String, u8>,
    retained: BTreeMap<String, (String, u8)>,
    pid: u16,
    n: u32,
    // expectations of the running step
    calls: Vec<String>,
    acks: Vec<Rx>,
    mine: Vec<Msg>,
    /// routed to the client, which unsubscribed before they reached it
    maybe: Vec<Msg>,
    others: Vec<Msg>,
}

impl S {
    fn new(ver: Ver, keep: bool, on: On) -> Result<S, String> {
        let mut cfg = no_hooks(base_config());
        cfg.hook.enable_before_connect = on.before_connect;
        cfg.hook.enable_after_connect = on.after_connect;
        cfg.hook.enable_publish = on.publish;
        cfg.hook.enable_subscribe = on.subscribe;
        cfg.hook.enable_unsubscribe = on.unsubscribe;
        cfg.hook.enable_after_disconnect = on.after_disconnect;
        let mut w = World::new(cfg);
        let other = w.open(V5);
        w.hook.set(|s| s.only = Some("a".into()));
        w.send_connect(other, &ConnSpec::new("b", V5));
        w.send_sub(other, 1, &[("t1", q(2)), ("t2", q(2))], None);
        w.send_pub(other, &publ("r", 1, 1).retain(), "kept");
        w.quiesce();
        let got = w.recv(other);
        if !matches!(got[..], [Rx::Connack { code: 0, .. }, Rx::Suback(..), Rx::Puback(1, _)]) {
            return Err(format!("the other client is not served: {got:?}"));
        }
        let want = on.before_connect as usize + on.after_connect as usize + 2 * on.subscribe as usize + 2 * on.publish as usize;
        let calls = w.hook.take_calls();
        if calls.len() != want {
            return Err(format!("{on:?}: expected {want} hook calls, observed {calls:?}"));
        }
        let retained = [("r".to_string(), ("kept".to_string(), 1))].into();
        Ok(S {
            w,
            ver,
            on,
            keep,
            conn: None,
            other,
            session: false,
            subs: BTreeMap::new(),
            retained,
            pid: 0,
            n: 0,
            calls: vec![],
            acks: vec![],
            mine: vec![],
            maybe: vec![],
            others: vec![],
        })
    }

    fn publish(&mut self, topic: &str, payload: &str, q: u8, retain: bool) {
        if retain && payload.is_empty() {
            self.retained.remove(topic);
        } else if retain {
            self.retained.insert(topic.into(), (payload.into(), q));
        }
        if topic == "t1" || topic == "t2" {
            self.others.push((topic.into(), payload.into(), q));
        }
        if let Some(s) = self.subs.get(topic)
            && self.session
        {
            self.mine.push((topic.into(), payload.into(), q.min(*s)));
        }
    }
    fn apply(&mut self, n: usize) {
        for a in ACTIONS[n] {
            match *a {
                Act::Pub(t, q, r, p) => self.publish(t, p, q, r),
                Act::Sub(l) => self.subs.extend(l.iter().map(|(f, q)| (f.to_string(), *q))),
                Act::Unsub(l) => l.iter().for_each(|f| {
                    self.subs.remove(*f);
                    self.maybe.extend(self.mine.extract_if(.., |m| m.0 == *f));
                }),
            }
        }
    }
    fn script(&mut self, a: Ans, before: &'static str, after: &'static str) {
        self.w.hook.set(|s| {
            s.gates.clear();
            match a {
                Wait | WaitEof | WaitTakeover => {
                    s.gates.insert(before, 0);
                }
                WaitAfter => {
                    s.gates.insert(after, 0);
                }
                _ => {}
            }
            s.rewrite_topic = (a == Rewrite).then(|| "t2".into());
            s.rewrite_filter = (a == Rewrite).then(|| "t2".into());
            s.rewrite_payload = (a == Payload).then(|| "changed".into());
            let act = match a {
                After(n) => Some(Ok(actions(n))),
                AfterErr => Some(Err(HookError::Internal)),
                _ => None,
            };
            s.after_connect = act.clone();
            s.after_publish = act.clone();
            s.after_subscribe = act.clone();
            s.after_unsubscribe = act;
            s.after_disconnect = (a == AfterErr).then_some(Err(HookError::Internal));
            s.before_connect = None;
            s.before_publish = None;
            s.before_subscribe = None;
            s.before_unsubscribe = None;
            if a == Fails {
                s.before_connect = Some(Err(HookError::Internal));
                s.before_publish = Some(Err(HookError::Internal));
                s.before_subscribe = Some(Err(HookError::Internal));
                s.before_unsubscribe = Some(Err(HookError::Internal));
            }
            if let Refuse(n) = a {
                s.before_connect = CONNECT.get(n).map(|x| Ok(x.0));
                s.before_publish = PUBLISH.get(n).map(|x| Ok(x.0));
                s.before_subscribe = SUBSCRIBE.get(n).map(|x| Ok(x.0));
                s.before_unsubscribe = UNSUBSCRIBE.get(n).map(|x| Ok(x.0));
            }
        });
    }
    /// the connection ends without the client having asked for it
    fn gone(&mut self, taken_over: bool) {
        if self.on.after_disconnect {
            self.calls.push(format!("after_disconnect a {taken_over}"));
        }
        if !self.keep && !taken_over {
            self.session = false;
            self.subs.clear();
        }
        if !taken_over {
            self.conn = None;
        }
    }
    fn spec(&self) -> ConnSpec {
        if self.keep { ConnSpec::persistent("a", self.ver) } else { ConnSpec::new("a", self.ver) }
    }
    /// What the client received, its deliveries apart and acknowledged.
    fn received(&mut self, c: usize) -> (Vec<Rx>, Vec<Msg>) {
        let (mut acks, mut msgs) = (vec![], vec![]);
        loop {
            let got = self.w.recv(c);
            if got.is_empty() {
                return (acks, msgs);
            }
            for r in got {
                match r {
                    Rx::Pub(p) => {
                        if p.qos == 1 {
                            self.w.conns[c].unacked.retain(|u| u.0 != p.pid);
                            self.w.send_ack(c, 4, p.pid, 0);
                        } else if p.qos == 2 {
                            self.w.send_ack(c, 5, p.pid, 0);
                        }
                        msgs.push((p.topic, p.payload, p.qos));
                    }
                    Rx::Pubrel(p, _) => {
                        self.w.conns[c].unacked.retain(|u| u.0 != p);
                        self.w.send_ack(c, 7, p, 0)
                    }
                    r => acks.push(r),
                }
            }
            self.w.quiesce();
        }
    }
    /// Compares everything the step did with what it should have done.
    fn settle(&mut self, c: Option<usize>) -> Result<(), String> {
        self.w.quiesce();
        let mut bad = vec![];
        if let Some(c) = c {
            let (acks, mut msgs) = self.received(c);
            if msgs != self.mine {
                for m in &self.maybe {
                    if let Some(i) = msgs.iter().position(|x| x == m) {
                        msgs.remove(i);
                    }
                }
            }
            let over = self.acks.contains(&Rx::Closed);
            if acks != self.acks {
                bad.push(format!("the client was sent {acks:?}, expected {:?}", self.acks));
            }
            if msgs != self.mine && !over {
                bad.push(format!("the client was delivered {msgs:?}, expected {:?}", self.mine));
            }
            if !self.w.conns[c].wire_errors.is_empty() {
                bad.push(format!("wire contract: {:?}", self.w.conns[c].wire_errors));
            }
        }
        let (acks, msgs) = self.received(self.other);
        if acks.iter().any(|a| !matches!(a, Rx::Puback(_, 0 | 0x10))) {
            bad.push(format!("the other client was sent {acks:?}"));
        }
        if msgs != self.others {
            bad.push(format!("the other client was delivered {msgs:?}, expected {:?}", self.others));
        }
        let calls: Vec<String> = self.w.hook.take_calls().into_iter().filter(|c| c.split(' ').nth(1) == Some("a")).collect();
        if calls != self.calls {
            bad.push(format!("the hook calls were {calls:?}, expected {:?}", self.calls));
        }
        let (all, on) = (self.w.global.clients_count(), self.w.global.online_clients_count());
        let want = (1 + self.session as usize, 1 + self.conn.is_some() as u64);
        if (all, on) != want {
            bad.push(format!("the broker counts {all} sessions, {on} online; expected {want:?}"));
        }
        if let Some(p) = self.w.panicked() {
            bad.push(format!("panic: {p}"));
        }
        self.calls.clear();
        self.acks.clear();
        self.mine.clear();
        self.maybe.clear();
        self.others.clear();
        if bad.is_empty() { Ok(()) } else { Err(bad.join("; ")) }
    }
    /// While the hook is undecided: the client's further packets wait, other
    /// clients do not.
    fn undecided(&mut self, c: usize, calls: usize, follow: Ans, answered: bool) -> Result<(), String> {
        if follow == Wait || follow == WaitAfter {
            self.w.send_ping(c);
        }
        self.n += 1;
        let m = format!("o{}", self.n);
        self.w.send_pub(self.other, &publ("t2", 0, 0), &m);
        self.publish("t2", &m, 0, false);
        self.w.quiesce();
        let got = self.w.recv(c);
        // the answer to the very packet may or may not be out
        let early: Vec<Rx> = got.into_iter().filter(|r| !(answered && self.acks.contains(r)) && !matches!(r, Rx::Pub(_))).collect();
        if !early.is_empty() {
            return Err(format!("the hook has not answered and yet the client was sent {early:?}"));
        }
        let seen = self.w.hook.0.lock().unwrap().calls.iter().filter(|c| c.split(' ').nth(1) == Some("a")).count();
        if seen != calls {
            return Err(format!("{seen} hook calls while the hook is undecided, expected {calls}: {:?}", self.w.hook.take_calls()));
        }
        let x = self.w.recv(self.other);
        if !x.iter().any(|r| matches!(r, Rx::Pub(p) if p.payload == m)) {
            return Err(format!("another client is held up while the hook is undecided: {x:?}"));
        }
        self.others.retain(|x| x.1 != m);
        Ok(())
    }

    fn connect(&mut self, a: Ans, takeover: bool) -> Result<(), String> {
        let old = self.conn;
        self.script(a, "before_connect", "after_connect");
        let c = self.w.open(self.ver);
        let spec = self.spec();
        self.w.send_connect(c, &spec);
        self.w.quiesce();
        let present = self.session && self.keep;
        let v5 = self.ver.is_v5();
        let mut calls = 0;
        if self.on.before_connect {
            self.calls.push(format!("before_connect a 127.0.0.1:{}", 10000 + c));
            calls += 1;
            if a == Wait {
                self.undecided(c, calls, a, false)?;
                self.w.hook.release("before_connect");
                self.w.quiesce();
            }
            if let Refuse(n) = a {
                self.acks.push(Rx::Connack { sp: false, code: if v5 { CONNECT[n].1 } else { CONNECT[n].2 } });
                self.acks.push(Rx::Closed);
                return self.settle(Some(c));
            }
            if a == Fails {
                self.acks.push(Rx::Closed);
                return self.settle(Some(c));
            }
        }
        if let (Some(o), true) = (old, takeover) {
            let (acks, _) = self.received(o);
            if acks.last() != Some(&Rx::Closed) {
                return Err(format!("the replaced connection is not closed: {acks:?}"));
            }
            self.gone(true);
            if !self.keep {
                self.subs.clear();
            }
        }
        self.conn = Some(c);
        self.session = true;
        self.acks.push(Rx::Connack { sp: present, code: 0 });
        if !present {
            self.subs.clear();
        }
        if self.on.after_connect {
            let mine: Vec<String> =
                self.w.hook.0.lock().unwrap().calls.iter().filter(|c| c.split(' ').nth(1) == Some("a")).cloned().collect();
            // the old connection's end and the new one's hook are concurrent
            let call = format!("after_connect a {present}");
            match mine.iter().position(|c| *c == call) {
                Some(i) if i < self.calls.len() => self.calls.insert(i, call),
                _ => self.calls.push(call),
            }
            match a {
                After(n) => self.apply(n),
                WaitAfter => {
                    let n = self.calls.len();
                    self.undecided(c, n, a, true)?;
                    self.w.hook.release("after_connect");
                    self.w.quiesce();
                }
                AfterErr => {
                    self.acks.push(Rx::Closed);
                    let (s, d) = (self.on.after_disconnect, self.keep);
                    // the connection never came to run: whether its end is
                    // reported is left open
                    let _ = (s, d);
                    self.on.after_disconnect = false;
                    self.gone(false);
                    self.on.after_disconnect = s;
                    self.w.hook.set(|x| x.calls.retain(|c| !c.starts_with("after_disconnect a false")));
                }
                _ => {}
            }
        }
        let waited = (a == Wait && self.on.before_connect) || (a == WaitAfter && self.on.after_connect);
        if waited {
            self.acks.push(Rx::Pingresp);
            // what was received while waiting
            let (acks, msgs) = self.received(c);
            let rest: Vec<Rx> = self.acks.iter().filter(|x| !matches!(x, Rx::Connack { .. }) || acks.contains(x)).cloned().collect();
            let _ = msgs;
            if acks != rest {
                return Err(format!("after the hook's answer the client was sent {acks:?}, expected {:?}", self.acks));
            }
            self.acks.clear();
            self.mine.clear();
            return self.settle(Some(c));
        }
        self.settle(Some(c))
    }

    /// A packet of the client that has a before and an after hook.
    #[allow(clippy::too_many_arguments)]
    fn packet(
        &mut self,
        a: Ans,
        on: bool,
        names: (&'static str, &'static str),
        bytes: Vec<u8>,
        before: String,
        refusal: Option<Rx>,
        ok: impl FnOnce(&mut S) -> (Vec<Rx>, String),
    ) -> Result<(), String> {
        let c = self.conn.unwrap();
        let v5 = self.ver.is_v5();
        self.script(a, names.0, names.1);
        self.w.send(c, &bytes);
        self.w.quiesce();
        if !on {
            let (acks, _) = ok(self);
            self.acks.extend(acks);
            return self.settle(Some(c));
        }
        let body = raw(bytes.len(), &bytes[2..]);
        self.calls.push(format!("{} a {before} {body}", names.0));
        let mut early = vec![];
        match a {
            Wait => {
                self.undecided(c, 1, a, false)?;
                early = std::mem::take(&mut self.mine);
                self.w.hook.release(names.0);
            }
            WaitEof => {
                self.w.eof(c);
                self.undecided(c, 1, a, false)?;
                self.w.hook.release(names.0);
            }
            WaitTakeover => {
                self.w.hook.set(|s| {
                    s.gates.clear();
                    s.gates.insert(names.0, 0);
                });
                let k = self.w.open(self.ver);
                let spec = self.spec();
                self.w.send_connect(k, &spec);
                self.w.quiesce();
                let n = self.calls.len() + self.on.before_connect as usize;
                self.undecided(c, n, a, false)?;
                let got = self.w.recv(k);
                if !got.is_empty() {
                    return Err(format!("the session is handed over while its hook is undecided: {got:?}"));
                }
                // the effects of the packet, then the take-over
                self.w.hook.release(names.0);
                let (_, after) = ok(self);
                if self.on.before_connect {
                    self.calls.push(format!("before_connect a 127.0.0.1:{}", 10000 + k));
                }
                self.calls.push(format!("{} a {after} {body}", names.1));
                self.w.quiesce();
                let (acks, _) = self.received(c);
                if acks.last() != Some(&Rx::Closed) {
                    return Err(format!("the replaced connection is not closed: {acks:?}"));
                }
                let n = self.calls.len();
                self.gone(true);
                if self.on.after_connect {
                    let call = format!("after_connect a {}", self.keep);
                    let i = self.w.hook.0.lock().unwrap().calls.iter().filter(|c| c.split(' ').nth(1) == Some("a")).position(|c| *c == call);
                    match i {
                        Some(i) if i == n => self.calls.insert(n, call),
                        _ => self.calls.push(call),
                    }
                }
                if !self.keep {
                    self.subs.clear();
                }
                self.conn = Some(k);
                self.mine.clear();
                let (acks, _) = self.received(k);
                if acks != [Rx::Connack { sp: self.keep, code: 0 }] {
                    return Err(format!("the new connection was sent {acks:?}"));
                }
                return self.settle(Some(k));
            }
            Refuse(_) if v5 => {
                self.acks.extend(refusal);
                return self.settle(Some(c));
            }
            Refuse(_) | Fails => {
                self.acks.push(Rx::Closed);
                self.gone(false);
                return self.settle(Some(c));
            }
            _ => {}
        }
        let (acks, after) = ok(self);
        self.calls.push(format!("{} a {after} {body}", names.1));
        match a {
            After(n) => {
                self.acks.extend(acks);
                self.apply(n)
            }
            AfterErr => {
                // the packet itself took effect; its answer may be lost
                self.gone(false);
                self.w.quiesce();
                let (got, _) = self.received(c);
                let without: Vec<Rx> = got.iter().filter(|r| !acks.contains(r)).cloned().collect();
                if without != [Rx::Closed] {
                    return Err(format!("the hook failed and the client was sent {got:?}"));
                }
                return self.settle(None);
            }
            Wait => {
                self.acks.extend(acks);
                self.acks.push(Rx::Pingresp);
                // deliveries held back while waiting come with the others
                let mut m = early;
                m.append(&mut self.mine);
                self.w.quiesce();
                let (got, mut msgs) = self.received(c);
                if got != self.acks {
                    return Err(format!("after the hook's answer the client was sent {got:?}, expected {:?}", self.acks));
                }
                msgs.sort();
                m.sort();
                // a delivery routed before the client unsubscribed may go either way
                if msgs != m && names.0 != "before_unsubscribe" && names.0 != "before_subscribe" {
                    return Err(format!("after the hook's answer the client was delivered {msgs:?}, expected {m:?}"));
                }
                self.acks.clear();
                self.mine.clear();
                return self.settle(Some(c));
            }
            WaitAfter => {
                self.acks.extend(acks.clone());
                self.undecided(c, 2, a, true)?;
                self.w.hook.release(names.1);
                self.w.quiesce();
                let (got, _) = self.received(c);
                let rest: Vec<Rx> = acks.into_iter().filter(|x| got.contains(x)).chain([Rx::Pingresp]).collect();
                if got != rest {
                    return Err(format!("after the hook's answer the client was sent {got:?}, expected {rest:?}"));
                }
                self.acks.clear();
                self.mine.clear();
                return self.settle(Some(c));
            }
            WaitEof => {
                self.gone(false);
                self.w.quiesce();
                let (got, _) = self.received(c);
                if got.last() != Some(&Rx::Closed) {
                    return Err(format!("the connection is not closed: {got:?}"));
                }
                return self.settle(None);
            }
            _ => self.acks.extend(acks),
        }
        self.settle(Some(c))
    }

    fn step(&mut self, k: K) -> Result<bool, String> {
        let live = self.conn.is_some();
        let v5 = self.ver.is_v5();
        match k {
            K::Connect(_) if live => return Ok(false),
            K::Connect(_) | K::Other(_) => {}
            _ if !live => return Ok(false),
            _ => {}
        }
        // a session that is kept collects what is published while its
        // connection fails: not part of this model
        let fails = |a: Ans| matches!(a, AfterErr | WaitEof | WaitTakeover) || (!v5 && matches!(a, Refuse(_))) || a == Fails;
        match k {
            K::Connect(a) => self.connect(a, false)?,
            K::Takeover(a) => self.connect(a, true)?,
            K::Pub(q, a) => {
                if fails(a) && self.keep && !self.subs.is_empty() {
                    return Ok(false);
                }
                self.pid += 1;
                self.n += 1;
                let (p, m) = (self.pid, format!("m{}", self.n));
                let op = publ("t1", q, p);
                let bytes = if v5 {
                    mqtt_proto::v5::Packet::from(pub_v5(&op, &m)).encode().unwrap().as_ref().to_vec()
                } else {
                    mqtt_proto::v3::Packet::from(pub_v3(&op, &m)).encode().unwrap().as_ref().to_vec()
                };
                let refusal = match (a, q) {
                    (Refuse(n), 1) => Some(Rx::Puback(p, PUBLISH[n].1)),
                    (Refuse(n), 2) => Some(Rx::Pubrec(p, PUBLISH[n].1)),
                    _ => None,
                };
                let on = self.on.publish;
                let (t, pl) = match a {
                    Rewrite if on => ("t2", m.clone()),
                    Payload if on => ("t1", "changed".to_string()),
                    _ => ("t1", m.clone()),
                };
                let changed = on && (a == Rewrite || a == Payload);
                self.packet(a, on, ("before_publish", "after_publish"), bytes, format!("t1 {:?}", Bytes::from(m)), refusal, |s| {
                    s.publish(t, &pl, q, false);
                    let acks = match q {
                        0 => vec![],
                        1 => vec![Rx::Puback(p, 0)],
                        _ => vec![Rx::Pubrec(p, 0)],
                    };
                    (acks, format!("{t} {:?} {changed}", Bytes::from(pl.clone())))
                })?;
                if let Some(c) = self.conn
                    && q == 2
                    && a != WaitTakeover
                {
                    // what was refused is unknown, what was accepted completes
                    let refused = on && matches!(a, Refuse(_));
                    self.w.send_ack(c, 6, p, 0);
                    self.acks.push(Rx::Pubcomp(p, if refused { 0x92 } else { 0 }));
                    self.settle(Some(c))?;
                }
            }
            K::Sub(a) | K::Sub2(a) => {
                if fails(a) && self.keep && (!self.subs.is_empty() || a == WaitTakeover || a == WaitEof) {
                    return Ok(false);
                }
                self.pid += 1;
                let p = self.pid;
                let fs: Vec<(&str, u8)> = if matches!(k, K::Sub(_)) { vec![("t1", 1)] } else { vec![("t1", 0), ("r", 1)] };
                let bytes = if v5 {
                    let s = mqtt_proto::v5::Subscribe::new(pid(p), fs.iter().map(|(f, n)| (tf(f), sub_opts(&q(*n)))).collect());
                    mqtt_proto::v5::Packet::from(s).encode().unwrap().as_ref().to_vec()
                } else {
                    let s = mqtt_proto::v3::Subscribe::new(pid(p), fs.iter().map(|(f, n)| (tf(f), qos(*n))).collect());
                    mqtt_proto::v3::Packet::from(s).encode().unwrap().as_ref().to_vec()
                };
                let refusal = if let Refuse(n) = a { Some(Rx::Suback(p, vec![SUBSCRIBE[n].1; fs.len()])) } else { None };
                let on = self.on.subscribe;
                let mut used = fs.clone();
                if a == Rewrite && on {
                    used[0].0 = "t2";
                }
                let names: Vec<&str> = fs.iter().map(|f| f.0).collect();
                self.packet(a, on, ("before_subscribe", "after_subscribe"), bytes, format!("{names:?}"), refusal, |s| {
                    let codes: Vec<u8> = used.iter().map(|u| u.1).collect();
                    for (f, q) in &used {
                        s.subs.insert(f.to_string(), *q);
                        if let Some((m, mq)) = s.retained.get(*f).cloned() {
                            s.mine.push((f.to_string(), m, mq.min(*q)));
                        }
                    }
                    let names: Vec<&str> = used.iter().map(|f| f.0).collect();
                    (vec![Rx::Suback(p, codes.clone())], format!("{names:?} {} {:?}", on && a == Rewrite, Some(codes)))
                })?;
            }
            K::Unsub(a) | K::Unsub2(a) => {
                if fails(a) && self.keep && !self.subs.is_empty() {
                    return Ok(false);
                }
                self.pid += 1;
                let p = self.pid;
                let fs: &[&str] = if matches!(k, K::Unsub(_)) { &["t1"] } else { &["t1", "r"] };
                let filters = fs.iter().map(|f| tf(f)).collect();
                let bytes = if v5 {
                    let s = mqtt_proto::v5::Unsubscribe::new(pid(p), filters);
                    mqtt_proto::v5::Packet::from(s).encode().unwrap().as_ref().to_vec()
                } else {
                    let s = mqtt_proto::v3::Unsubscribe::new(pid(p), filters);
                    mqtt_proto::v3::Packet::from(s).encode().unwrap().as_ref().to_vec()
                };
                let refusal = if let Refuse(n) = a { Some(Rx::Unsuback(p, vec![UNSUBSCRIBE[n].1; fs.len()])) } else { None };
                let on = self.on.unsubscribe;
                let mut used = fs.to_vec();
                if a == Rewrite && on {
                    used[0] = "t2";
                }
                self.packet(a, on, ("before_unsubscribe", "after_unsubscribe"), bytes, format!("{fs:?}"), refusal, |s| {
                    let codes: Vec<u8> = used.iter().map(|f| if s.subs.remove(*f).is_some() { 0 } else { 0x11 }).collect();
                    (vec![Rx::Unsuback(p, if v5 { codes } else { vec![] })], format!("{used:?} {}", on && a == Rewrite))
                })?;
            }
            K::Eof(a) | K::Disconnect(a) => {
                let c = self.conn.unwrap();
                self.script(a, "after_disconnect", "after_disconnect");
                if matches!(k, K::Eof(_)) {
                    self.w.eof(c);
                } else {
                    self.w.send_disconnect(c, 0, None);
                }
                self.w.quiesce();
                if a == Wait && self.on.after_disconnect {
                    if self.keep && self.subs.contains_key("t2") {
                        return Ok(false);
                    }
                    self.n += 1;
                    let m = format!("o{}", self.n);
                    self.w.send_pub(self.other, &publ("t2", 0, 0), &m);
                    self.others.push(("t2".into(), m, 0));
                    self.w.quiesce();
                    self.w.hook.release("after_disconnect");
                }
                self.gone(false);
                self.acks.push(Rx::Closed);
                self.settle(Some(c))?;
            }
            K::Other(t) => {
                if !live && self.subs.contains_key(t) {
                    return Ok(false);
                }
                self.n += 1;
                let m = format!("o{}", self.n);
                self.pid += 1;
                self.script(Allow, "", "");
                self.w.send_pub(self.other, &publ(t, 2, self.pid), &m);
                self.w.send_ack(self.other, 6, self.pid, 0);
                self.publish(t, &m, 2, false);
                self.w.quiesce();
                let calls = self.w.hook.0.lock().unwrap().calls.len();
                if calls != 2 * self.on.publish as usize {
                    return Err(format!("{calls} hook calls for a PUBLISH of the other client"));
                }
                let got = self.w.recv(self.other);
                self.absorb(got);
                self.w.quiesce();
                self.settle(self.conn)?;
            }
        }
        Ok(true)
    }
    /// the other client's own handshake and deliveries
    fn absorb(&mut self, got: Vec<Rx>) {
        for r in got {
            match r {
                Rx::Pub(p) => {
                    if p.qos == 2 {
                        self.w.send_ack(self.other, 5, p.pid, 0);
                    } else if p.qos == 1 {
                        self.w.send_ack(self.other, 4, p.pid, 0);
                    }
                    if let Some(i) = self.others.iter().position(|m| (&m.0, &m.1, m.2) == (&p.topic, &p.payload, p.qos)) {
                        self.others.remove(i);
                    } else {
                        self.others.insert(0, ("unexpected".into(), p.payload, p.qos));
                    }
                }
                _ => {}
            }
        }
    }
    /// In the end the retained messages and the client's service are as the
    /// model says.
    fn finish(&mut self) -> Result<(), String> {
        self.script(Allow, "", "");
        let p = self.w.open(V5);
        self.w.send_connect(p, &ConnSpec::new("probe", V5));
        self.w.send_sub(p, 1, &[("t1", q(2)), ("t2", q(2)), ("r", q(2))], None);
        self.w.quiesce();
        let (_, mut got) = self.received(p);
        got.sort();
        let mut want: Vec<Msg> = self.retained.iter().map(|(t, (m, q))| (t.clone(), m.clone(), *q)).collect();
        want.sort();
        if got != want {
            return Err(format!("retained messages {got:?}, expected {want:?}"));
        }
        Ok(())
    }
}

fn run_one(c: &Check, ver: Ver, keep: bool, on: On, prefix: &[K], ops: &[K], log: bool) -> Result<Option<usize>, (usize, String)> {
    let mut s = S::new(ver, keep, on).map_err(|e| (0, e))?;
    for (j, k) in prefix.iter().chain(ops).enumerate() {
        let i = j.saturating_sub(prefix.len());
        match s.step(*k) {
            Ok(true) => {}
            Ok(false) => return Ok(Some(i)),
            Err(e) => return Err((i, format!("{ver:?}, session kept {keep}, {on:?}: {k:?}: {e}"))),
        }
        if log {
            println!("  {k:?}: subscriptions {:?}", s.subs);
        }
    }
    s.finish().map_err(|e| (ops.len() - 1, format!("{ver:?}, session kept {keep}: at the end: {e}")))?;
    c.state(&format!("{:?} {:?} {} {}", s.subs, s.retained, s.session, s.conn.is_some()));
    Ok(None)
}

/// A message a hook publishes carries the properties the hook gave it.
fn properties(c: &Arc<Check>) {
    let n = 3 * 2 * 2 * 2 * 3 * 2 * 2;
    let split = |i: usize| {
        let (q, i) = (i % 3, i / 3);
        let (retain, i) = (i % 2 == 1, i / 2);
        let (expiry, i) = ([None, Some(7)][i % 2], i / 2);
        let (text, i) = ([None, Some("text/plain")][i % 2], i / 2);
        let (utf8, i) = ([None, Some(true), Some(false)][i % 3], i / 3);
        (q as u8, retain, expiry, text, utf8, i % 2 == 1, i / 2 == 1)
    };
    let show = |i: usize| {
        let (q, r, e, t, u, connect, v3) = split(i);
        format!("QoS {q}, retain {r}, expiry {e:?}, content type {t:?}, payload is UTF-8 {u:?}, after connect {connect}, v3.1.1 {v3}")
    };
    c.explore_product("properties of published actions", "QoS x retain x expiry x content type x payload format x stage x version", n, show, |i| {
        let (q, retain, expiry, text, utf8, connect, v3) = split(i);
        let mut s = S::new(if v3 { V311 } else { V5 }, false, On::bits(63))?;
        let act = vec![HookAction::Publish(PublishAction {
            retain,
            qos: qos(q),
            topic_name: tn("t1"),
            payload: Bytes::from("p"),
            payload_is_utf8: utf8,
            message_expiry_interval: expiry,
            content_type: text.map(Arc::from),
        })];
        s.w.hook.set(|h| if connect { h.after_connect = Some(Ok(act)) } else { h.after_subscribe = Some(Ok(act)) });
        let a = s.w.open(s.ver);
        let spec = s.spec();
        s.w.send_connect(a, &spec);
        s.w.send_sub(a, 1, &[("else", crate::model::q(0))], None);
        s.w.quiesce();
        let got = s.w.recv(s.other);
        let [Rx::Pub(p)] = &got[..] else { return Err(format!("the other client was sent {got:?}, expected the message")) };
        let want = mqtt_proto::v5::PublishProperties {
            payload_is_utf8: utf8,
            content_type: text.map(Arc::from),
            ..Default::default()
        };
        // a v3.x client's hook has no properties to send
        let (rest, exp) = if v3 { (p.rest.clone(), p.expiry) } else { (render_props(&want), expiry) };
        if (p.topic.as_str(), p.payload.as_str(), p.qos, p.dup) != ("t1", "p", q, false) || p.rest != rest || p.expiry != exp {
            return Err(format!("the other client was sent {p:?}"));
        }
        match s.w.panicked() {
            Some(p) => Err(format!("panic: {p}")),
            None => Ok(()),
        }
    });
}

fn alphabet(small: bool) -> Vec<K> {
    let acts = if small { vec![0, 2, 4] } else { (0..ACTIONS.len()).collect() };
    let refs = |n: usize| if small { vec![n - 1] } else { (0..n).collect() };
    let mut a = vec![K::Other("t1"), K::Other("t2")];
    let common = |f: &dyn Fn(Ans) -> K, n: usize, a: &mut Vec<K>| {
        a.push(f(Allow));
        a.extend(refs(n).into_iter().map(|i| f(Refuse(i))));
        a.extend([Fails, AfterErr, Wait, WaitAfter].map(f));
        a.extend(acts.iter().map(|i| f(After(*i))));
    };
    common(&K::Connect, CONNECT.len(), &mut a);
    a.push(K::Takeover(Allow));
    if !small {
        a.extend([Refuse(3), Fails, AfterErr, WaitAfter, After(4)].map(K::Takeover));
    }
    for q in if small { vec![1] } else { vec![0, 1, 2] } {
        common(&|x| K::Pub(q, x), PUBLISH.len(), &mut a);
        a.extend([Rewrite, Payload, WaitEof, WaitTakeover].map(|x| K::Pub(q, x)));
    }
    common(&K::Sub, SUBSCRIBE.len(), &mut a);
    a.extend([Rewrite, WaitEof, WaitTakeover].map(K::Sub));
    a.extend([Allow, Rewrite, Refuse(2)].map(K::Sub2));
    common(&K::Unsub, UNSUBSCRIBE.len(), &mut a);
    a.extend([Rewrite, WaitEof, WaitTakeover].map(K::Unsub));
    a.extend([Allow, Rewrite, Refuse(1)].map(K::Unsub2));
    a.extend([Allow, AfterErr, Wait].map(K::Eof));
    a.extend([Allow, AfterErr].map(K::Disconnect));
    a
}

pub fn run(c: &Arc<Check>) {
    properties(c);
    let all = On::bits(63);
    for ver in [V5, V311, V310] {
        for keep in [false, true] {
            let tree = |name: &str, prefix: &[K], small: bool, depth: usize| {
                c.explore_tree(
                    &format!("{ver:?}, session kept {keep}, {name}"),
                    &alphabet(small),
                    depth,
                    |k| format!("{k:?}"),
                    |ops, log| run_one(c, ver, keep, all, prefix, ops, log),
                );
            };
            tree("from nothing", &[], false, c.pick(2, 3));
            tree("connected", &[K::Connect(Allow)], false, c.pick(2, 3));
            tree("connected, fewer answers", &[K::Connect(Allow)], true, c.pick(3, 4));
            tree("subscribed", &[K::Connect(Allow), K::Sub(Allow)], false, 2);
        }
    }
    // every combination of enabled hooks
    for n in 0..64 {
        for ver in [V5, V311] {
            c.explore_tree(
                &format!("{ver:?}, enabled hooks {n:06b}"),
                &alphabet(true),
                2,
                |k| format!("{k:?}"),
                |ops, log| run_one(c, ver, true, On::bits(n), &[], ops, log),
            );
            c.explore_tree(
                &format!("{ver:?}, enabled hooks {n:06b}, connected"),
                &alphabet(true),
                c.pick(1, 2),
                |k| format!("{k:?}"),
                |ops, log| run_one(c, ver, true, On::bits(n), &[K::Connect(Allow)], ops, log),
            );
        }
    }
}
