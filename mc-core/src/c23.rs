//! MQTT over WebSocket: the packets are what the binary messages say, in
//! whatever frames they come; everything else is answered or ends the
//! connection as RFC 6455 and section 6 of the MQTT specification demand.
use std::sync::Arc;

use mc_engine::Check;

use crate::c22::digits;
use crate::model::*;
use crate::sim::*;
use crate::wire::{Codec, frame};
use crate::world::Ver::{self, *};
use crate::world::*;

/// How much of the client's MQTT stream the next frame carries.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Part {
    Nothing,
    Bytes5,
    ToEnd,
    Two,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    /// data: (first frame of a message, last frame of it)
    Data(Part, bool, bool),
    Ping(usize),
    Pong,
    Text,
    TextStart,
    Close(Option<u16>),
    CloseBad,
    Unmasked,
    Rsv,
    BigPing,
    PartPing,
    Opcode(u8),
    Disconnect,
    Eof,
    Reset,
    /// the other client publishes to this one
    Inbound,
}
use Act::*;

struct Scene {
    w: World,
    a: usize,
    b: usize,
    ver: Ver,
    /// the MQTT stream: next packet number and bytes of it still unsent
    next: u16,
    unsent: Vec<u8>,
    /// bytes of an unfinished message
    open: Option<Vec<u8>>,
    /// MQTT bytes in complete messages, not yet a complete packet
    stream: Vec<u8>,
    inbound: u32,
    /// what must have been observed
    acks: Vec<Rx>,
    seen_b: Vec<String>,
    pings: Vec<Vec<u8>>,
    got_a: Vec<Rx>,
    got_b: Vec<String>,
    others_seen: usize,
    ended: Option<Act>,
}
impl Scene {
    fn new(ver: Ver, tls: bool) -> Result<Scene, String> {
        let mut w = World::new(no_hooks(base_config()));
        let a = w.open_stack(ver, tls, true);
        let will = WillSpec { topic: "will", payload: "will", qos: 0, retain: false, delay: 0, expiry: None };
        w.send_connect(a, &ConnSpec::new("a-client", ver).will(will));
        w.send_sub(a, 9, &[("u", q(0))], None);
        w.quiesce();
        let b = w.open(V5);
        w.send_connect(b, &ConnSpec::new("b", V5));
        w.send_sub(b, 1, &[("t", q(0)), ("will", q(0))], None);
        w.quiesce();
        let got = w.recv(a);
        w.recv(b);
        if !matches!(got[..], [Rx::Connack { code: 0, .. }, Rx::Suback(..)]) {
            return Err(format!("set-up: {got:?}"));
        }
        w.conns[a].polite = false;
        Ok(Scene { w, a, b, ver, next: 0, unsent: vec![], open: None, stream: vec![], inbound: 0, acks: vec![], seen_b: vec![], pings: vec![], got_a: vec![], got_b: vec![], others_seen: 0, ended: None })
    }
    fn fill(&mut self) {
        if self.unsent.is_empty() {
            self.next += 1;
            let p = publ("t", 1, self.next);
            let text = format!("m{}", self.next);
            let b = if self.ver.is_v5() {
                mqtt_proto::v5::Packet::from(pub_v5(&p, &text)).encode().unwrap()
            } else {
                mqtt_proto::v3::Packet::from(pub_v3(&p, &text)).encode().unwrap()
            };
            self.unsent = b.as_slice().to_vec();
        }
    }
    fn take(&mut self, p: Part) -> Vec<u8> {
        match p {
            Part::Nothing => vec![],
            Part::Bytes5 => {
                self.fill();
                let n = self.unsent.len().min(5);
                self.unsent.drain(..n).collect()
            }
            Part::ToEnd => {
                self.fill();
                std::mem::take(&mut self.unsent)
            }
            Part::Two => [self.take(Part::ToEnd), self.take(Part::ToEnd)].concat(),
        }
    }
    fn tell(&mut self, bytes: &[u8]) {
        self.stream.extend(bytes);
        while self.stream.len() >= 2 && self.stream.len() >= 2 + self.stream[1] as usize {
            let n = 2 + self.stream[1] as usize;
            let p: Vec<u8> = self.stream.drain(..n).collect();
            let i = self.acks.len() as u16 + 1;
            debug_assert_eq!(p[0] >> 4, 3);
            self.acks.push(Rx::Puback(i, 0));
            self.seen_b.push(format!("m{i}"));
        }
    }
    fn put(&mut self, f: Vec<u8>) {
        let b = self.w.conns[self.a].codec.as_mut().unwrap().seal(&f);
        self.w.send_raw(self.a, &b);
    }
    /// Send; false if the operation makes no sense here.
    fn act(&mut self, op: &Act) -> bool {
        if self.ended.is_some() {
            return false;
        }
        let end = match *op {
            Data(p, first, last) => {
                let bytes = self.take(p);
                let legal = first == self.open.is_none();
                self.put(frame(if first { 2 } else { 0 } | if last { 0x80 } else { 0 }, true, &bytes));
                if legal {
                    let mut m = self.open.take().unwrap_or_default();
                    m.extend(bytes);
                    if last {
                        self.tell(&m);
                    } else {
                        self.open = Some(m);
                    }
                }
                !legal
            }
            Ping(n) => {
                // told apart by their first byte
                let mut d = vec![b'p'; n];
                if n > 0 {
                    d[0] = self.pings.len() as u8;
                }
                self.put(frame(0x89, true, &d));
                self.pings.push(d);
                false
            }
            Pong => {
                self.put(frame(0x8a, true, b"x"));
                false
            }
            Text => {
                let b = self.take(Part::ToEnd);
                self.put(frame(0x81, true, &b));
                true
            }
            TextStart => {
                self.put(frame(0x01, true, b"x"));
                self.put(frame(0x80, true, b"y"));
                true
            }
            Close(None) => {
                self.put(frame(0x88, true, &[]));
                true
            }
            Close(Some(c)) => {
                self.put(frame(0x88, true, &[&c.to_be_bytes()[..], b"bye"].concat()));
                true
            }
            CloseBad => {
                self.put(frame(0x88, true, &[3]));
                true
            }
            Unmasked => {
                let b = self.take(Part::ToEnd);
                self.put(frame(if self.open.is_some() { 0x80 } else { 0x82 }, false, &b));
                true
            }
            Rsv => {
                let b = self.take(Part::ToEnd);
                self.put(frame(if self.open.is_some() { 0xc0 } else { 0xc2 }, true, &b));
                true
            }
            BigPing => {
                self.put(frame(0x89, true, &[b'p'; 126]));
                true
            }
            PartPing => {
                self.put(frame(0x09, true, b"p"));
                true
            }
            Opcode(o) => {
                self.put(frame(0x80 | o, true, b"p"));
                true
            }
            Disconnect => {
                if !self.unsent.is_empty() || !self.stream.is_empty() || self.open.is_some() {
                    return false;
                }
                self.put(frame(0x82, true, if self.ver.is_v5() { &[0xe0, 0][..] } else { &[0xe0, 0] }));
                true
            }
            Eof => {
                self.w.eof(self.a);
                true
            }
            Reset => {
                self.w.reset(self.a);
                true
            }
            Inbound => {
                self.inbound += 1;
                let t = format!("i{}", self.inbound);
                self.w.send_pub(self.b, &publ("u", 0, 0), &t);
                false
            }
        };
        if end {
            self.ended = Some(*op);
        }
        true
    }
    fn collect(&mut self) {
        self.got_a.extend(self.w.recv(self.a));
        for r in self.w.recv(self.b) {
            self.got_b.push(match r {
                Rx::Pub(p) => p.payload,
                r => format!("{r:?}"),
            });
        }
    }
    /// Everything expected so far has been observed, and nothing else.
    /// `exact`: every operation was answered before the next.
    fn judge(&mut self, exact: bool) -> Result<(), String> {
        self.w.quiesce();
        self.collect();
        if self.ended.is_some() {
            // let the server finish its part, then ours
            self.w.conns[self.a].polite = true;
            self.w.advance(1500);
            self.w.eof(self.a);
            self.w.advance(1500);
            self.collect();
        }
        if let Some(p) = self.w.panicked() {
            return Err(format!("panic: {p}"));
        }
        if let Some(e) = self.w.conns[self.a].wire_errors.first() {
            return Err(format!("the server broke the WebSocket protocol: {e}"));
        }
        let ponged = self.w.conns[self.a].codec.as_ref().unwrap().others.clone();
        let alive = self.w.alive(self.a);
        let (mut deliveries, acks): (Vec<Rx>, Vec<Rx>) = self.got_a.iter().cloned().partition(|r| matches!(r, Rx::Pub(_)));
        let acks: Vec<Rx> = acks.into_iter().filter(|r| !matches!(r, Rx::Closed | Rx::Disconnect(_))).collect();
        let inb: Vec<String> = deliveries.drain(..).map(|r| match r { Rx::Pub(p) => p.payload, _ => String::new() }).collect();
        let want_in: Vec<String> = (1..=self.inbound).map(|i| format!("i{i}")).collect();
        let mut want_b = self.seen_b.clone();
        // a Pong nobody asked for may be tolerated or not
        let tolerated = self.ended.is_none() && alive;
        match self.ended {
            None => {}
            Some(Disconnect) => {}
            Some(_) => want_b.push("will".into()),
        }
        let state = || format!("\n     observed: acknowledgements {acks:?}, deliveries {inb:?}, forwarded {:?}, control frames {ponged:?}, alive {alive}\n     expected: {:?}, {want_in:?}, {want_b:?}, pings {:?}, ended {:?}", self.got_b, self.acks, self.pings, self.ended);
        if self.ended.is_none() != alive {
            return Err(format!("the connection {} be open{}", if alive { "should not" } else { "should" }, state()));
        }
        let pre = |g: &[Rx], w: &[Rx]| w.starts_with(g);
        let brutal = matches!(self.ended, Some(Reset | Eof));
        let orderly = matches!(self.ended, None | Some(Disconnect | Close(_)));
        if tolerated || exact && !brutal {
            if acks != self.acks || inb != want_in {
                return Err(format!("the client did not receive what it must{}", state()));
            }
        } else if !pre(&acks, &self.acks) || !want_in.starts_with(&inb) {
            return Err(format!("the client received something it must not{}", state()));
        }
        if exact || orderly || self.ended == Some(Eof) {
            if self.got_b != want_b {
                return Err(format!("the other client did not receive what it must{}", state()));
            }
        } else {
            let will = self.got_b.last().map(|s| s.as_str()) == Some("will");
            let n = self.got_b.len() - will as usize;
            if !will || !self.seen_b.starts_with(&self.got_b[..n]) {
                return Err(format!("the other client did not receive what it must{}", state()));
            }
        }
        // pongs: those of the pings, in order, the last one answered
        let mut pongs: Vec<Vec<u8>> = ponged.iter().filter(|o| o.0 == 10).map(|o| o.1.clone()).collect();
        pongs.dedup();
        let mut asked = self.pings.clone();
        asked.dedup();
        let mut it = asked.iter();
        let subseq = pongs.iter().all(|p| it.any(|a| a == p));
        if !subseq || (exact || tolerated) && !brutal && pongs.last() != asked.last() || exact && !brutal && pongs != asked {
            return Err(format!("pings are not answered as they must{}", state()));
        }
        // a Close that meets a blocked transport need not be answered
        let closes = ponged.iter().filter(|o| o.0 == 8).count();
        if closes > 1 || self.ended.is_none() && closes > 0 || closes != 1 && (self.ended == Some(Disconnect) || exact && matches!(self.ended, Some(Close(_)))) {
            return Err(format!("{closes} Close frames{}", state()));
        }
        if ponged.iter().any(|o| o.0 == 9) {
            return Err(format!("the server pings, which nothing asked for{}", state()));
        }
        Ok(())
    }
}

pub fn run(c: &Arc<Check>) {
    let mut alphabet: Vec<Act> = vec![];
    for p in [Part::ToEnd, Part::Bytes5, Part::Two, Part::Nothing] {
        for (f, l) in [(true, true), (true, false), (false, true), (false, false)] {
            alphabet.push(Data(p, f, l));
        }
    }
    alphabet.extend([Ping(3), Ping(0), Ping(125), Inbound, Text, TextStart, Close(None), Close(Some(1000)), Close(Some(4000)), CloseBad, Unmasked, Rsv, BigPing, PartPing, Opcode(3), Opcode(11), Disconnect, Eof, Reset]);
    for (ver, tls, deep) in [(V5, false, c.pick(3, 4)), (V311, false, c.pick(3, 4)), (V5, true, c.pick(2, 3)), (V310, true, c.pick(2, 3))] {
        for burst in [false, true] {
            let name = format!("frames {ver:?}{}{}", if tls { " over TLS" } else { "" }, if burst { ", in one go" } else { "" });
            c.explore_tree(&name, &alphabet, deep, |o| format!("{o:?}"), |ops, _| {
                let mut s = Scene::new(ver, tls).map_err(|e| (0, e))?;
                for (i, op) in ops.iter().enumerate() {
                    if !s.act(op) {
                        return Ok(Some(i));
                    }
                    if !burst {
                        s.judge(true).map_err(|e| (i, e))?;
                    }
                }
                if burst {
                    s.judge(false).map_err(|e| (ops.len() - 1, e))?;
                }
                c.outcome(&format!("{:?}{:?}{:?}", s.ended, s.got_a, s.got_b));
                Ok(None)
            });
        }
    }
    preamble(c);
    handshake(c);
    sizes(c);
    pressed(c);
}

/// Every shape of the upgrade request, cut at every byte.
fn handshake(c: &Arc<Check>) {
    // (lines, offers mqtt, may be refused all the same)
    let protocols: [(&[&str], Option<bool>); 12] = [
        (&["Sec-WebSocket-Protocol: mqtt"], Some(true)),
        (&["sec-websocket-protocol:mqtt"], Some(true)),
        (&["Sec-WebSocket-Protocol: mqtt, mqttv3.1"], Some(true)),
        (&["Sec-WebSocket-Protocol: mqttv3.1, mqtt"], Some(true)),
        (&["Sec-WebSocket-Protocol: mqttv3.1,mqtt,other"], Some(true)),
        (&["Sec-WebSocket-Protocol: mqttv3.1", "Sec-WebSocket-Protocol: mqtt"], Some(true)),
        (&["Sec-WebSocket-Protocol: mqtt", "Sec-WebSocket-Protocol: chat"], Some(true)),
        (&["Sec-WebSocket-Protocol: mqttv3.1"], Some(false)),
        (&["Sec-WebSocket-Protocol: mqttx, xmqtt"], Some(false)),
        (&["Sec-WebSocket-Protocol: chat", "Sec-WebSocket-Protocol: superchat"], Some(false)),
        (&["Sec-WebSocket-Protocol: mqtt.v5"], Some(false)),
        // the specification demands the header of the client only
        (&[], None),
    ];
    // (line, legal)
    let firsts = [("GET /mqtt HTTP/1.1", true), ("GET / HTTP/1.1", true), ("POST /mqtt HTTP/1.1", false), ("GET /mqtt HTTP/1.0", false)];
    let upgrades: [(&str, bool); 3] = [("Upgrade: websocket", true), ("Upgrade: h2c", false), ("", false)];
    let conns: [(&str, bool); 4] = [("Connection: Upgrade", true), ("Connection: keep-alive, Upgrade", true), ("Connection: close", false), ("", false)];
    let keys: [(&str, bool); 2] = [("Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==", true), ("", false)];
    let versions: [(&str, bool); 3] = [("Sec-WebSocket-Version: 13", true), ("Sec-WebSocket-Version: 8", false), ("", false)];
    let dims = [protocols.len(), firsts.len(), upgrades.len(), conns.len(), keys.len(), versions.len()];
    let build = |k: &[usize]| {
        let mut lines = vec![firsts[k[1]].0, "Host: localhost", upgrades[k[2]].0, conns[k[3]].0, keys[k[4]].0, versions[k[5]].0];
        lines.extend(protocols[k[0]].0);
        lines.retain(|l| !l.is_empty());
        lines.join("\r\n") + "\r\n\r\n"
    };
    let judge = |k: &[usize], cut: Option<usize>| -> Result<(), String> {
        let req = build(k);
        let legal = firsts[k[1]].1 && upgrades[k[2]].1 && conns[k[3]].1 && keys[k[4]].1 && versions[k[5]].1;
        let offered = protocols[k[0]].1;
        let mut w = World::new(no_hooks(base_config()));
        let mut args = plain_args();
        args.websocket = true;
        let a = w.open_with(V5, args);
        w.conns[a].codec = Some(Box::new(Codec::new(false, true)));
        let n = cut.unwrap_or(req.len());
        w.send_raw(a, &req.as_bytes()[..n]);
        w.quiesce();
        w.send_raw(a, &req.as_bytes()[n..]);
        w.quiesce();
        w.pull(a);
        let resp = w.conns[a].codec.as_ref().unwrap().response.clone().unwrap_or_default();
        let upgraded = resp.starts_with("HTTP/1.1 101");
        w.send_connect(a, &ConnSpec::new("a-client", V5));
        w.quiesce();
        w.pull(a);
        let got = if upgraded { w.recv(a) } else { vec![] };
        let served = matches!(got[..], [Rx::Connack { code: 0, .. }]);
        c.outcome(&format!("{resp} {got:?}"));
        let state = || format!("\n     answered {resp:?}, then {got:?}, alive {}", w.alive(a));
        if let Some(p) = w.panicked() {
            return Err(format!("panic: {p}"));
        }
        let want = legal && offered != Some(false);
        if upgraded != served || w.alive(a) != served || served != want && !(legal && offered.is_none()) {
            return Err(format!("the client should{} be served{}", if want { "" } else { " not" }, state()));
        }
        if !served {
            return Ok(());
        }
        let lower = resp.to_ascii_lowercase();
        let field = |n: &str| -> Vec<String> { resp.lines().skip(1).filter_map(|l| l.split_once(':')).filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.trim().to_string()).collect() };
        let chosen = field("Sec-WebSocket-Protocol");
        if field("Sec-WebSocket-Accept") != ["s3pPLMBiTxaQ9kYGzzhZRbK+xOo="] || !lower.contains("upgrade: websocket") {
            return Err(format!("not a correct upgrade{}", state()));
        }
        match offered {
            Some(_) if chosen != ["mqtt"] => Err(format!("the subprotocol mqtt is not confirmed{}", state())),
            None if !chosen.is_empty() => Err(format!("a subprotocol the client did not offer{}", state())),
            _ => Ok(()),
        }
    };
    let n: usize = dims.iter().product();
    c.explore_product("upgrade", "subprotocols x request line x Upgrade x Connection x key x version", n, |i| build(&digits(i, &dims)), |i| judge(&digits(i, &dims), None));
    let cases: Vec<(Vec<usize>, usize)> = (0..protocols.len()).flat_map(|p| {
        let k = vec![p, 0, 0, 0, 0, 0];
        let n = build(&k).len();
        (0..n).map(move |cut| (k.clone(), cut))
    }).collect();
    c.explore_product("upgrade, cut", "every subprotocol list x every byte at which the request is cut", cases.len(), |i| format!("{:?} cut at {}", build(&cases[i].0), cases[i].1), |i| judge(&cases[i].0, Some(cases[i].1)));
}

/// Payload sizes around every length encoding, both ways, in 1 to 3 frames.
fn sizes(c: &Arc<Check>) {
    let lens = [0usize, 1, 100, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 2000, 2048, 2100, 16383, 16384, 65525, 65530, 65535, 65536, 70000];
    let dims = [lens.len(), 4, 2, 2];
    let n: usize = dims.iter().product();
    c.explore_product("sizes", "payload sizes x frames per message x version x TLS", n, |i| {
        let k = digits(i, &dims);
        format!("payload of {} in {} frames, {:?}, TLS {}", lens[k[0]], k[1] + 1, [V5, V311][k[2]], k[3])
    }, |i| {
        let k = digits(i, &dims);
        let (len, frames, ver, tls) = (lens[k[0]], k[1] + 1, [V5, V311][k[2]], k[3] == 1);
        let mut w = World::new(no_hooks(base_config()));
        let a = w.open_stack(ver, tls, true);
        w.send_connect(a, &ConnSpec::new("a-client", ver));
        w.send_sub(a, 1, &[("t", q(0))], None);
        w.quiesce();
        w.recv(a);
        let text: String = (0..len).map(|i| (b'a' + (i % 23) as u8) as char).collect();
        let p = publ("t", 0, 0);
        let bytes = if ver.is_v5() {
            mqtt_proto::v5::Packet::from(pub_v5(&p, &text)).encode().unwrap()
        } else {
            mqtt_proto::v3::Packet::from(pub_v3(&p, &text)).encode().unwrap()
        };
        let bytes = [bytes.as_slice(), &[0xc0, 0]].concat();
        let step = bytes.len().div_ceil(frames);
        let parts: Vec<&[u8]> = bytes.chunks(step).collect();
        for (j, part) in parts.iter().enumerate() {
            let last = j + 1 == parts.len();
            let f = frame(if j == 0 { 2 } else { 0 } | if last { 0x80 } else { 0 }, true, part);
            let s = w.conns[a].codec.as_mut().unwrap().seal(&f);
            w.send_raw(a, &s);
            if j % 2 == 0 {
                w.quiesce();
            }
        }
        w.quiesce();
        let got = w.recv(a);
        let (pubs, rest): (Vec<Rx>, Vec<Rx>) = got.into_iter().partition(|r| matches!(r, Rx::Pub(_)));
        if rest != [Rx::Pingresp] || !matches!(&pubs[..], [Rx::Pub(p)] if p.payload == text) || !w.conns[a].wire_errors.is_empty() {
            return Err(format!("{} messages back, {rest:?}, errors {:?}", pubs.len(), w.conns[a].wire_errors));
        }
        c.outcome(&len);
        match w.panicked() {
            Some(p) => Err(format!("panic: {p}")),
            None => Ok(()),
        }
    });
}

/// The client reads nothing for a while: pings are still answered later, and
/// nothing is lost.
fn pressed(c: &Arc<Check>) {
    let script: [&[Act]; 6] = [
        &[Ping(3), Inbound, Ping(3)],
        &[Inbound, Inbound, Inbound, Ping(125)],
        &[Ping(125), Ping(125), Data(Part::ToEnd, true, true)],
        &[Data(Part::Bytes5, true, false), Ping(3), Data(Part::ToEnd, false, true), Inbound],
        &[Data(Part::Two, true, true), Inbound, Ping(3), Disconnect],
        &[Inbound, Ping(3), Close(Some(1000))],
    ];
    for (j, ops) in script.iter().enumerate() {
        for (ver, tls) in [(V5, false), (V311, false), (V5, true)] {
            let name = format!("hostile transport {j} {ver:?}{}", if tls { " over TLS" } else { "" });
            c.explore_choices(&name, c.pick(2, 3), |ch| {
                with_chooser(ch, || {
                    let mut s = Scene::new(ver, tls)?;
                    s.w.conns[s.a].pipe.lock().unwrap().adversary = true;
                    for op in ops.iter() {
                        s.act(op);
                        s.w.quiesce_chosen();
                    }
                    s.w.conns[s.a].pipe.lock().unwrap().adversary = false;
                    s.judge(false)
                })
            });
        }
    }
    for (j, ops) in script.iter().enumerate() {
        let n = 60;
        c.explore_product(&format!("not reading {j}"), "bytes the client takes before it stops reading, then it reads again", n * 2, |i| format!("{} bytes, {:?}", i / 2, [V5, V311][i % 2]), |i| {
            let mut s = Scene::new([V5, V311][i % 2], false)?;
            s.w.set_window(s.a, Some(i / 2));
            for op in ops.iter() {
                s.act(op);
                s.w.quiesce();
            }
            s.w.set_window(s.a, None);
            s.judge(false)
        });
    }
}

/// The very first packets, in whatever messages and frames they come.
fn preamble(c: &Arc<Check>) {
    #[derive(Clone, Copy, Debug)]
    enum P {
        /// so many bytes of CONNECT and PINGREQ in one frame, which ends the message or not
        Bytes(usize, bool),
        Rest(bool),
        Ping,
    }
    let mut alphabet = vec![P::Ping];
    for last in [true, false] {
        alphabet.extend([0, 1, 2, 9].map(|n| P::Bytes(n, last)));
        alphabet.push(P::Rest(last));
    }
    for (ver, tls, depth) in [(V5, false, c.pick(4, 5)), (V311, false, c.pick(4, 5)), (V310, false, 3), (V5, true, 3)] {
        for burst in [false, true] {
            let name = format!("first frames {ver:?}{}{}", if tls { " over TLS" } else { "" }, if burst { ", in one go" } else { "" });
            c.explore_tree(&name, &alphabet, depth, |o| format!("{o:?}"), |ops, _| {
                let at = |e: String| (ops.len() - 1, e);
                let mut w = World::new(no_hooks(base_config()));
                let a = w.open_stack(ver, tls, true);
                let spec = ConnSpec::new("a-client", ver);
                let mut left = if ver.is_v5() {
                    mqtt_proto::v5::Packet::from(connect_v5(&spec)).encode().unwrap().as_slice().to_vec()
                } else {
                    mqtt_proto::v3::Packet::from(connect_v3(&spec)).encode().unwrap().as_slice().to_vec()
                };
                left.extend([0xc0, 0]);
                let (mut open, mut pings) = (false, 0);
                for op in ops.iter().chain(if matches!(ops.last(), Some(P::Rest(true))) { &[][..] } else { &[P::Rest(true)] }) {
                    let f = match *op {
                        P::Ping => {
                            pings += 1;
                            frame(0x89, true, &[pings])
                        }
                        P::Bytes(_, last) | P::Rest(last) => {
                            let n = if let P::Bytes(n, _) = op { *n } else { left.len() };
                            if n > left.len() {
                                return Ok(Some(ops.len() - 1));
                            }
                            let b: Vec<u8> = left.drain(..n).collect();
                            let f = frame(if open { 0 } else { 2 } | if last { 0x80 } else { 0 }, true, &b);
                            open = !last;
                            f
                        }
                    };
                    let b = w.conns[a].codec.as_mut().unwrap().seal(&f);
                    w.send_raw(a, &b);
                    if !burst {
                        w.quiesce();
                    }
                }
                w.quiesce();
                let got = w.recv(a);
                if got != [Rx::Connack { sp: false, code: 0 }, Rx::Pingresp] || !w.alive(a) {
                    return Err(at(format!("the CONNECT and the PINGREQ were answered {got:?}, alive {}", w.alive(a))));
                }
                let others = &w.conns[a].codec.as_ref().unwrap().others;
                let pongs: Vec<u8> = others.iter().filter(|o| o.0 == 10).map(|o| o.1[0]).collect();
                if pings > 0 && pongs.last() != Some(&pings) || others.len() != pongs.len() {
                    return Err(at(format!("{pings} pings, answered {others:?}")));
                }
                if let Some(e) = w.conns[a].wire_errors.first() {
                    return Err(at(format!("the server broke the WebSocket protocol: {e}")));
                }
                match w.panicked() {
                    Some(p) => Err(at(format!("panic: {p}"))),
                    None => Ok(None),
                }
            });
        }
    }
}
