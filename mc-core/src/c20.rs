//! Transport adversary: every read may be short or late, every write partial
//! or late, every flush late, every runnable task scheduled first. What a
//! client receives must not depend on any of it.
use std::sync::Arc;

use mc_engine::{Check, Chooser};

use crate::model::*;
use crate::sim::*;
use crate::world::*;

/// What one connection received: acknowledgements, deliveries, and whether
/// everything was flushed.
type Seen = Vec<(Vec<Rx>, Vec<Rx>)>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Open,
    Disconnect,
    Error,
    Eof,
}

struct Scenario {
    name: &'static str,
    ver: Ver,
    end: End,
    /// payload size of the large message
    big: usize,
    /// messages in the burst from the second client
    burst: usize,
    flush_matters: bool,
    /// the second connection's transport is hostile too
    both: bool,
    /// layers between the transport and MQTT: TLS, WebSocket
    stack: (bool, bool),
}

fn scenario(s: &Scenario, hooks: bool, adversary: bool, (tls, ws): (bool, bool)) -> Result<Seen, String> {
    let cfg = if hooks { base_config() } else { no_hooks(base_config()) };
    let mut w = World::new(cfg);
    let mut seen: Seen = vec![(vec![], vec![]); 2];
    let a = if tls || ws { w.open_stack(s.ver, tls, ws) } else { w.open(s.ver) };
    w.send_connect(a, &ConnSpec::new("a", s.ver));
    w.quiesce();
    let b = w.open(s.ver);
    w.send_connect(b, &ConnSpec::new("b", s.ver));
    w.quiesce();
    for c in [a, b] {
        w.conns[c].pipe.lock().unwrap().flush_matters = s.flush_matters;
    }
    w.conns[a].pipe.lock().unwrap().adversary = adversary;
    w.conns[b].pipe.lock().unwrap().adversary = adversary && s.both;
    let mut collect = |w: &mut World| {
        for c in [a, b] {
            for r in w.recv(c) {
                match r {
                    Rx::Pub(_) | Rx::Pubrel(..) => seen[c].1.push(r),
                    _ => seen[c].0.push(r),
                }
            }
        }
    };
    // subscribe, publish to itself at each QoS, ping: one segment
    w.send_sub(a, 1, &[("t", q(2))], None);
    w.send_pub(a, &publ("t", 0, 0), "p0");
    w.send_pub(a, &publ("t", 1, 10), "p1");
    w.send_pub(a, &publ("t", 2, 11), "p2");
    w.send_ping(a);
    w.quiesce_chosen();
    collect(&mut w);
    if s.big > 0 {
        w.send_pub(b, &publ("t", 0, 0), &"x".repeat(s.big));
        w.send_pub(b, &publ("t", 0, 0), "after");
        w.quiesce_chosen();
        collect(&mut w);
    }
    for i in 0..s.burst {
        w.send_pub(b, &publ("t", 0, 0), &format!("b{i}"));
    }
    w.quiesce_chosen();
    collect(&mut w);
    w.send_ack(a, 6, 11, 0);
    w.send_pub(a, &publ("t", 0, 0), "last");
    match s.end {
        End::Open => {}
        End::Disconnect => w.send_disconnect(a, 0, None),
        End::Error => w.send(a, &[0x30, 5, 0, 1, b'#', 0, b'x']),
        End::Eof => w.eof(a),
    }
    w.quiesce_chosen();
    collect(&mut w);
    if let Some(p) = w.panicked() {
        return Err(format!("panic: {p}"));
    }
    for c in [a, b] {
        if let Some(e) = w.conns[c].wire_errors.first() {
            return Err(format!("connection {c}: {e}"));
        }
        let p = w.conns[c].pipe.lock().unwrap();
        let abrupt = s.end == End::Eof || s.end == End::Error && !s.ver.is_v5();
        if !abrupt && p.flush_matters && p.flushed_upto != p.outbound.len() {
            return Err(format!("connection {c}: {} bytes written but never flushed", p.outbound.len() - p.flushed_upto));
        }
        drop(p);
    }
    let ended = s.end != End::Open;
    if ended && w.alive(a) {
        // a server-side end waits a second for the peer to close
        w.advance(1500);
        if w.alive(a) {
            return Err("the connection never ended".into());
        }
    }
    if let Some(k) = &w.conns[a].codec
        && k.ws
    {
        let abrupt = s.end == End::Eof || s.end == End::Error && !s.ver.is_v5();
        if ended && !abrupt && !k.others.iter().any(|o| o.0 == 8) {
            return Err("the end of the connection was not announced with a Close frame".into());
        }
    }
    drop(collect);
    Ok(seen)
}

fn judge(s: &Scenario, got: &Seen, want: &Seen, full: &Seen) -> Result<(), String> {
    let body = |v: &Vec<Rx>| v.iter().filter(|r| !matches!(r, Rx::Closed | Rx::Disconnect(_))).cloned().collect::<Vec<_>>();
    for c in 0..2 {
        let open = c == 1 || s.end == End::Open;
        for (what, g, x, f) in [("acknowledgements", &got[c].0, &want[c].0, &full[c].0), ("deliveries", &got[c].1, &want[c].1, &full[c].1)] {
            // a connection that is ending may miss a tail of deliveries (and
            // of anything if the peer is gone, or broke the v3 protocol)
            let abrupt = s.end == End::Eof || s.end == End::Error && !s.ver.is_v5();
            // TCP is closed by the client once it has seen the Close frame
            let (g, x) = match s.stack.1 && !open {
                true => (body(g), body(x)),
                false => (g.clone(), x.clone()),
            };
            let (g, x) = (&g, &x);
            let ok = if open || what == "acknowledgements" && !abrupt { g == x } else { body(f).starts_with(&body(g)) };
            if !ok {
                return Err(format!("connection {c}: {what} depend on the transport\n     observed: {g:?}\n     expected: {x:?}"));
            }
        }
    }
    Ok(())
}

const NAMES: [&str; 25] = [
    "s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "s12", "s13", "s14", "s15", "s16", "s17", "s18", "s19", "s20", "s21", "s22", "s23",
    "s24",
];

/// One segment of messages to many subscribers: all of it is handed over
/// without anything more having to arrive.
fn fan_out(c: &Arc<Check>) {
    let subs = [1usize, 2, 3, 5, 9, 10, 11, 12, 17, 25];
    let msgs = [1usize, 2, 3, 5, 9, 10, 11, 16, 20, 33];
    let dims = [subs.len(), msgs.len(), 3, 2, 2, 3];
    let show = |i: usize| {
        let k = crate::c22::digits(i, &dims);
        format!("{} messages of QoS {} to {} subscribers, publisher among them {}, {:?}, reads of at most {:?}", msgs[k[1]], k[2], subs[k[0]], k[3] == 1, [Ver::V5, Ver::V311][k[4]], [None, Some(1), Some(7)][k[5]])
    };
    c.explore_product("one segment to many", "subscribers x messages x QoS x publisher subscribed x version x read size", dims.iter().product(), show, |i| {
        let k = crate::c22::digits(i, &dims);
        let (subs, msgs, qos, own, ver) = (subs[k[0]], msgs[k[1]], k[2] as u8, k[3] == 1, [Ver::V5, Ver::V311][k[4]]);
        let mut cfg = no_hooks(base_config());
        cfg.max_inflight_server = 100;
        let mut w = World::new(cfg);
        let mut all = vec![];
        for n in 0..subs {
            let s = w.open(ver);
            w.send_connect(s, &ConnSpec::new(NAMES[n], ver));
            w.send_sub(s, 1, &[("t", q(0))], None);
            all.push(s);
        }
        let p = w.open(ver);
        w.send_connect(p, &ConnSpec::new("p", ver));
        if own {
            w.send_sub(p, 500, &[("t", q(0))], None);
        }
        all.push(p);
        w.quiesce();
        for s in &all {
            w.recv(*s);
        }
        w.set_chunks(p, [None, Some(1), Some(7)][k[5]], None);
        for m in 0..msgs {
            let id = if qos > 0 { m as u16 + 1 } else { 0 };
            w.send_pub(p, &publ("t", qos, id), &format!("m{m}"));
        }
        w.send_ping(p);
        w.quiesce();
        let want: Vec<String> = (0..msgs).map(|m| format!("m{m}")).collect();
        let mut acks = vec![];
        for s in &all {
            let mut got = vec![];
            for r in w.recv(*s) {
                match r {
                    Rx::Pub(m) => got.push(m.payload),
                    r => acks.push(r),
                }
            }
            if got != if *s != p || own { want.clone() } else { vec![] } {
                return Err(format!("connection {s} was delivered {got:?}"));
            }
            if let Some(e) = w.conns[*s].wire_errors.first() {
                return Err(format!("connection {s}: {e}"));
            }
        }
        let n = if qos > 0 { msgs } else { 0 };
        if acks.len() != n + 1 || acks.last() != Some(&Rx::Pingresp) {
            return Err(format!("the publisher was sent {acks:?}"));
        }
        match w.panicked() {
            Some(p) => Err(format!("panic: {p}")),
            None => Ok(()),
        }
    });
}

pub fn run(c: &Arc<Check>) {
    fan_out(c);
    let mut list = vec![];
    for ver in [Ver::V5, Ver::V311] {
        for end in [End::Open, End::Disconnect, End::Error, End::Eof] {
            list.push(Scenario { name: "small", ver, end, big: 0, burst: 2, flush_matters: false, both: false, stack: (false, false) });
        }
        list.push(Scenario { name: "both", ver, end: End::Open, big: 0, burst: 12, flush_matters: true, both: true, stack: (false, false) });
        list.push(Scenario { name: "burst", ver, end: End::Open, big: 0, burst: 20, flush_matters: false, both: false, stack: (false, false) });
        list.push(Scenario { name: "big", ver, end: End::Open, big: 3000, burst: 1, flush_matters: false, both: false, stack: (false, false) });
        list.push(Scenario { name: "buffering", ver, end: End::Open, big: 2100, burst: 2, flush_matters: true, both: false, stack: (false, false) });
        list.push(Scenario { name: "buffering end", ver, end: End::Disconnect, big: 0, burst: 1, flush_matters: true, both: false, stack: (false, false) });
        list.push(Scenario { name: "buffering error", ver, end: End::Error, big: 0, burst: 1, flush_matters: true, both: false, stack: (false, false) });
    }
    for stack in [(false, true), (true, false), (true, true)] {
        for ver in [Ver::V5, Ver::V311] {
            for end in [End::Open, End::Disconnect, End::Error, End::Eof] {
                list.push(Scenario { name: "layered", ver, end, big: 0, burst: 2, flush_matters: false, both: false, stack });
            }
            list.push(Scenario { name: "layered big", ver, end: End::Open, big: 3000, burst: 12, flush_matters: false, both: false, stack });
            list.push(Scenario { name: "layered buffering", ver, end: End::Open, big: 2100, burst: 2, flush_matters: true, both: false, stack });
        }
    }
    for s in &list {
        for hooks in [true, false] {
            let name = format!("{} {:?} {:?} hooks={hooks}{}", s.name, s.ver, s.end, [["", " WebSocket"], [" TLS", " TLS and WebSocket"]][s.stack.0 as usize][s.stack.1 as usize]);
            let open = Scenario { end: End::Open, ..*s };
            let (want, full) = match (scenario(s, hooks, false, (false, false)), scenario(&open, hooks, false, (false, false))) {
                (Ok(w), Ok(f)) => (w, f),
                (Err(e), _) | (_, Err(e)) => {
                    c.fail(&format!("{name} reference"), e, serde_json::json!({"section": name}));
                    continue;
                }
            };
            c.outcome(&format!("{want:?}"));
            let deep = match s.name {
                "small" => c.pick(3, 4),
                _ => c.pick(2, 3),
            };
            c.explore_choices(&name, deep, |ch: &mut Chooser| {
                let got = with_chooser(ch, || scenario(s, hooks, true, s.stack))?;
                c.outcome(&format!("{got:?}"));
                judge(s, &got, &want, &full)
            });
        }
    }
}
