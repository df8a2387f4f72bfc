//! Broker-level checks: real connections against the reference model, every
//! operation sequence over each section's alphabet up to its depth.
use std::collections::BTreeSet;
use std::sync::Arc;

use akasa_core::Config;
use mc_engine::Check;

use crate::model::*;
use crate::sim::*;
use crate::world::World;
use crate::world::Ver::{self, *};

const PAIRS: [(Ver, Ver); 4] = [(V5, V5), (V311, V311), (V5, V311), (V311, V5)];

fn both(name: &str, f: impl Fn(&str, Config)) {
    f(&format!("{name} hooks-on"), base_config());
    f(&format!("{name} hooks-off"), no_hooks(base_config()));
}
fn w(topic: &'static str, payload: &'static str, qos: u8) -> WillSpec {
    WillSpec { topic, payload, qos, retain: false, delay: 0, expiry: None }
}
fn sub(slot: usize, f: &'static str, o: SubOpt) -> Op {
    Op::Sub(slot, vec![(f, o)], None)
}

/// End-to-end delivery: publisher in slot 1, persistent subscriber in slot 0.
pub fn c06(c: &Arc<Check>) {
    for (i, (pv, sv)) in PAIRS.iter().enumerate() {
        let s0 = ConnSpec::persistent("s", *sv).recv_max(2);
        let prefix = vec![Op::Connect(0, s0.clone()), Op::Connect(1, ConnSpec::new("p", *pv)), sub(0, "t", q(2))];
        let mut a = vec![
            Op::Pub(1, publ("t", 0, 0)),
            Op::Pub(1, publ("t", 1, 0)),
            Op::Pub(1, publ("t", 2, 0)),
            Op::Ack(0, 0),
            Op::Ack(0, 1),
            Op::Drop(0),
            Op::Disconnect(0, 0, None),
            Op::Connect(0, s0.clone()),
            Op::Adv(16_000),
        ];
        if sv.is_v5() {
            a.push(Op::Connect(0, s0.clone().recv_max(1)));
            a.push(Op::Refuse(0, 0));
        }
        let mut cfg = if i % 2 == 0 { base_config() } else { no_hooks(base_config()) };
        if !sv.is_v5() {
            cfg.max_inflight_client = 2;
        }
        explore(c, &format!("deliver {pv:?}->{sv:?}"), &cfg, 2, &prefix, &a, c.pick(6, 7));
        // small queue: overflow drops only what does not fit
        let mut small = cfg.clone();
        small.max_in_mem_pending_messages = 3;
        let a2 = vec![
            Op::Pub(1, publ("t", 1, 0)),
            Op::Pub(1, publ("t", 2, 0)),
            Op::Ack(0, 0),
            Op::Ack(0, 1),
            Op::Drop(0),
            Op::Connect(0, s0.clone()),
            Op::Ping(0),
        ];
        explore(c, &format!("queue cap {pv:?}->{sv:?}"), &small, 2, &prefix, &a2, c.pick(7, 8));
        // stray and repeated acknowledgements, timed resends
        let a3 = vec![
            Op::Pub(1, publ("t", 1, 0)),
            Op::Pub(1, publ("t", 2, 0)),
            Op::Ack(0, 0),
            Op::Stray(0, 4, 777),
            Op::Stray(0, 5, 777),
            Op::Stray(0, 7, 777),
            Op::Adv(9_000),
            Op::Ping(0),
        ];
        explore(c, &format!("stray acks {pv:?}->{sv:?}"), &cfg, 2, &prefix, &a3, c.pick(5, 6));
    }
}

/// Inbound QoS handshakes.
pub fn c07(c: &Arc<Check>) {
    for (pv, sv) in PAIRS {
        let p0 = ConnSpec::persistent("p", pv);
        let prefix = vec![Op::Connect(1, ConnSpec::new("s", sv)), sub(1, "t", q(0)), Op::Connect(0, p0.clone())];
        let a = vec![
            Op::Pub(0, publ("t", 2, 1).text("A")),
            Op::Pub(0, publ("t", 2, 1).text("A").dup()),
            Op::Pub(0, publ("t", 2, 1).text("B")),
            Op::Pub(0, publ("t", 2, 2).text("C")),
            Op::Pub(0, publ("t", 2, 3).text("D")),
            Op::Pub(0, publ("t", 1, 1).text("E")),
            Op::Pub(0, publ("t", 1, 1).text("E").dup()),
            Op::Pubrel(0, 1),
            Op::Pubrel(0, 2),
            Op::Drop(0),
            Op::Connect(0, p0.clone()),
            Op::Connect(0, p0.clone().clean(true)),
        ];
        let mut cfg = base_config();
        cfg.max_inflight_server = 2;
        explore(c, &format!("inbound {pv:?}->{sv:?}"), &cfg, 2, &prefix, &a, c.pick(5, 6));
        explore(c, &format!("inbound hooks-off {pv:?}->{sv:?}"), &no_hooks(cfg.clone()), 2, &prefix, &a, c.pick(5, 6));
        let b = vec![
            Op::Pub(0, publ("t", 2, 1).text("A")),
            Op::Pub(0, publ("t", 2, 1).text("A").dup()),
            Op::Pub(0, publ("t", 2, 1).text("B")),
            Op::Pub(0, publ("t", 2, 2).text("B")),
            Op::Pubrel(0, 1),
            Op::Drop(0),
            Op::Connect(0, p0.clone()),
        ];
        explore(c, &format!("inbound deep {pv:?}->{sv:?}"), &cfg, 2, &prefix, &b, c.pick(7, 9));
    }
}

/// Session continuity.
pub fn c08(c: &Arc<Check>) {
    for v in [V5, V311, V310] {
        let other = if v == V5 { V311 } else { V5 };
        let per = ConnSpec::persistent("s", v);
        let prefix = vec![Op::Connect(1, ConnSpec::new("p", other))];
        let mut a = vec![
            Op::Connect(0, per.clone()),
            Op::Connect(0, per.clone().clean(true)),
            sub(0, "t", q(1)),
            Op::Unsub(0, vec!["t"]),
            Op::Pub(1, publ("t", 1, 0)),
            Op::Ack(0, 0),
            Op::Drop(0),
            Op::Disconnect(0, 0, None),
        ];
        if v == V5 {
            a.push(Op::Connect(0, ConnSpec::new("s", V5).clean(false)));
            a.push(Op::Connect(0, per.clone().expiry(10)));
            a.push(Op::Adv(12_000));
            a.push(Op::Disconnect(0, 0, Some(0)));
            a.push(Op::Disconnect(0, 0, Some(5)));
        }
        if v == V311 {
            a.push(Op::Connect(0, ConnSpec::persistent("s", V310)));
            a.push(Op::Adv(100_000));
        }
        both(&format!("session {v:?}"), |n, cfg| explore(c, n, &cfg, 2, &prefix, &a, c.pick(5, 6)));
    }
    // every relation of losses, reconnections and expiry timers
    let s = ConnSpec::persistent("s", V5);
    let prefix = vec![Op::Connect(1, ConnSpec::new("p", V311)), Op::Connect(0, s.clone().expiry(10)), sub(0, "t", q(1))];
    let a = vec![
        Op::Connect(0, s.clone().expiry(10)),
        Op::Connect(0, s.clone().expiry(5)),
        Op::Drop(0),
        Op::Disconnect(0, 0, Some(7)),
        Op::Adv(3_000),
        Op::Adv(6_000),
        Op::Pub(1, publ("t", 1, 0)),
    ];
    both("session timers", |n, cfg| explore(c, n, &cfg, 2, &prefix, &a, c.pick(6, 7)));
}

/// Registry accounting.
pub fn c09(c: &Arc<Check>) {
    for v in [V5, V311] {
        let per = ConnSpec::persistent("s", v);
        let mut a = vec![
            Op::Connect(0, per.clone()),
            Op::Connect(0, per.clone().clean(true)),
            Op::Connect(0, ConnSpec::new("s", v)),
            Op::Connect(1, ConnSpec::persistent("s", v)),
            Op::Connect(1, ConnSpec::new("other", v)),
            Op::Drop(0),
            Op::Drop(1),
            Op::Disconnect(0, 0, None),
            Op::Disconnect(1, 0, None),
        ];
        if v == V5 {
            a.push(Op::Connect(0, per.clone().expiry(10)));
            a.push(Op::Adv(12_000));
            a.push(Op::Disconnect(0, 0, Some(0)));
        }
        both(&format!("counts {v:?}"), |n, cfg| explore_with(c, n, &cfg, 2, &[], &a, c.pick(5, 6), true));
    }
}

/// Wills.
pub fn c11(c: &Arc<Check>) {
    for (v, ov) in PAIRS {
        let prefix = vec![Op::Connect(1, ConnSpec::new("o", ov)), sub(1, "w/#", q(2))];
        let mut wr = w("w/1", "gone", 1);
        wr.retain = true;
        let mut a = vec![
            Op::Connect(0, ConnSpec::new("c", v).will(w("w/1", "will0", 0))),
            Op::Connect(0, ConnSpec::new("c", v).will(wr.clone())),
            Op::Connect(0, ConnSpec::new("c", v)),
            Op::Disconnect(0, 0, None),
            Op::Drop(0),
            Op::Unsub(1, vec!["w/#"]),
            sub(1, "w/#", q(2)),
        ];
        if v == V5 {
            let mut wd = w("w/2", "later", 2);
            wd.delay = 5;
            a.push(Op::Connect(0, ConnSpec::persistent("c", V5).expiry(20).will(wd.clone())));
            let mut wd2 = wd.clone();
            wd2.delay = 50;
            a.push(Op::Connect(0, ConnSpec::persistent("c", V5).expiry(8).will(wd2.clone())));
            a.push(Op::Connect(0, ConnSpec::persistent("c", V5).expiry(20)));
            a.push(Op::Connect(0, ConnSpec::new("c", V5).will(wd.clone())));
            a.push(Op::Disconnect(0, 4, None));
            a.push(Op::Adv(6_000));
            a.push(Op::Adv(2_500));
        } else {
            a.push(Op::Connect(0, ConnSpec::persistent("c", v).will(w("w/3", "per", 2))));
        }
        both(&format!("wills {v:?}->{ov:?}"), |n, cfg| explore(c, n, &cfg, 2, &prefix, &a, c.pick(4, 5)));
    }
    // every relation of losses, reconnections, delay and expiry timers
    let prefix = vec![Op::Connect(1, ConnSpec::new("o", V5)), sub(1, "w/#", q(0))];
    let will = |delay: u32, text: &'static str| {
        let mut x = w("w/1", text, 0);
        x.delay = delay;
        x
    };
    let a = vec![
        Op::Connect(0, ConnSpec::persistent("c", V5).expiry(20).will(will(5, "five"))),
        Op::Connect(0, ConnSpec::persistent("c", V5).expiry(8).will(will(50, "at expiry"))),
        Op::Connect(0, ConnSpec::persistent("c", V5).expiry(20)),
        Op::Drop(0),
        Op::Adv(3_000),
    ];
    both("will timers", |n, cfg| explore(c, n, &cfg, 2, &prefix, &a, c.pick(8, 9)));
}

/// Topic aliases, both directions.
pub fn c18(c: &Arc<Check>) {
    let mut cfg = base_config();
    cfg.topic_alias_max = 2;
    let cl = ConnSpec::persistent("p", V5).alias_max(2);
    for ov in [V5, V311] {
        let o = if ov == V5 { ConnSpec::persistent("o", V5).alias_max(1) } else { ConnSpec::persistent("o", ov) };
        let prefix = vec![Op::Connect(1, o.clone()), sub(1, "#", q(1)), Op::Connect(0, cl.clone())];
        let a = vec![
            Op::Pub(0, publ("x", 0, 0).alias(1)),
            Op::Pub(0, publ("y", 1, 0).alias(1)),
            Op::Pub(0, publ("y", 0, 0).alias(2)),
            Op::Pub(0, publ("", 0, 0).alias(1)),
            Op::Pub(0, publ("", 1, 0).alias(2)),
            Op::Pub(0, publ("z", 0, 0)),
            Op::Pub(0, publ("", 0, 0)),
            Op::Pub(0, publ("x", 0, 0).alias(3)),
            Op::Drop(0),
            Op::Connect(0, cl.clone()),
        ];
        both(&format!("aliases in ->{ov:?}"), |n, mut k| {
            k.topic_alias_max = 2;
            explore(c, n, &k, 2, &prefix, &a, c.pick(4, 5))
        });
    }
    // broker -> client aliases: every topic order, window, resend, reconnect
    for max in [1u16, 2, 3] {
        let o = ConnSpec::persistent("o", V5).alias_max(max).recv_max(2);
        let prefix = vec![Op::Connect(1, o.clone()), sub(1, "#", q(1)), Op::Connect(0, ConnSpec::new("p", V5))];
        let a = vec![
            Op::Pub(0, publ("a", 0, 0)),
            Op::Pub(0, publ("b", 1, 0)),
            Op::Pub(0, publ("c", 0, 0)),
            Op::Pub(0, publ("a", 1, 0)),
            Op::Pub(0, publ("d", 1, 0)),
            Op::Ack(1, 0),
            Op::Drop(1),
            Op::Connect(1, o.clone()),
            Op::Adv(16_000),
            Op::Ping(1),
        ];
        explore(c, &format!("aliases out max={max}"), &cfg, 2, &prefix, &a, c.pick(6, 7));
    }
}

/// Subscription options.
pub fn c24(c: &Arc<Check>) {
    let o = |qos, nl, rap, rh| SubOpt { qos, nl, rap, rh };
    let prefix = vec![Op::Connect(0, ConnSpec::new("a", V5)), Op::Connect(1, ConnSpec::new("b", V5))];
    let a = vec![
        Op::Sub(0, vec![("t", o(1, true, false, 0))], Some(1)),
        Op::Sub(0, vec![("t", o(2, false, true, 1))], Some(2)),
        Op::Sub(0, vec![("+", o(0, false, false, 2))], Some(3)),
        Op::Sub(0, vec![("#", o(1, true, true, 1)), ("t", o(0, false, false, 1))], None),
        Op::Unsub(0, vec!["t"]),
        Op::Unsub(0, vec!["#", "+"]),
        Op::Pub(0, publ("t", 1, 0).retain()),
        Op::Pub(0, publ("t", 2, 0)),
        Op::Pub(1, publ("t", 1, 0).retain()),
        Op::Pub(1, publ("t", 0, 0).props()),
        Op::Pub(1, publ("t", 0, 0).retain().body(Body::Empty)),
        Op::Ack(0, 0),
    ];
    both("options V5", |n, cfg| explore(c, n, &cfg, 2, &prefix, &a, c.pick(4, 5)));
    let per = ConnSpec::persistent("a", V5);
    let prefix = vec![Op::Connect(0, per.clone()), Op::Connect(1, ConnSpec::new("b", V5))];
    let b = vec![
        Op::Sub(0, vec![("t", o(1, true, true, 1))], Some(7)),
        Op::Sub(0, vec![("+", o(2, false, false, 1))], Some(8)),
        Op::Unsub(0, vec!["t"]),
        Op::Pub(0, publ("t", 1, 0)),
        Op::Pub(1, publ("t", 1, 0).retain()),
        Op::Ack(0, 0),
        Op::Drop(0),
        Op::Connect(0, per.clone()),
    ];
    both("options across reconnect", |n, cfg| explore(c, n, &cfg, 2, &prefix, &b, c.pick(5, 6)));
}

/// Message expiry of queued messages.
pub fn c28(c: &Arc<Check>) {
    let per = ConnSpec::persistent("s", V5).recv_max(1);
    let prefix = vec![Op::Connect(0, per.clone()), sub(0, "t", q(2)), Op::Connect(1, ConnSpec::new("p", V5))];
    let a = vec![
        Op::Pub(1, publ("t", 1, 0).expiry(4)),
        Op::Pub(1, publ("t", 2, 0).expiry(30)),
        Op::Pub(1, publ("t", 1, 0)),
        Op::Pub(1, publ("t", 0, 0).expiry(9)),
        Op::Adv(6_000),
        Op::Adv(2_000),
        Op::Adv(20_000),
        Op::Drop(0),
        Op::Connect(0, per.clone()),
        Op::Ack(0, 0),
        Op::Ping(0),
    ];
    both("expiry", |n, cfg| explore(c, n, &cfg, 2, &prefix, &a, c.pick(5, 6)));
    // the same towards a client of another version, which is told nothing of it
    let old = ConnSpec::persistent("s", V311);
    let prefix3 = vec![Op::Connect(0, old.clone()), sub(0, "t", q(2)), Op::Connect(1, ConnSpec::new("p", V5))];
    let a3: Vec<Op> = a.iter().map(|o| if let Op::Connect(..) = o { Op::Connect(0, old.clone()) } else { o.clone() }).collect();
    both("expiry V311", |n, mut cfg| {
        cfg.max_inflight_client = 1;
        explore(c, n, &cfg, 2, &prefix3, &a3, c.pick(5, 6))
    });
    // the longest and the shortest, and two in flight
    for (name, per) in [("V5", ConnSpec::persistent("s", V5).recv_max(2)), ("V311", old.clone())] {
        let prefix = vec![Op::Connect(0, per.clone()), sub(0, "t", q(2)), Op::Connect(1, ConnSpec::new("p", V5))];
        let a = vec![
            Op::Pub(1, publ("t", 1, 0).expiry(1)),
            Op::Pub(1, publ("t", 2, 0).expiry(0)),
            Op::Pub(1, publ("t", 1, 0).expiry(u32::MAX)),
            Op::Pub(1, publ("t", 2, 0).props()),
            Op::Adv(3_000),
            Op::Drop(0),
            Op::Connect(0, per.clone()),
            Op::Ack(0, 0),
            Op::Ack(0, 1),
        ];
        both(&format!("long and short {name}"), |n, mut cfg| {
            cfg.max_inflight_client = 2;
            explore(c, n, &cfg, 2, &prefix, &a, c.pick(5, 6))
        });
    }
    // retained messages, published by clients or as a will
    for v in [V5, V311] {
        let per = ConnSpec::persistent("s", v);
        let prefix = vec![Op::Connect(0, per.clone()), Op::Connect(1, ConnSpec::new("p", V5))];
        let mut will = w("t", "will", 1);
        will.retain = true;
        will.expiry = Some(7);
        let a = vec![
            Op::Pub(1, publ("t", 1, 0).retain().expiry(4)),
            Op::Pub(1, publ("u", 0, 0).retain().expiry(30)),
            Op::Pub(1, publ("t", 2, 0).retain()),
            Op::Pub(1, publ("t", 0, 0).retain().body(Body::Empty).expiry(9)),
            sub(0, "t", q(1)),
            sub(0, "#", q(2)),
            Op::Connect(1, ConnSpec::new("p", V5).will(will)),
            Op::Drop(1),
            Op::Adv(2_000),
            Op::Adv(6_000),
            Op::Drop(0),
            Op::Connect(0, per.clone()),
            Op::Ack(0, 0),
        ];
        both(&format!("retained {v:?}"), |n, cfg| explore(c, n, &cfg, 2, &prefix, &a, c.pick(4, 5)));
    }
}

/// Clients of different protocol versions.
pub fn c31(c: &Arc<Check>) {
    for vs in [[V5, V311], [V311, V310], [V310, V5]] {
        let prefix = vec![Op::Connect(0, ConnSpec::persistent("a", vs[0])), Op::Connect(1, ConnSpec::persistent("b", vs[1]))];
        let mut a = vec![];
        for s in 0..2 {
            a.push(sub(s, "t/#", q(1)));
            a.push(sub(s, "t/+", SubOpt { qos: 2, nl: false, rap: true, rh: 0 }));
            a.push(Op::Unsub(s, vec!["t/#"]));
            a.push(Op::Pub(s, publ("t/1", 2, 0).retain().props()));
            a.push(Op::Pub(s, publ("t/1", 1, 0)));
            a.push(Op::Ack(s, 0));
        }
        both(&format!("mixed {vs:?}"), |n, cfg| explore(c, n, &cfg, 2, &prefix, &a, c.pick(4, 5)));
    }
}

/// Protocol violations: contained to the offender.
pub fn c19(c: &Arc<Check>) {
    let raws5: Vec<(&'static str, Vec<u8>)> = vec![
        ("second connect", connect_bytes(V5)),
        ("reserved type", vec![0x00, 0]),
        ("auth unannounced", vec![0xF0, 0]),
        ("server-only suback", vec![0x90, 4, 0, 1, 0, 0]),
        ("bad var int", vec![0x30, 0xff, 0xff, 0xff, 0xff, 0x7f]),
        ("pid zero", vec![0x32, 7, 0, 1, b't', 0, 0, 0, b'x']),
        ("qos 3", vec![0x36, 7, 0, 1, b't', 0, 9, 0, b'x']),
        ("bad flags on subscribe", vec![0x80, 7, 0, 5, 0, 0, 1, b't', 0]),
        ("no topics", vec![0x82, 3, 0, 5, 0]),
        ("bad filter", vec![0x82, 10, 0, 5, 0, 0, 4, b'a', b'#', b'/', b'b', 0]),
        ("bad utf8", vec![0x30, 5, 0, 1, 0xff, 0, b'x']),
        ("wildcard topic", vec![0x30, 5, 0, 1, b'#', 0, b'x']),
        ("dup qos0", vec![0x38, 5, 0, 1, b't', 0, b'x']),
        ("dollar topic", vec![0x30, 7, 0, 3, b'$', b'a', b'b', 0, b'x']),
        ("subscription id in publish", vec![0x30, 7, 0, 1, b't', 2, 0x0b, 1, b'x']),
        ("unknown property", vec![0x30, 6, 0, 1, b't', 1, 0x7f, b'x']),
        ("server-only connack", vec![0x20, 3, 0, 0, 0]),
        ("server-only unsuback", vec![0xB0, 4, 0, 1, 0, 0]),
        ("server-only pingresp", vec![0xD0, 0]),
        ("alias 0", vec![0x30, 8, 0, 1, b't', 3, 0x23, 0, 0, b'x']),
        ("unknown alias", vec![0x30, 7, 0, 0, 3, 0x23, 0, 7, b'x']),
        ("no topic", vec![0x30, 4, 0, 0, 0, b'x']),
        ("subscription identifier 0", vec![0x82, 9, 0, 5, 2, 0x0b, 0, 0, 1, b'z', 0]),
        ("no local on a shared subscription", vec![0x82, 16, 0, 5, 0, 0, 10, b'$', b's', b'h', b'a', b'r', b'e', b'/', b'g', b'/', b'z', 5]),
        ("no local on a shared subscription, after another", vec![0x82, 20, 0, 5, 0, 0, 1, b'z', 0, 0, 10, b'$', b's', b'h', b'a', b'r', b'e', b'/', b'g', b'/', b'z', 5]),
        ("retain handling 3", vec![0x82, 7, 0, 5, 0, 0, 1, b'z', 0x30]),
        ("subscribe QoS 3", vec![0x82, 7, 0, 5, 0, 0, 1, b'z', 3]),
        ("unsubscribe nothing", vec![0xA2, 3, 0, 5, 0]),
        ("bad flags on pubrel", vec![0x60, 2, 0, 5]),
    ];
    let raws3: Vec<(&'static str, Vec<u8>)> = vec![
        ("second connect", connect_bytes(V311)),
        ("reserved type", vec![0x00, 0]),
        ("auth", vec![0xF0, 0]),
        ("server-only suback", vec![0x90, 3, 0, 1, 0]),
        ("bad var int", vec![0x30, 0xff, 0xff, 0xff, 0xff, 0x7f]),
        ("pid zero", vec![0x32, 6, 0, 1, b't', 0, 0, b'x']),
        ("qos 3", vec![0x36, 6, 0, 1, b't', 0, 9, b'x']),
        ("bad flags on subscribe", vec![0x80, 6, 0, 5, 0, 1, b't', 0]),
        ("no topics", vec![0x82, 2, 0, 5]),
        ("bad filter", vec![0x82, 9, 0, 5, 0, 4, b'a', b'#', b'/', b'b', 0]),
        ("bad utf8", vec![0x30, 4, 0, 1, 0xff, b'x']),
        ("wildcard topic", vec![0x30, 4, 0, 1, b'#', b'x']),
        ("dup qos0", vec![0x38, 4, 0, 1, b't', b'x']),
        ("dollar topic", vec![0x30, 6, 0, 3, b'$', b'a', b'b', b'x']),
        ("empty topic", vec![0x30, 3, 0, 0, b'x']),
        ("shared subscribe", {
            let mut v = vec![0x82, 16, 0, 5, 0, 10];
            v.extend(b"$share/g/t");
            v.push(0);
            v[1] = v.len() as u8 - 2;
            v
        }),
        ("unknown pubrel", vec![0x62, 2, 0, 9]),
        ("server-only connack", vec![0x20, 2, 0, 0]),
        ("server-only unsuback", vec![0xB0, 2, 0, 1]),
        ("server-only pingresp", vec![0xD0, 0]),
        ("subscribe QoS 3", vec![0x82, 6, 0, 5, 0, 1, b'z', 3]),
        ("unsubscribe nothing", vec![0xA2, 2, 0, 5]),
        ("bad flags on pubrel", vec![0x60, 2, 0, 5]),
        ("shared subscribe, after another", vec![0x82, 19, 0, 5, 0, 1, b'z', 0, 0, 10, b'$', b's', b'h', b'a', b'r', b'e', b'/', b'g', b'/', b'z', 1]),
    ];
    for v in [V5, V311] {
        let per = ConnSpec::persistent("bad", v);
        let prefix = vec![
            Op::Connect(1, ConnSpec::new("good", V5)),
            sub(1, "#", q(1)),
            Op::Connect(0, per.clone().will(w("w", "lost", 1))),
            sub(0, "t", q(1)),
        ];
        let mut a: Vec<Op> = (if v == V5 { raws5.clone() } else { raws3.clone() })
            .into_iter()
            .map(|(n, b)| Op::Raw(0, n, b, RawExp::CloseWith(vec![0x81, 0x82, 0x90, 0x8F, 0x94, 0x9B, 0x80, 0x83])))
            .collect();
        a.extend([
            Op::Pub(1, publ("t", 1, 0)),
            Op::Pub(1, publ("z", 1, 0)),
            Op::Pub(0, publ("t", 1, 0)),
            Op::Connect(0, per.clone()),
            Op::Ack(1, 0),
            Op::Ack(0, 0),
        ]);
        both(&format!("violations {v:?}"), |n, cfg| explore(c, n, &cfg, 2, &prefix, &a, c.pick(3, 4)));
        // every first byte that no packet a client may send at that point
        // has, with whatever follows it in a packet of that type
        let mut a = vec![Op::Pub(1, publ("t", 1, 0)), Op::Pub(0, publ("t", 1, 0)), Op::Connect(0, per.clone())];
        for b in 0..=255u8 {
            if matches!(b, 0x40 | 0x50 | 0x62 | 0x70 | 0x82 | 0xA2 | 0xC0 | 0xE0) || (b >> 4 == 3 && b & 6 != 6) {
                continue;
            }
            let connect = connect_bytes(v);
            let s5 = |x: &[u8]| if v == V5 { x.to_vec() } else { vec![] };
            let bodies: Vec<Vec<u8>> = match b >> 4 {
                1 => vec![connect[2..].to_vec(), connect_bytes(if v == V5 { V311 } else { V5 })[2..].to_vec(), vec![]],
                2 => vec![vec![0, 0], vec![1, 0], vec![0, 5], s5(&[0, 0, 0]), s5(&[0, 0x82, 0]), s5(&[1, 0, 0])],
                3 => vec![vec![0, 1, b't', 0, 1, b'x'], s5(&[0, 1, b't', 0, 1, 0, b'x'])],
                4..=7 => vec![vec![0, 1], s5(&[0, 1, 0]), s5(&[0, 1, 0x10, 0])],
                8 => vec![vec![0, 5, 0, 1, b'z', 0], s5(&[0, 5, 0, 0, 1, b'z', 0])],
                9 => vec![vec![0, 5, 0], vec![0, 5, 0x80], s5(&[0, 5, 0, 1])],
                10 => vec![vec![0, 5, 0, 1, b'z'], s5(&[0, 5, 0, 0, 1, b'z'])],
                11 => vec![vec![0, 5], s5(&[0, 5, 0, 0x11])],
                14 => vec![vec![], s5(&[0]), s5(&[4]), s5(&[0, 0])],
                // AUTH, with a method and data or without
                15 => vec![
                    vec![],
                    s5(&[0]),
                    s5(&[0x18]),
                    s5(&[0x19]),
                    s5(&[0, 0]),
                    s5(&[0x18, 0]),
                    s5(&[0x19, 0]),
                    s5(&[0, 4, 0x15, 0, 1, b'm']),
                    s5(&[0x18, 4, 0x15, 0, 1, b'm']),
                    s5(&[0x19, 4, 0x15, 0, 1, b'm']),
                    s5(&[0x18, 8, 0x15, 0, 1, b'm', 0x16, 0, 1, b'd']),
                    s5(&[0x19, 8, 0x15, 0, 1, b'm', 0x16, 0, 1, b'd']),
                    s5(b"\x19\x10\x15\x00\x0dSCRAM-SHA-256"),
                    s5(b"\x18\x10\x15\x00\x0dSCRAM-SHA-256"),
                ],
                _ => vec![vec![], vec![0, 1]],
            };
            for body in bodies.into_iter().collect::<BTreeSet<_>>() {
                let name: &'static str = Box::leak(format!("{b:02x} {body:02x?}").into_boxed_str());
                let mut p = vec![b, body.len() as u8];
                p.extend(body);
                a.push(Op::Raw(0, name, p, RawExp::CloseWith(vec![0x81, 0x82])));
            }
        }
        both(&format!("first bytes {v:?}"), |n, cfg| explore(c, n, &cfg, 2, &prefix, &a, 2));
    }
}
fn connect_bytes(v: Ver) -> Vec<u8> {
    if v == V5 {
        mqtt_proto::v5::Packet::from(connect_v5(&ConnSpec::new("zz", v))).encode().unwrap().as_ref().to_vec()
    } else {
        mqtt_proto::v3::Packet::from(connect_v3(&ConnSpec::new("zz", v))).encode().unwrap().as_ref().to_vec()
    }
}

/// A v5 client never gets a packet above its Maximum Packet Size.
pub fn c32(c: &Arc<Check>) {
    c32_errors(c);
    const FILL: &str = "0123456789abcdefghijklmnopqrstuvwxyz";
    let fill = |n: usize| &FILL[..n];
    // a QoS 1 PUBLISH on "t" is 8 bytes plus its payload, a QoS 0 one 6
    for pv in [V5, V311] {
        let s = |m| ConnSpec::persistent("s", V5).max_packet(m).recv_max(2);
        let prefix = vec![Op::Connect(1, ConnSpec::new("p", pv)), Op::Connect(0, s(20)), sub(0, "t", q(2))];
        let a = vec![
            Op::Pub(1, publ("t", 0, 0).text(fill(14))),
            Op::Pub(1, publ("t", 0, 0).text(fill(15))),
            Op::Pub(1, publ("t", 1, 0).text(fill(12))),
            Op::Pub(1, publ("t", 1, 0).text(fill(13))),
            Op::Pub(1, publ("t", 2, 0).text(fill(22))),
            Op::Sub(0, vec![("t", q(1))], Some(5)),
            Op::Sub(0, vec![("t", q(0))], Some(300)),
            Op::Drop(0),
            Op::Connect(0, s(20)),
            Op::Connect(0, s(30)),
            Op::Ack(0, 0),
            Op::Adv(16_000),
            Op::Ping(0),
        ];
        both(&format!("sizes {pv:?}"), |n, cfg| explore(c, n, &cfg, 2, &prefix, &a, c.pick(5, 6)));
        // a topic that an alias makes shorter, and an alias that makes a packet longer
        let s = |m, al| ConnSpec::persistent("s", V5).max_packet(m).alias_max(al);
        let prefix = vec![Op::Connect(1, ConnSpec::new("p", pv)), Op::Connect(0, s(22, 2)), sub(0, "#", q(1))];
        let mut a = vec![
            Op::Pub(1, publ("t", 1, 0).text(fill(14))),
            Op::Pub(1, publ("t", 0, 0).text(fill(14))),
            Op::Pub(1, publ("long/topic", 0, 0).text(fill(6))),
            Op::Pub(1, publ("long/topic", 1, 0).text(fill(5))),
            Op::Pub(1, publ("long/topic", 1, 0).text(fill(2))),
            Op::Drop(0),
            Op::Connect(0, s(22, 2)),
            Op::Connect(0, s(19, 1)),
            Op::Ack(0, 0),
        ];
        if pv.is_v5() {
            a.push(Op::Pub(1, publ("long/topic", 0, 0).text(fill(4)).alias(1)));
            a.push(Op::Pub(1, publ("", 0, 0).text(fill(4)).alias(1)));
            a.push(Op::Pub(1, publ("", 1, 0).text(fill(7)).alias(1)));
            a.push(Op::Pub(1, publ("t", 1, 0).text("7").expiry(60)));
        }
        both(&format!("alias {pv:?}"), |n, cfg| explore(c, n, &cfg, 2, &prefix, &a, c.pick(5, 6)));
        // retained messages
        let s = |m| ConnSpec::persistent("s", V5).max_packet(m);
        let prefix = vec![Op::Connect(1, ConnSpec::new("p", pv)), Op::Connect(0, s(20))];
        let a = vec![
            Op::Pub(1, publ("t", 0, 0).text(fill(14)).retain()),
            Op::Pub(1, publ("t", 1, 0).text(fill(12)).retain()),
            Op::Pub(1, publ("t", 1, 0).text(fill(13)).retain()),
            Op::Pub(1, publ("t/u", 2, 0).text(fill(10)).retain()),
            Op::Sub(0, vec![("t", q(1))], None),
            Op::Sub(0, vec![("t", q(0))], Some(5)),
            Op::Sub(0, vec![("t/#", q(2))], Some(5)),
            Op::Drop(0),
            Op::Connect(0, s(22)),
            Op::Ack(0, 0),
        ];
        both(&format!("retained {pv:?}"), |n, cfg| explore(c, n, &cfg, 2, &prefix, &a, c.pick(5, 6)));
    }
}

/// Everything the broker says when it ends a connection, against every
/// maximum packet size around the length of what it says.
fn c32_errors(c: &Arc<Check>) {
    type Trigger = (&'static str, fn(&mut World, usize));
    let t: Vec<Trigger> = vec![
        ("publish to $x", |w, k| w.send_pub(k, &publ("$x", 0, 0), "m")),
        ("publish with a wildcard", |w, k| w.send(k, &[0x30, 5, 0, 1, b'#', 0, b'x'])),
        ("QoS 0 with DUP", |w, k| w.send(k, &[0x38, 5, 0, 1, b'a', 0, b'x'])),
        ("alias 0", |w, k| w.send_pub(k, &publ("a", 0, 0).alias(0), "m")),
        ("alias too large", |w, k| w.send_pub(k, &publ("a", 0, 0).alias(9), "m")),
        ("unknown alias", |w, k| w.send_pub(k, &publ("", 0, 0).alias(1), "m")),
        ("no topic", |w, k| w.send_pub(k, &publ("", 0, 0), "m")),
        ("QoS above the maximum", |w, k| w.send_pub(k, &publ("a", 2, 1), "m")),
        ("packet too large", |w, k| w.send_pub(k, &publ("a", 0, 0), &"m".repeat(300))),
        ("subscription identifier 0", |w, k| w.send(k, &[0x82, 9, 0, 1, 2, 0x0b, 0, 0, 1, b'a', 0])),
        ("second CONNECT", |w, k| w.send_connect(k, &ConnSpec::new("c", V5))),
        ("a server's packet", |w, k| w.send(k, &[0xd0, 0])),
        ("reserved bits", |w, k| w.send(k, &[0xc1, 0])),
        ("session expiry raised from 0", |w, k| w.send_disconnect(k, 0, Some(9))),
        ("share name with a wildcard", |w, k| w.send(k, b"\x82\x10\0\x01\0\0\x0a$share/+/a\0")),
        ("AUTH", |w, k| w.send(k, &[0xf0, 0])),
        ("taken over", |w, _| {
            let k = w.open(V5);
            w.send_connect(k, &ConnSpec::new("c", V5));
        }),
        ("silence", |w, _| w.advance(40_000)),
        ("shared subscription refused", |w, k| w.send_sub(k, 1, &[("$share/g/a", q(0))], None)),
        ("wildcard refused", |w, k| w.send_sub(k, 1, &[("a/#", q(0))], None)),
        ("unknown PUBREL", |w, k| w.send(k, &[0x62, 2, 0, 9])),
        ("unknown PUBREC", |w, k| w.send(k, &[0x50, 2, 0, 9])),
        ("PUBACK of nothing", |w, k| w.send(k, &[0x40, 2, 0, 9])),
        ("PUBCOMP of nothing", |w, k| w.send(k, &[0x70, 2, 0, 9])),
    ];
    let sizes = 120;
    let n = t.len() * sizes * 2 * 3;
    let split = |i: usize| (i % t.len(), i / t.len() % sizes + 8, i / t.len() / sizes % 2 == 0, i / t.len() / sizes / 2);
    c.explore_product("errors", "what ends the connection x maximum packet size 8..128 x hooks x problem information", n, |i| {
        let (k, max, hooks, info) = split(i);
        format!("{}, maximum {max}, hooks {hooks}, request problem information {info}", t[k].0)
    }, |i| {
        let (k, max, hooks, info) = split(i);
        let mut cfg = base_config();
        cfg.topic_alias_max = 2;
        cfg.max_allowed_qos = 1;
        cfg.max_packet_size_server = 200;
        cfg.shared_subscription_available = k % 2 == 0;
        cfg.wildcard_subscription_available = k % 2 == 0;
        let mut w = World::new(if hooks { cfg } else { no_hooks(cfg) });
        let a = w.open(V5);
        let mut p = connect_v5(&ConnSpec::new("c", V5).max_packet(max as u32).keep_alive(10));
        p.properties.request_problem_info = [None, Some(true), Some(false)][info];
        w.send_v5(a, p);
        w.quiesce();
        w.recv(a);
        w.conns[a].max_size = max;
        (t[k].1)(&mut w, a);
        w.quiesce();
        let got = w.recv(a);
        c.outcome(&format!("{} {got:?}", t[k].0));
        if let Some(p) = w.panicked() {
            return Err(format!("panic: {p}"));
        }
        match w.conns[a].wire_errors.first() {
            Some(e) => Err(format!("{e}: {got:?}")),
            None => Ok(()),
        }
    });
}

/// The broker's configured limits: announced, and enforced.
pub fn c29(c: &Arc<Check>) {
    const FILL: &str = "0123456789abcdefghijklmnopqrstuvwxyz";
    let per = |v| ConnSpec::persistent("c", v);
    // what is allowed, and what is above the limit
    for v in [V5, V311] {
        let o = |w: Ver| ConnSpec::new("o", w);
        let prefix = vec![Op::Connect(1, o(V5)), sub(1, "#", q(2)), Op::Connect(0, per(v))];
        let mut a = vec![
            sub(0, "a/+", q(2)),
            Op::Sub(0, vec![("a/b", q(1)), ("a/#", q(0)), ("$share/g/a", q(1))], None),
            Op::Pub(0, publ("a/b", 0, 0)),
            Op::Pub(0, publ("a/b", 1, 0)),
            Op::Pub(0, publ("a/b", 2, 0)),
            Op::Pub(1, publ("a/b", 0, 0)),
            Op::Pub(1, publ("a/b", 1, 0)),
            Op::Drop(0),
            Op::Connect(0, per(v)),
            Op::Connect(0, per(v).will(w("a/w", "W", 1))),
            Op::Connect(0, per(v).will(w("a/w", "W", 2))),
        ];
        if v.is_v5() {
            a.extend([
                Op::Sub(0, vec![("a/b", q(2)), ("+", q(1))], Some(7)),
                Op::Pub(0, publ("a/b", 0, 0).retain()),
                Op::Pub(0, publ("a/b", 1, 0).retain()),
                Op::Pub(0, publ("a/b", 0, 0).alias(1)),
                Op::Pub(0, publ("a/b", 1, 0).alias(2)),
                Op::Connect(0, per(v).will(WillSpec { retain: true, ..w("a/w", "W", 0) })),
            ]);
        } else {
            // a v3 client cannot be told about shared subscriptions
            a[1] = Op::Sub(0, vec![("a/b", q(1)), ("a/#", q(0))], None);
        }
        let base = || {
            let mut k = base_config();
            k.shared_subscription_available = false;
            k
        };
        for max_qos in [0, 1, 2] {
            for retain in [true, false] {
                let mut k = base();
                k.max_allowed_qos = max_qos;
                k.retain_available = retain;
                k.topic_alias_max = max_qos as u16;
                if max_qos == 1 {
                    k = no_hooks(k);
                }
                explore(c, &format!("{v:?} qos<={max_qos} retain={retain}"), &k, 2, &prefix, &a, c.pick(4, 5));
            }
        }
        let mut k = base();
        k.wildcard_subscription_available = false;
        k.max_inflight_server = 1;
        let plain = vec![Op::Connect(1, o(V5)), sub(1, "a/b", q(2)), Op::Connect(0, per(v))];
        if v.is_v5() {
            explore(c, &format!("{v:?} no wildcards"), &k, 2, &plain, &a, c.pick(4, 5));
            let mut k = no_hooks(base());
            k.subscription_id_available = false;
            k.max_inflight_server = 2;
            explore(c, &format!("{v:?} no subscription ids"), &k, 2, &prefix, &a, c.pick(4, 5));
        }
        // packet size: a v5 QoS 0 PUBLISH on "a/b" is 8 bytes plus its payload, a v3 one 7
        let mut k = base_config();
        k.max_packet_size_server = 40;
        let b = if v.is_v5() { 32 } else { 33 };
        let mut a = vec![
            Op::Pub(0, publ("a/b", 0, 0).text(&FILL[..b])),
            Op::Pub(0, publ("a/b", 0, 0).text(&FILL[..b + 1])),
            Op::Pub(0, publ("a/b", 1, 0).text(&FILL[..b - 2])),
            Op::Pub(0, publ("a/b", 2, 0).text(&FILL[..b - 1])),
            Op::Sub(0, vec![("abcdefghijklmnopqrstuvwxyz01234567890", q(0))], None),
            Op::Sub(0, vec![("abcdefghijklmnopqrstuvwxyz", q(0))], None),
            Op::Ping(0),
            Op::Drop(0),
            Op::Connect(0, per(v)),
        ];
        a.retain(|o| v.is_v5() || !matches!(o, Op::Pub(_, p) if p.qos == 2));
        both(&format!("{v:?} packets <= 40"), |n, cfg| {
            let mut k = cfg;
            k.max_packet_size_server = 40;
            explore(c, n, &k, 2, &prefix, &a, c.pick(5, 6))
        });
    }
    // session expiry: clamped however it is asked for
    for hooks in [true, false] {
        let mut k = if hooks { base_config() } else { no_hooks(base_config()) };
        k.max_session_expiry_interval = 10;
        let x = |e| ConnSpec::persistent("c", V5).expiry(e);
        let prefix = vec![Op::Connect(1, ConnSpec::new("o", V5))];
        let a = vec![
            Op::Connect(0, x(5)),
            Op::Connect(0, x(10)),
            Op::Connect(0, x(11)),
            Op::Connect(0, x(u32::MAX)),
            sub(0, "t", q(1)),
            Op::Disconnect(0, 0, Some(20)),
            Op::Disconnect(0, 0, Some(u32::MAX)),
            Op::Disconnect(0, 0, Some(3)),
            Op::Disconnect(0, 0, None),
            Op::Drop(0),
            Op::Adv(4_000),
            Op::Adv(7_000),
            Op::Pub(1, publ("t", 1, 0)),
        ];
        explore_with(c, &format!("session expiry hooks={hooks}"), &k, 2, &prefix, &a, c.pick(4, 5), true);
    }
    // what a CONNACK announces, over every combination of the limits
    let n = 3 * 2 * 2 * 2 * 2 * 3 * 2 * 3 * 2 * 3 * 3 * 2;
    let decode = |mut i: usize| {
        let mut d = |m: usize| {
            let r = i % m;
            i /= m;
            r
        };
        let mut k = base_config();
        k.max_allowed_qos = d(3) as u8;
        k.retain_available = d(2) == 0;
        k.wildcard_subscription_available = d(2) == 0;
        k.shared_subscription_available = d(2) == 0;
        k.subscription_id_available = d(2) == 0;
        k.max_inflight_server = [1, 10, 65535][d(3)];
        k.topic_alias_max = [0, 65535][d(2)];
        k.max_packet_size_server = [100, u32::MAX - 1, u32::MAX][d(3)];
        k.max_keep_alive = [30, 65535][d(2)];
        k.min_keep_alive = [0, 10][d(2) % 2];
        k.max_session_expiry_interval = [0, 10, u32::MAX][d(3)];
        let id = ["", "c"][d(2)];
        let s = ConnSpec { id, keep_alive: [0, 10, 31][d(3)], expiry: Some(11), ..ConnSpec::new("c", V5) };
        (k, s)
    };
    c.explore_product("CONNACK", "every limit at its edges x keep alive x client identifier", n, |i| format!("{:?}", decode(i).1), |i| {
        let (k, s) = decode(i);
        let mut sim = Sim::new(k, 1);
        sim.step(&Op::Connect(0, s)).map(|_| ())
    });
}
