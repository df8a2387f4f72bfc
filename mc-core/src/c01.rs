//! C01 / C02: the subscription table against a plain list of subscriptions.
use crate::topics::*;
use akasa_core::mqtt_proto::{QoS, TopicFilter, TopicName};
use akasa_core::protocols::mqtt::RouteTable;
use akasa_core::verif::ClientId;
use std::sync::Arc;
use mc_engine::{Check, Outcome};
use std::collections::{BTreeMap, BTreeSet};

pub fn qos(n: u8) -> QoS {
    match n {
        0 => QoS::Level0,
        1 => QoS::Level1,
        _ => QoS::Level2,
    }
}
fn tf(s: &str) -> TopicFilter {
    TopicFilter::try_from(s.to_string()).unwrap()
}
fn tn(s: &str) -> TopicName {
    TopicName::try_from(s.to_string()).unwrap()
}

/// What one publish would be handed to: plain (filter, client, qos) and
/// groups (filter, group) -> members with their QoS.
type Plain = BTreeSet<(String, u64, u8)>;
type Groups = BTreeMap<(String, String), BTreeMap<u64, u8>>;

fn observe(t: &RouteTable, topic: &str, ids: &BTreeMap<ClientId, u64>) -> Result<(Plain, Groups), String> {
    let mut plain = BTreeSet::new();
    let mut groups = BTreeMap::new();
    for c in t.get_matches(&tn(topic)) {
        let c = c.read();
        let f = match &c.topic_filter {
            Some(f) => f.to_string(),
            None => return Err(format!("{topic:?}: a match without a filter")),
        };
        if c.clients.is_empty() && c.groups.is_empty() {
            return Err(format!("{topic:?}: empty match for {f:?}"));
        }
        for (id, q) in &c.clients {
            if !plain.insert((f.clone(), ids[id], *q as u8)) {
                return Err(format!("{topic:?}: {f:?} matched twice"));
            }
        }
        for (g, m) in &c.groups {
            let mut members = BTreeMap::new();
            // enough consecutive selectors to reach every position
            let mut first = Vec::new();
            for n in 0..60u64 {
                let (id, q) = m.get_by_number(n);
                let id = *ids.get(&id).ok_or(format!("{topic:?}: group {g} selected an unknown client"))?;
                if let Some(old) = members.insert(id, q as u8) {
                    if old != q as u8 {
                        return Err(format!("{topic:?}: group {g} has member {id} with two QoS"));
                    }
                }
                first.push(id);
            }
            // one slot per member: every selector window of that size hits everybody once
            let k = members.len();
            for w in 0..60 / k {
                let s: BTreeSet<u64> = first[w * k..(w + 1) * k].iter().copied().collect();
                if s.len() != k {
                    return Err(format!("{topic:?}: group {g} selects unevenly: {first:?}"));
                }
            }
            for n in 0..4u32 {
                let (a, _) = m.get_by_hash(n);
                let (b, _) = m.get_by_hash(n);
                if a != b || !ids.get(&a).is_some_and(|i| members.contains_key(i)) {
                    return Err(format!("{topic:?}: group {g}: hash selection is unstable or leaves the group"));
                }
            }
            if groups.insert((f.clone(), g.clone()), members).is_some() {
                return Err(format!("{topic:?}: group {g} of {f:?} matched twice"));
            }
        }
    }
    Ok((plain, groups))
}

#[derive(Clone, Debug)]
pub enum Op {
    Sub(&'static str, u64, u8),
    Unsub(&'static str, u64),
}
fn show(o: &Op) -> String {
    match o {
        Op::Sub(f, c, q) => format!("sub({f},c{c},q{q})"),
        Op::Unsub(f, c) => format!("unsub({f},c{c})"),
    }
}

fn run_seq(c: &Check, ops: &[Op], topics: &[&str]) -> Outcome {
    let t = RouteTable::default();
    let ids: BTreeMap<ClientId, u64> = (0..6).map(|i| (ClientId::new(i), i)).collect();
    let mut subs: BTreeMap<(String, u64), u8> = BTreeMap::new();
    for op in ops {
        c.transition();
        match op {
            Op::Sub(f, id, q) => {
                t.subscribe(&tf(f), ClientId::new(*id), qos(*q));
                subs.insert((f.to_string(), *id), *q);
            }
            Op::Unsub(f, id) => {
                t.unsubscribe(&tf(f), ClientId::new(*id));
                subs.remove(&(f.to_string(), *id));
            }
        }
    }
    c.state(&format!("{subs:?}"));
    // only the final table is examined: every prefix is an execution of its own
    for topic in topics {
        let mut plain = BTreeSet::new();
        let mut groups: Groups = BTreeMap::new();
        for ((f, id), q) in &subs {
            match shared(f) {
                Some((g, inner)) => {
                    if matches(inner, topic) {
                        groups.entry((inner.to_string(), g.to_string())).or_default().insert(*id, *q);
                    }
                }
                None => {
                    if matches(f, topic) {
                        plain.insert((f.clone(), *id, *q));
                    }
                }
            }
        }
        let (p, g) = observe(&t, topic, &ids)?;
        if p != plain || g != groups {
            return Err(format!("publish to {topic:?}: table gives {p:?} {g:?}, the subscriptions are {plain:?} {groups:?}"));
        }
    }
    Ok(())
}

pub fn run_c01(c: &Arc<Check>) {
    c.assume("filters and topics are valid MQTT strings; single-threaded (concurrent use is C04)");
    let topics = ["a", "b", "a/b", "b/b", "a/", "/", "/a", "//", "a/b/c", "a/b/b", "a/a", "$x", "$x/a", "$x/a/b", "a/$x", "é", "ab"];
    // histories on nested and overlapping filters
    let mut alpha = vec![];
    for f in ["a", "a/b", "#", "a/#", "+", "a/+"] {
        alpha.push(Op::Sub(f, 0, 1));
        alpha.push(Op::Unsub(f, 0));
    }
    for f in ["a", "a/b", "a/#"] {
        alpha.push(Op::Sub(f, 1, 0));
        alpha.push(Op::Unsub(f, 1));
    }
    alpha.push(Op::Sub("a", 0, 2));
    c.explore_seqs("histories-nested", &alpha, c.pick(5, 6), show, |_, _| true, |ops| run_seq(c, ops, &topics));
    let mut alpha = vec![];
    for f in ["/", "/+", "+/#", "+/+", "a//b", "$x/#", "$x/a", "+/a", "a/+/b", "a/b/#", "é"] {
        alpha.push(Op::Sub(f, 0, 1));
        alpha.push(Op::Unsub(f, 0));
        alpha.push(Op::Sub(f, 1, 2));
    }
    let topics2 = ["/", "//", "a/", "/a", "a", "a/a", "a//b", "a/b/b", "a/b", "a/b/c/d", "$x", "$x/a", "$x/a/b", "é", "é/a", ""];
    let topics2: Vec<&str> = topics2.iter().copied().filter(|s| !s.is_empty()).collect();
    c.explore_seqs("histories-edge", &alpha, c.pick(3, 4), show, |_, _| true, |ops| run_seq(c, ops, &topics2));
    // the matching relation itself
    let names = ["", "a", "b", "$a"];
    let levels = c.pick(4, 5);
    let filters = all_filters(&names, levels);
    let tops = all_topics(&names, levels);
    let ids: BTreeMap<ClientId, u64> = [(ClientId::new(0), 0), (ClientId::new(1), 1)].into();
    c.explore_product("matching", "every filter of <=4 (5) levels over {'',a,b,$a,+,#} against every topic over {'',a,b,$a}", filters.len(), |i| filters[i].clone(), |i| {
        let f = &filters[i];
        let t = RouteTable::default();
        t.subscribe(&tf(f), ClientId::new(0), QoS::Level1);
        c.transitions_add(tops.len() as u64);
        for topic in &tops {
            let (p, _) = observe(&t, topic, &ids)?;
            let want = matches(f, topic);
            if want != (p.len() == 1) {
                return Err(format!("filter {f:?} and topic {topic:?}: matched {p:?}, expected {want}"));
            }
        }
        c.state(f);
        t.unsubscribe(&tf(f), ClientId::new(0));
        for topic in &tops {
            if !t.get_matches(&tn(topic)).is_empty() {
                return Err(format!("filter {f:?} still matches {topic:?} after the unsubscribe"));
            }
        }
        Ok(())
    });
    // every pair of filters at once, then one of them removed
    let filters = all_filters(&["a", "b", ""], 3);
    let tops = all_topics(&["a", "b", ""], 4);
    let n = filters.len();
    c.explore_product("pairs", "every ordered pair of filters of <=3 levels; both present, then the first removed", n * n, |i| format!("{} & {}", filters[i / n], filters[i % n]), |i| {
        let (f, g) = (&filters[i / n], &filters[i % n]);
        if f == g {
            return Ok(());
        }
        let t = RouteTable::default();
        t.subscribe(&tf(f), ClientId::new(0), QoS::Level1);
        t.subscribe(&tf(g), ClientId::new(1), QoS::Level2);
        c.transitions_add(3);
        for round in 0..2 {
            for topic in &tops {
                let (p, _) = observe(&t, topic, &ids)?;
                let mut want = BTreeSet::new();
                if round == 0 && matches(f, topic) {
                    want.insert((f.clone(), 0, 1));
                }
                if matches(g, topic) {
                    want.insert((g.clone(), 1, 2));
                }
                if p != want {
                    return Err(format!("topic {topic:?} (round {round}): {p:?}, expected {want:?}"));
                }
            }
            t.unsubscribe(&tf(f), ClientId::new(0));
        }
        Ok(())
    });
}

pub fn run_c02_table(c: &Check) {
    // one group, four members
    let mut alpha = vec![];
    for m in 0..4 {
        alpha.push(Op::Sub("$share/g/a", m, (m % 3) as u8));
    }
    for m in 0..4 {
        alpha.push(Op::Unsub("$share/g/a", m));
    }
    alpha.push(Op::Sub("$share/g/a", 0, 2));
    let topics = ["a", "a/b", "$x"];
    c.explore_seqs("one-group", &alpha, c.pick(6, 7), show, |_, _| true, |ops| run_seq(c, ops, &topics));
    // overlapping groups and filters, shared next to plain
    let mut alpha = vec![];
    for f in ["$share/g/a", "$share/h/a", "$share/g/+", "$share/g/#", "$share/g/a/b", "a"] {
        for m in 0..2 {
            alpha.push(Op::Sub(f, m, 1));
            alpha.push(Op::Unsub(f, m));
        }
    }
    c.explore_seqs("several-groups", &alpha, c.pick(4, 5), show, |_, _| true, |ops| run_seq(c, ops, &["a", "a/b", "b", "$x", "$share/g/a"]));
}
