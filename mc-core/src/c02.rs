//! Shared subscriptions as clients see them: who gets a message of a group,
//! how often, at which QoS and with which subscription identifiers, next to
//! the plain subscriptions of the same client.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use akasa_core::Config;
use mc_engine::Check;

use crate::model::*;
use crate::sim::*;
use crate::world::Ver::*;
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Deed {
    /// member, filter, QoS
    Sub(usize, &'static str, u8),
    Unsub(usize, &'static str),
    /// the connection is lost; the session stays
    Drop(usize),
    Back(usize),
    /// the session ends with the connection
    End(usize),
    /// publisher (0: v5, 1: v3, 2: another v5), topic, QoS
    Pub(usize, &'static str, u8),
}
use Deed::*;

const NAMES: [&str; 3] = ["A", "B", "C"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Topic,
    Client,
    Random,
}

#[derive(Clone, Default)]
struct Member {
    conn: Option<usize>,
    session: bool,
    /// filter -> QoS, subscription identifier
    subs: BTreeMap<&'static str, (u8, u32)>,
}
type Copy_ = (String, String, u8, Vec<u32>);
/// One way the groups may have chosen.
#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord)]
struct Choice {
    /// what a member without a connection has coming
    queued: [Vec<Vec<Copy_>>; 3],
    /// who got the last message of this group, by topic and publisher
    last: BTreeMap<(&'static str, &'static str, usize), usize>,
}

struct Scene {
    w: World,
    mode: Mode,
    m: [Member; 3],
    pubs: [usize; 3],
    choices: BTreeSet<Choice>,
    n: u16,
}
/// The filter a shared subscription matches with.
fn plain(f: &str) -> &str {
    match f.strip_prefix("$share/") {
        Some(r) => r.split_once('/').unwrap().1,
        None => f,
    }
}
fn matches(f: &str, t: &str) -> bool {
    match plain(f) {
        "#" => true,
        "+" => !t.contains('/'),
        f => f == t,
    }
}
impl Scene {
    fn new(cfg: &Config, mode: Mode, members: usize, seed: usize) -> Scene {
        ahash::random_state::seed_with(seed);
        // spread over the whole range
        rand::script(Some((seed as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ seed as u64));
        let mut cfg = cfg.clone();
        cfg.shared_subscription_mode = serde_json::from_str(match mode {
            Mode::Topic => "\"HashTopicName\"",
            Mode::Client => "\"HashClientId\"",
            Mode::Random => "\"Random\"",
        })
        .unwrap();
        let mut s = Scene { w: World::new(cfg), mode, m: Default::default(), pubs: [0; 3], choices: [Choice::default()].into(), n: 0 };
        for (i, v) in [V5, V311, V5].into_iter().enumerate() {
            let c = s.w.open(v);
            s.w.send_connect(c, &ConnSpec::new(["p5", "p3", "q5"][i], v));
            s.w.quiesce();
            s.pubs[i] = c;
        }
        for i in 0..members {
            s.connect(i);
        }
        for i in 0..members {
            let _ = s.w.recv(s.m[i].conn.unwrap());
        }
        s
    }
    fn connect(&mut self, i: usize) {
        let c = self.w.open(V5);
        self.w.send_connect(c, &ConnSpec::persistent(NAMES[i], V5));
        self.w.quiesce();
        self.m[i].conn = Some(c);
        self.m[i].session = true;
    }
    fn members(&self, f: &str) -> Vec<usize> {
        (0..3).filter(|&i| self.m[i].session && self.m[i].subs.contains_key(f)).collect()
    }
    /// What a message makes every member receive, if its groups choose so.
    fn copies(&self, p: usize, t: &str, q: u8, body: &str, chosen: &BTreeMap<&'static str, usize>) -> [Vec<Copy_>; 3] {
        let mut out: [Vec<Copy_>; 3] = Default::default();
        for i in 0..3 {
            let mine: Vec<(u8, u32)> = self.m[i].subs.iter().filter(|(f, _)| matches(f, t) && (!f.starts_with("$share/") || chosen[*f] == i)).map(|(_, s)| *s).collect();
            if mine.is_empty() {
                continue;
            }
            let (t, body) = (t.to_owned(), body.to_owned());
            if p == 1 {
                out[i] = mine.iter().map(|&(sq, id)| (t.clone(), body.clone(), q.min(sq), vec![id])).collect();
            } else {
                let mut ids: Vec<u32> = mine.iter().map(|s| s.1).collect();
                ids.sort();
                out[i] = vec![(t, body, q.min(mine.iter().map(|s| s.0).max().unwrap()), ids)];
            }
            out[i].sort();
        }
        out
    }
    /// None: the operation does not apply
    fn step(&mut self, d: Deed) -> Option<Result<(), String>> {
        self.n += 1;
        let mut want: BTreeSet<([Vec<Vec<Copy_>>; 3], Choice)> = BTreeSet::new();
        match d {
            Sub(i, f, q) => {
                let c = self.m[i].conn?;
                let id = self.n as u32;
                self.w.send_sub(c, self.n, &[(f, SubOpt { qos: q, ..crate::model::q(q) })], Some(id));
                self.m[i].subs.insert(f, (q, id));
            }
            Unsub(i, f) => {
                let c = self.m[i].conn?;
                self.m[i].subs.remove(f)?;
                self.w.send_unsub(c, self.n, &[f]);
            }
            Drop(i) => {
                let c = self.m[i].conn.take()?;
                self.w.eof(c);
            }
            Back(i) => {
                if self.m[i].conn.is_some() {
                    return None;
                }
                if !self.m[i].session {
                    self.m[i].subs.clear();
                }
                self.connect(i);
            }
            End(i) => {
                let c = self.m[i].conn.take()?;
                self.w.send_disconnect(c, 0, Some(0));
                self.m[i].session = false;
                self.m[i].subs.clear();
            }
            Pub(..) => {}
        }
        if let Sub(_, f, _) | Unsub(_, f) = d {
            self.choices = std::mem::take(&mut self.choices).into_iter().map(|mut c| {
                c.last.retain(|k, _| k.0 != f);
                c
            }).collect();
        }
        if let End(_) = d {
            self.choices = std::mem::take(&mut self.choices).into_iter().map(|mut c| {
                c.last.clear();
                c
            }).collect();
        }
        match d {
            Pub(p, t, q) => {
                let body = format!("m{}", self.n);
                self.w.send_pub(self.pubs[p], &publ(t, q, self.n), &body);
                let groups: Vec<&'static str> = {
                    let all: BTreeSet<&'static str> = self.m.iter().flat_map(|m| m.subs.keys().copied()).collect();
                    all.into_iter().filter(|f| f.starts_with("$share/") && matches(f, t)).collect()
                };
                for c in &self.choices {
                    let mut picks: Vec<(Choice, BTreeMap<&'static str, usize>)> = vec![(c.clone(), BTreeMap::new())];
                    for g in &groups {
                        let key = match self.mode {
                            Mode::Topic => Some((*g, t, 9)),
                            Mode::Client => Some((*g, "", p)),
                            Mode::Random => None,
                        };
                        picks = picks
                            .into_iter()
                            .flat_map(|(c, chosen)| {
                                let who = match key.and_then(|k| c.last.get(&k)) {
                                    Some(&i) => vec![i],
                                    None => self.members(g),
                                };
                                who.into_iter()
                                    .map(|i| {
                                        let (mut c, mut chosen) = (c.clone(), chosen.clone());
                                        if let Some(k) = key {
                                            c.last.insert(k, i);
                                        }
                                        chosen.insert(*g, i);
                                        (c, chosen)
                                    })
                                    .collect::<Vec<_>>()
                            })
                            .collect();
                    }
                    for (mut c, chosen) in picks {
                        let mut now: [Vec<Vec<Copy_>>; 3] = Default::default();
                        for (i, got) in self.copies(p, t, q, &body, &chosen).into_iter().enumerate() {
                            if self.m[i].conn.is_some() {
                                if !got.is_empty() {
                                    now[i].push(got);
                                }
                            } else {
                                let kept: Vec<Copy_> = got.into_iter().filter(|g| g.2 > 0).collect();
                                if !kept.is_empty() {
                                    c.queued[i].push(kept);
                                }
                            }
                        }
                        want.insert((now, c));
                    }
                }
            }
            Back(i) => {
                for c in &self.choices {
                    let mut c = c.clone();
                    let mut now: [Vec<Vec<Copy_>>; 3] = Default::default();
                    now[i] = std::mem::take(&mut c.queued[i]);
                    want.insert((now, c));
                }
            }
            _ => {
                for c in &self.choices {
                    let mut c = c.clone();
                    if let End(i) = d {
                        c.queued[i].clear();
                    }
                    want.insert((Default::default(), c));
                }
            }
        }
        self.w.quiesce();
        // what came
        let mut got: [Vec<Vec<Copy_>>; 3] = Default::default();
        for i in 0..3 {
            let Some(c) = self.m[i].conn else { continue };
            loop {
                for r in self.w.recv(c) {
                    match r {
                        Rx::Pub(p) => {
                            if p.retain || p.dup {
                                return Some(Err(format!("{} received {p:?}: neither retained nor sent before", NAMES[i])));
                            }
                            let mut ids = p.ids.clone();
                            ids.sort();
                            let one = (p.topic, p.payload, p.qos, ids);
                            match got[i].last_mut() {
                                Some(l) if l[0].1 == one.1 => l.push(one),
                                _ => got[i].push(vec![one]),
                            }
                        }
                        Rx::Closed | Rx::Disconnect(_) => return Some(Err(format!("{} was disconnected", NAMES[i]))),
                        Rx::Suback(_, codes) => match d {
                            Sub(_, _, q) if codes == [q] => {}
                            _ => return Some(Err(format!("{} received SUBACK {codes:?}", NAMES[i]))),
                        },
                        _ => {}
                    }
                }
                let acks = std::mem::take(&mut self.w.conns[c].unacked);
                if acks.is_empty() {
                    break;
                }
                for (pid, stage) in acks {
                    self.w.send_ack(c, [4, 5, 7][stage as usize], pid, 0);
                }
                self.w.quiesce();
            }
            got[i].iter_mut().for_each(|l| l.sort());
        }
        if let Some(e) = self.w.panicked() {
            return Some(Err(format!("panic: {e}")));
        }
        if let Some(e) = self.w.conns.iter().find_map(|c| c.wire_errors.first()) {
            return Some(Err(e.clone()));
        }
        let allowed: BTreeSet<_> = want.iter().map(|w| w.0.clone()).collect();
        let fits: BTreeSet<Choice> = want.into_iter().filter(|(w, _)| *w == got).map(|(_, c)| c).collect();
        if fits.is_empty() {
            return Some(Err(format!("received (topic, message, QoS, subscription identifiers) {got:?}\n   expected one of {allowed:#?}")));
        }
        self.choices = fits;
        for p in self.pubs {
            if !self.w.alive(p) {
                return Some(Err("a publisher was disconnected".into()));
            }
            let _ = self.w.recv(p);
        }
        Some(Ok(()))
    }
    fn state(&self) -> String {
        format!("{:?}", self.m.iter().map(|m| (m.conn.is_some(), m.session, m.subs.iter().map(|(f, s)| (*f, s.0)).collect::<Vec<_>>())).collect::<Vec<_>>())
    }
}

pub fn run(c: &Arc<Check>) {
    let cfg = no_hooks(base_config());
    let g = "$share/g/t";
    let starts: Vec<(&str, Vec<Deed>)> = vec![
        ("nobody", vec![]),
        ("A and B", vec![Sub(0, g, 1), Sub(1, g, 2)]),
        ("A, B and C", vec![Sub(0, g, 2), Sub(1, g, 1), Sub(2, g, 0)]),
        ("B, twice", vec![Sub(1, g, 1), Sub(1, "$share/h/+", 2), Sub(0, "t", 1)]),
    ];
    let alphabet = vec![
        Pub(0, "t", 2),
        Pub(0, "u", 1),
        Pub(1, "t", 1),
        Pub(2, "t", 0),
        Sub(0, g, 1),
        Sub(1, g, 0),
        Sub(0, "$share/h/+", 2),
        Sub(1, "$share/h/+", 1),
        Sub(0, "t", 0),
        Sub(1, "#", 2),
        Unsub(0, g),
        Unsub(1, g),
        Unsub(1, "$share/h/+"),
        Unsub(0, "t"),
        Drop(0),
        Drop(1),
        Back(0),
        Back(1),
        End(0),
        End(1),
    ];
    for (mode, seeds) in [(Mode::Topic, 2), (Mode::Client, 2), (Mode::Random, 3)] {
        for seed in 0..c.pick(seeds, seeds + 2) {
            for (name, start) in &starts {
                let members = if name.contains('C') { 3 } else { 2 };
                c.explore_tree(&format!("clients: {mode:?} {seed}, {name}"), &alphabet, c.pick(3, 4), |d| format!("{d:?}"), |ops, log| {
                    let mut s = Scene::new(&cfg, mode, members, seed);
                    for &d in start {
                        match s.step(d) {
                            Some(Ok(())) => {}
                            r => return Err((0, format!("in the beginning, {d:?}: {r:?}"))),
                        }
                    }
                    for (i, &d) in ops.iter().enumerate() {
                        if log {
                            println!("  {d:?}");
                        }
                        match s.step(d) {
                            None => return Ok(Some(i)),
                            Some(Err(e)) => return Err((i, e)),
                            Some(Ok(())) => c.state(&s.state()),
                        }
                    }
                    // everybody is there again, and a last message
                    for i in 0..members {
                        if let Some(Err(e)) = s.step(Back(i)) {
                            return Err((ops.len().saturating_sub(1), format!("{} afterwards: {e}", NAMES[i])));
                        }
                    }
                    for d in [Pub(0, "t", 2), Pub(1, "t", 2)] {
                        if let Some(Err(e)) = s.step(d) {
                            return Err((ops.len().saturating_sub(1), format!("{d:?} in the end: {e}")));
                        }
                    }
                    Ok(None)
                });
            }
        }
    }
    // over all numbers everybody of a group gets his turn
    for n in 2..=3 {
        c.run_case("clients: turns", &format!("{n} members"), || serde_json::json!(n), || {
            let mut served = BTreeSet::new();
            for i in 0..48u64 {
                let mut s = Scene::new(&cfg, Mode::Random, n, 0);
                for m in 0..n {
                    s.step(Sub(m, g, 1)).unwrap()?;
                }
                rand::script(Some((i << 60) ^ (i << 32) ^ (i << 28) ^ i));
                s.w.send_pub(s.pubs[0], &publ("t", 1, 99), "x");
                s.w.quiesce();
                for m in 0..n {
                    let c = s.m[m].conn.unwrap();
                    if s.w.recv(c).iter().any(|r| matches!(r, Rx::Pub(_))) {
                        served.insert(m);
                    }
                }
            }
            c.outcome(&format!("{served:?}"));
            if served.len() < n { Err(format!("of {n} members only {served:?} ever get a message")) } else { Ok(()) }
        });
    }
    rand::script(None);
}
