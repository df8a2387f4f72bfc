//! Connections on several threads: whatever the threads do between two locks
//! or channel operations, the result is that of one after the other.
use std::cell::Cell;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, OnceLock};

use mqtt_proto::TopicName;
use mc_engine::{Check, Chooser};

use crate::model::*;
use crate::sim::*;
use crate::world::Ver::{self, *};
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Deed {
    Sub(&'static str),
    Unsub(&'static str),
    /// topic, retained, empty
    Pub(&'static str, bool, bool),
    Eof,
    Disconnect,
    /// a new connection of the same client, clean or not
    Again(bool),
    /// the first connection of a further client
    New,
    Bad,
}
use Deed::*;

/// Which filters a client holds before the race.
type Subs = &'static [&'static str];
#[derive(Clone, Copy, Debug)]
struct Init {
    a: Subs,
    b: Subs,
    retained: bool,
    persistent: bool,
    vers: [Ver; 3],
    /// decides which of two members of a group gets a message
    seed: usize,
}
#[derive(Clone, Debug)]
struct Job {
    init: Init,
    /// who does what: 0 and 1 subscribe, 2 publishes, 3 is new
    ops: Vec<(usize, Deed)>,
}

struct Scene {
    w: World,
    /// every connection with its client's name
    conns: Vec<(usize, &'static str)>,
    got: Vec<Vec<String>>,
    shared: Vec<String>,
}
const IDS: [&str; 4] = ["a", "b", "p", "n"];

fn text(r: &Rx) -> String {
    match r {
        Rx::Pub(p) => format!("{} {} q{} r{} {:?}", p.topic, p.payload, p.qos, p.retain as u8, p.rest),
        // "no matching subscribers" is a hint
        Rx::Puback(_, c) => format!("puback {}", if *c == 16 { 0 } else { *c }),
        r => format!("{r:?}"),
    }
}
impl Scene {
    fn new(j: &Job) -> Scene {
        ahash::random_state::seed_with(j.init.seed);
        let mut cfg = no_hooks(base_config());
        cfg.shared_subscription_mode = serde_json::from_str("\"HashTopicName\"").unwrap();
        let mut s = Scene { w: World::new(cfg), conns: vec![], got: vec![], shared: vec![] };
        for i in 0..3 {
            s.connect(i, j, false);
            s.w.quiesce();
            let c = s.conns[i].0;
            let subs: Subs = [j.init.a, j.init.b, &[]][i];
            for f in subs {
                s.w.send_sub(c, 1, &[(f, q(1))], None);
            }
            s.w.quiesce();
        }
        if j.init.retained {
            let c = s.conns[2].0;
            let mut p = publ("x/y", 0, 0);
            p.retain = true;
            s.w.send_pub(c, &p, "old");
            s.w.quiesce();
        }
        s.collect();
        for g in &mut s.got {
            g.clear();
        }
        s.shared.clear();
        s
    }
    fn connect(&mut self, who: usize, j: &Job, clean: bool) {
        let ver = *j.init.vers.get(who).unwrap_or(&V5);
        let c = self.w.open(ver);
        let spec = if j.init.persistent && !clean { ConnSpec::persistent(IDS[who], ver) } else { ConnSpec::new(IDS[who], ver) };
        self.w.send_connect(c, &spec);
        self.conns.push((c, IDS[who]));
        self.got.push(vec![]);
    }
    /// What each client received. What a connection that ends still gets of
    /// the messages of the moment is open; a session that stays gets them when
    /// it resumes.
    fn collect(&mut self) {
        for (i, (c, _)) in self.conns.iter().enumerate() {
            let got = self.w.recv(*c);
            let closed = got.contains(&Rx::Closed);
            for r in got {
                if closed && matches!(r, Rx::Pub(_)) {
                    continue;
                }
                let t = text(&r);
                // any member of the group will do
                if t.starts_with("s ") {
                    self.shared.push(t);
                } else {
                    self.got[i].push(t);
                }
            }
        }
    }
    fn input(&mut self, j: &Job, n: usize) {
        let (who, op) = j.ops[n];
        let c = self.conns.iter().rev().find(|c| c.1 == IDS[who]).map_or(0, |c| c.0);
        match op {
            Sub(f) => self.w.send_sub(c, 20 + n as u16, &[(f, q(1))], None),
            Unsub(f) => self.w.send_unsub(c, 20 + n as u16, &[f]),
            Pub(t, retain, empty) => {
                let mut p = publ(t, 1, 20 + n as u16);
                p.retain = retain;
                let body = ["m0", "m1", "m2", "m3"][n];
                self.w.send_pub(c, &p, if empty { "" } else { body });
            }
            Eof => self.w.eof(c),
            Disconnect => self.w.send_disconnect(c, 0, None),
            Again(clean) => self.connect(who, j, clean),
            New => self.connect(3, j, true),
            Bad => self.w.send(c, &[0xf7, 0]),
        }
    }
    /// Everything there is to see once all is quiet, with what later traffic
    /// shows about the state left behind.
    fn outcome(mut self, j: &Job) -> Result<(String, Vec<String>), String> {
        self.w.quiesce();
        self.w.advance(1500);
        self.collect();
        // a message that is stored while somebody subscribes may come as the
        // stored one, as a new one, or both; and the one it replaces may too
        let overlap = j.ops.iter().any(|o| matches!(o.1, Sub(_))) && j.ops.iter().any(|o| matches!(o.1, Pub(_, true, _)));
        for (g, (_, who)) in self.got.iter_mut().zip(&self.conns) {
            // one publisher's messages come in the order they were sent
            let m: Vec<&str> = g.iter().filter_map(|t| t.split(' ').nth(1)).filter(|t| t.starts_with('m')).collect();
            if !overlap && !m.is_sorted() {
                return Err(format!("out of order for {who}: {g:?}"));
            }
            g.sort();
            if overlap {
                for t in g.iter_mut() {
                    *t = t.replace(" r1 ", " r0 ");
                }
                g.dedup();
                g.retain(|t| !t.contains(" old ") && !t.contains("  q"));
            }
        }
        self.shared.sort();
        let mut out = format!("{:?}", self.got);
        for g in &mut self.got {
            g.clear();
        }
        let mut shared = std::mem::take(&mut self.shared);
        out += &format!(" clients {}/{}", self.w.global.online_clients_count(), self.w.global.clients_count());
        // what is subscribed
        let probe = self.w.open(V5);
        self.w.send_connect(probe, &ConnSpec::new("probe", V5));
        for t in ["x/y", "x", "s"] {
            self.w.send_pub(probe, &publ(t, 1, 9), "probe");
        }
        self.w.quiesce();
        if j.init.persistent {
            for who in [0, 1] {
                let last = self.conns.iter().rev().find(|c| c.1 == IDS[who]).unwrap().0;
                if !self.w.alive(last) {
                    self.connect(who, j, false);
                    self.w.quiesce();
                }
            }
        }
        self.collect();
        let (probes, late): (Vec<String>, Vec<String>) = std::mem::take(&mut self.shared).into_iter().partition(|t| t.starts_with("s probe "));
        shared.extend(late);
        out += &format!(" probe {:?} {}", self.got, probes.len());
        for g in &mut self.got {
            g.clear();
        }
        // what is retained
        self.w.send_sub(probe, 1, &[("#", q(0))], None);
        self.w.quiesce();
        let mut r: Vec<String> = self.w.recv(probe).iter().map(text).collect();
        r.sort();
        out += &format!(" retained {r:?}");
        // everybody leaves
        for (c, _) in self.conns.clone() {
            self.w.eof(c);
        }
        self.w.quiesce();
        for t in ["x/y", "x", "s"] {
            self.w.send_pub(probe, &publ(t, 0, 0), "last");
        }
        self.w.quiesce();
        let r: Vec<String> = self.w.recv(probe).iter().map(text).collect();
        let topics: Vec<usize> = ["x/y", "x", "s"]
            .iter()
            .map(|t| self.w.global.route_table.get_matches(&(*t).try_into().unwrap()).iter().map(|m| m.read().clients.len() + m.read().groups.len()).sum())
            .collect();
        out += &format!(" in the end {r:?} {topics:?} {}/{}", self.w.global.online_clients_count(), self.w.global.clients_count());
        for c in &self.w.conns {
            if let Some(e) = c.wire_errors.first() {
                return Err(e.clone());
            }
        }
        match self.w.panicked() {
            Some(p) => Err(format!("panic: {p}")),
            None => Ok((out, shared)),
        }
    }
}

/// What the operations may lead to, one after the other.
fn sequential(j: &Job) -> BTreeSet<String> {
    let n = j.ops.len();
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        orders = orders.iter().flat_map(|o| (0..n).filter(|i| !o.contains(i)).map(|i| [&o[..], &[i]].concat()).collect::<Vec<_>>()).collect();
    }
    let mut set = BTreeSet::new();
    // what one client does it does in this order
    let at = |o: &[usize], i: usize| o.iter().position(|&k| k == i);
    orders.retain(|o| (0..n).all(|i| (0..i).all(|k| j.ops[i].0 != j.ops[k].0 || at(o, k) < at(o, i))));
    for o in orders {
        let mut s = Scene::new(j);
        let mut ids = vec![0; n];
        for i in o {
            s.input(j, i);
            if matches!(j.ops[i].1, Again(_) | New) {
                ids[i] = s.conns.len() - 1;
            }
            s.w.quiesce();
        }
        // renumber: the connections opened in the race in order of the operations
        let news: Vec<usize> = (0..n).filter(|&i| ids[i] > 0).map(|i| ids[i]).collect();
        let base = 3;
        let conns = s.conns.clone();
        for (k, &id) in news.iter().enumerate() {
            s.conns[base + k] = conns[id];
        }
        if let Ok((t, _)) = s.outcome(j) {
            set.insert(t);
        }
    }
    set
}

/// The threads of one execution take turns, so they may as well share a
/// processor: handing over is much cheaper then.
pub fn pin() {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    thread_local! {
        static DONE: Cell<bool> = const { Cell::new(false) };
    }
    if DONE.with(|d| d.replace(true)) {
        return;
    }
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
        if let Some(&cpu) = cpus.get(NEXT.fetch_add(1, Ordering::SeqCst) % cpus.len().max(1)) {
            let mut one: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(cpu, &mut one);
            libc::sched_setaffinity(0, size_of_val(&one), &one);
        }
    }
}

fn race(c: &Check, j: &Job, expected: &BTreeSet<String>, last_first: bool, ch: &mut Chooser) -> Result<(), String> {
    pin();
    let mut s = Scene::new(j);
    for i in 0..j.ops.len() {
        s.input(j, i);
    }
    let mut who: Vec<usize> = s.conns.iter().map(|c| c.0).collect();
    if last_first {
        who.reverse();
    }
    s.w.race(&who, j.init.persistent, ch)?;
    let (got, shared) = s.outcome(j)?;
    c.outcome(&got);
    // one copy for the group, and certainly if nobody of it is coming or going
    let sent = j.ops.iter().filter(|o| matches!(o.1, Pub("s", ..))).count();
    let group = [j.init.a, j.init.b].iter().zip(j.init.vers).any(|(f, v)| v == V5 && f.contains(&"$share/g/s"));
    let calm = !j.ops.iter().any(|o| matches!(o.1, Sub("$share/g/s") | Unsub("$share/g/s") | Eof | Disconnect | Again(_) | Bad));
    let copies: BTreeSet<&String> = shared.iter().collect();
    if copies.len() < shared.len() || copies.len() > sent || (calm && group && shared.len() < sent) {
        return Err(format!("{sent} messages for the group, delivered: {shared:?}"));
    }
    if !expected.contains(&got) {
        return Err(format!("observed {got}\n   expected one of {expected:#?}"));
    }
    Ok(())
}

pub fn run(c: &Arc<Check>) {
    let subs: [Subs; 4] = [&[], &["x/y"], &["x/+", "x/y"], &["$share/g/s"]];
    let side = [Sub("x/y"), Sub("x/+"), Sub("$share/g/s"), Unsub("x/y"), Unsub("x/+"), Unsub("$share/g/s"), Eof, Disconnect, Again(true), Again(false), Bad];
    let push = [Pub("x/y", false, false), Pub("x", false, false), Pub("s", false, false), Pub("x/y", true, false), Pub("x/y", true, true), Pub("x", true, false), New];
    let mut jobs = vec![];
    for vers in [[V5, V5, V5], [V311, V5, V311], [V311, V5, V5], [V5, V311, V311]] {
        for persistent in [false, true] {
            for retained in [false, true] {
                for a in subs {
                    for b in subs {
                        let init = Init { a, b, retained, persistent, vers, seed: 0 };
                        for x in side {
                            if let Unsub(f) = x && !a.contains(&f) {
                                continue;
                            }
                            for y in push {
                                jobs.push(Job { init, ops: vec![(0, x), (2, y)] });
                            }
                            for y in side {
                                if let Unsub(f) = y && !b.contains(&f) {
                                    continue;
                                }
                                jobs.push(Job { init, ops: vec![(0, x), (1, y)] });
                            }
                        }
                    }
                }
            }
        }
    }
    // what makes no difference to the two operations is left out
    jobs.retain(|j: &Job| {
        let any = |f: fn(&Deed) -> bool| j.ops.iter().any(|o| f(&o.1));
        (!j.init.persistent || any(|d| matches!(d, Eof | Disconnect | Again(_) | Bad)))
            && (!j.init.retained || any(|d| matches!(d, Sub("x/y" | "x/+") | Pub(_, true, _))))
    });
    // a message between protocol versions
    jobs.retain(|j: &Job| {
        j.init.vers == [V5; 3] || j.init.vers == [V311, V5, V311] || (j.init.b.is_empty() && !j.init.retained && matches!(j.ops[1], (2, Pub("x/y", ..))))
    });
    // both choices among two members
    let pick = |seed| {
        ahash::random_state::seed_with(seed);
        let t: TopicName = "s".try_into().unwrap();
        ahash::RandomState::default().hash_one(&t) % 2
    };
    let other = (1..).find(|&s| pick(s) != pick(0)).unwrap();
    ahash::random_state::seed_with(0);
    let both = |s: &Subs| s.contains(&"$share/g/s");
    for i in 0..jobs.len() {
        let mut j = jobs[i].clone();
        let joins = j.ops.iter().any(|o| o.1 == Sub("$share/g/s"));
        if (both(&j.init.a) && both(&j.init.b)) || (joins && (both(&j.init.a) || both(&j.init.b))) {
            j.init.seed = other;
            jobs.push(j);
        }
    }
    let three: Vec<Job> = jobs
        .iter()
        .filter(|j| j.ops[1].0 == 1 && j.init.vers[0] == V5)
        .flat_map(|j| {
            push.iter().map(|&p| {
                let mut j = j.clone();
                j.ops.push((2, p));
                j
            })
        })
        .collect();
    let two: Vec<Job> = jobs
        .iter()
        .filter(|j| matches!(j.ops[1], (2, Pub(..))))
        .flat_map(|j| {
            push.iter().filter(|p| **p != New).map(|&p| {
                let mut j = j.clone();
                j.ops.push((2, p));
                j
            })
        })
        .collect();
    let few = c.pick(true, false);
    let mut three = three;
    let mut two = two;
    if few {
        two.retain(|j| j.init.b.len() < 2 && !j.init.retained && j.init.vers[0] == V5);
        three.retain(|j| j.init.b.len() < 2 && !j.init.retained && !j.init.persistent && j.init.a != subs[2]);
    }
    for (name, bound, jobs) in [("pairs", c.pick(1, 2), jobs), ("two messages in a row", 1, two), ("triples", c.pick(0, 1), three)] {
        let n = jobs.len() as u32;
        let expected: Vec<OnceLock<BTreeSet<String>>> = (0..n).map(|_| OnceLock::new()).collect();
        let starts = (0..n).flat_map(|i| [vec![i, 0], vec![i, 1]]).collect();
        c.explore_choices_from(name, bound, starts, |ch: &mut Chooser| {
            let i = ch.choose(n as usize);
            let last_first = ch.choose(2) == 1;
            let j = &jobs[i];
            ch.note(format!("{j:?}"));
            let e = expected[i].get_or_init(|| sequential(j));
            race(c, j, e, last_first, ch).map_err(|e| format!("{j:?}: {e}"))
        });
    }
}
