//! Racing connections of one client: several CONNECTs, ends of connections and
//! traffic at once, under every order of the tasks involved.
use std::sync::Arc;

use akasa_core::mqtt_proto::TopicName;
use mc_engine::{Check, Chooser};

use crate::c04::pin;
use crate::model::*;
use crate::sim::*;
use crate::world::Ver::{self, *};
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum E {
    /// open a connection of the client, with a persistent session
    Open,
    /// the same with a clean session
    Clean,
    /// the nth connection of the client is lost
    Eof(usize),
    Disconnect(usize),
    Ping(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Init {
    Nothing,
    Online,
    OnlineClean,
    Offline,
}

struct One {
    conn: usize,
    got: Vec<Rx>,
    ended: bool,
    goodbye: bool,
}

fn applies(init: Init, ev: &[E]) -> bool {
    let mut open: Vec<bool> = if init == Init::Nothing { vec![] } else { vec![init != Init::Offline] };
    for e in ev {
        match e {
            E::Open | E::Clean => open.push(true),
            E::Eof(n) | E::Disconnect(n) => match open.get_mut(*n) {
                Some(o) if *o => *o = false,
                _ => return false,
            },
            E::Ping(n) => match open.get(*n) {
                Some(true) => {}
                _ => return false,
            },
        }
    }
    open.len() <= 4 && ev.iter().any(|e| matches!(e, E::Open | E::Clean | E::Eof(_) | E::Disconnect(_)))
}

const WILLS: [&str; 6] = ["will0", "will1", "will2", "will3", "will4", "will5"];

fn open(w: &mut World, all: &mut Vec<One>, ver: Ver, clean: bool) {
    let x = w.open(ver);
    let n = all.len();
    let mut s = if clean { ConnSpec::new("c", ver) } else { ConnSpec::persistent("c", ver) };
    s = s.will(WillSpec { topic: "will", payload: WILLS[n], qos: 0, retain: false, delay: 0, expiry: None });
    w.send_connect(x, &s);
    all.push(One { conn: x, got: vec![], ended: false, goodbye: false });
}

/// With `ch` the tasks of a burst run on threads of their own, else the order
/// of the tasks is chosen.
fn scenario(c: &Check, ver: Ver, hooks: bool, init: Init, batches: &[&[E]], mut ch: Option<&mut Chooser>) -> Result<(), String> {
    let cfg = if hooks { base_config() } else { no_hooks(base_config()) };
    let mut w = World::new(cfg);
    let watcher = w.open(V5);
    w.send_connect(watcher, &ConnSpec::new("watch", V5));
    w.send_sub(watcher, 1, &[("will", q(0))], None);
    w.quiesce();
    w.recv(watcher);
    let mut wills: Vec<String> = vec![];
    let mut all: Vec<One> = vec![];
    if init != Init::Nothing {
        open(&mut w, &mut all, ver, init == Init::OnlineClean);
        w.quiesce();
        w.send_sub(all[0].conn, 1, &[("t", q(1))], None);
        if init == Init::Offline {
            w.quiesce();
            w.eof(all[0].conn);
            all[0].ended = true;
        }
        w.quiesce();
    }
    for b in batches {
        for e in *b {
            match *e {
                E::Open | E::Clean => open(&mut w, &mut all, ver, *e == E::Clean),
                E::Eof(n) => {
                    w.eof(all[n].conn);
                    all[n].ended = true;
                }
                E::Disconnect(n) => {
                    w.send_disconnect(all[n].conn, 0, None);
                    all[n].ended = true;
                    all[n].goodbye = true;
                }
                E::Ping(n) => {
                    w.send_ping(all[n].conn);
                    w.send_pub(all[n].conn, &publ("x", 1, 7), "x");
                }
            }
        }
        match &mut ch {
            Some(ch) => {
                let mut who: Vec<usize> = all.iter().map(|o| o.conn).filter(|&k| w.alive(k)).collect();
                if ch.choose(2) == 1 {
                    who.reverse();
                }
                w.race(&who, true, ch)?;
                w.quiesce();
            }
            None => w.quiesce_chosen(),
        }
    }
    w.advance(1500);
    let mut note = |w: &mut World| {
        for r in w.recv(watcher) {
            if let Rx::Pub(p) = r {
                wills.push(p.payload);
            }
        }
    };
    note(&mut w);
    for o in &mut all {
        o.got = w.recv(o.conn);
        if let Some(e) = w.conns[o.conn].wire_errors.first() {
            return Err(format!("connection {}: {e}", o.conn));
        }
    }
    if let Some(p) = w.panicked() {
        return Err(format!("panic: {p}"));
    }
    let admitted = |o: &One| matches!(o.got.first(), Some(Rx::Connack { code: 0, .. }));
    let mut live = None;
    for (n, o) in all.iter().enumerate() {
        let closed = o.got.last() == Some(&Rx::Closed);
        if !closed && !admitted(o) {
            return Err(format!("CONNECT {n} is neither answered nor closed: {:?}", o.got));
        }
        if o.ended && !closed {
            return Err(format!("connection {n} never ended"));
        }
        if !closed {
            if let Some(m) = live {
                return Err(format!("connections {m} and {n} both serve the client"));
            }
            live = Some(n);
        }
    }
    if let Some(n) = live {
        w.send_ping(all[n].conn);
        w.quiesce();
        let got = w.recv(all[n].conn);
        if got != [Rx::Pingresp] {
            return Err(format!("connection {n} is open but not served: {got:?}"));
        }
    }
    let online = 1 + live.is_some() as u64;
    if w.global.online_clients_count() != online {
        return Err(format!("{} clients counted online, {online} are", w.global.online_clients_count()));
    }
    let total = w.global.clients_count();
    if total > 2 || total < online as usize {
        return Err(format!("{total} clients registered, {online} connected"));
    }
    let t = TopicName::try_from("t").unwrap();
    let subs = w.global.route_table.get_matches(&t).iter().map(|m| m.read().clients.len()).sum::<usize>();
    if subs > total - 1 {
        return Err(format!("{subs} subscriptions on \"t\" for {} session(s)", total - 1));
    }
    // a new connection is always served, and replaces whatever is left
    open(&mut w, &mut all, ver, true);
    w.quiesce();
    let p = all.len() - 1;
    all[p].got = w.recv(all[p].conn);
    if all[p].got != [Rx::Connack { sp: false, code: 0 }] {
        return Err(format!("a later connection of the client is not served: {:?}", all[p].got));
    }
    w.send_pub(watcher, &publ("t", 0, 0), "m");
    w.quiesce();
    let got = w.recv(all[p].conn);
    if !got.is_empty() {
        return Err(format!("a clean session starts with {got:?}"));
    }
    if (w.global.clients_count(), w.global.online_clients_count()) != (2, 2) {
        return Err(format!("in the end {} clients ({} online) are counted, 2 are connected", w.global.clients_count(), w.global.online_clients_count()));
    }
    if let Some(n) = live {
        let got = w.recv(all[n].conn);
        if got.last() != Some(&Rx::Closed) {
            return Err(format!("connection {n} was replaced but not closed: {got:?}"));
        }
    }
    note(&mut w);
    drop(note);
    if let Some(p) = w.panicked() {
        return Err(format!("panic: {p}"));
    }
    for (n, o) in all.iter().enumerate() {
        let k = wills.iter().filter(|x| *x == WILLS[n]).count();
        let ok = if n == p {
            k == 0
        } else if !admitted(o) {
            // closed before it was served: whether it counts as connected is open
            k <= 1
        } else if o.goodbye {
            // taken over before its DISCONNECT was read, or not
            k <= 1
        } else {
            k == 1
        };
        if !ok {
            return Err(format!("the will of connection {n} was published {k} times"));
        }
    }
    c.state(&(ver, init as u8, all.iter().map(|o| o.got.clone()).collect::<Vec<_>>()));
    c.outcome(&(live, total, wills));
    Ok(())
}

pub fn run(c: &Arc<Check>) {
    let a = [E::Open, E::Clean, E::Eof(0), E::Eof(1), E::Disconnect(0), E::Disconnect(1), E::Ping(0)];
    let mut seqs: Vec<Vec<E>> = vec![];
    for i in a {
        for j in a {
            seqs.push(vec![i, j]);
            for k in a {
                seqs.push(vec![i, j, k]);
            }
        }
    }
    let mut jobs: Vec<(Ver, bool, Init, Vec<Vec<E>>)> = vec![];
    let mut twice = vec![];
    for ver in [V5, V311] {
        for hooks in [true, false] {
            for init in [Init::Nothing, Init::Online, Init::OnlineClean, Init::Offline] {
                for s in &seqs {
                    if applies(init, s) {
                        jobs.push((ver, hooks, init, vec![s.clone()]));
                    }
                }
                for x in seqs.iter().filter(|s| s.len() == 2) {
                    for y in seqs.iter().filter(|s| s.len() == 2) {
                        if applies(init, &[&x[..], &y[..]].concat()) {
                            twice.push((ver, hooks, init, vec![x.clone(), y.clone()]));
                        }
                    }
                }
            }
        }
    }
    let threads = jobs.clone();
    for (name, bound, jobs) in [("one burst", c.pick(3, 4), jobs), ("two bursts", c.pick(1, 2), twice)] {
        let n = jobs.len() as u32;
        c.explore_choices_from(name, bound, (0..n).map(|i| vec![i]).collect(), |ch: &mut Chooser| {
            let (ver, hooks, init, s) = &jobs[ch.choose(n as usize)];
            ch.note(format!("{ver:?} hooks={hooks} {init:?}: {s:?}"));
            let b: Vec<&[E]> = s.iter().map(|x| &x[..]).collect();
            with_chooser(ch, || scenario(c, *ver, *hooks, *init, &b, None)).map_err(|e| format!("{ver:?} hooks={hooks} {init:?} {s:?}: {e}"))
        });
    }
    let all = c.pick(false, true);
    for (name, bound, len) in [("two on threads", 2, 2), ("three on threads", 1, 3)] {
        let jobs: Vec<_> = threads.iter().filter(|j| (all || !j.1) && j.3[0].len() == len).collect();
        let n = jobs.len() as u32;
        c.explore_choices_from(name, bound, (0..n).flat_map(|i| [vec![i, 0], vec![i, 1]]).collect(), |ch: &mut Chooser| {
            let (ver, hooks, init, s) = &jobs[ch.choose(n as usize)];
            ch.note(format!("{ver:?} hooks={hooks} {init:?}: {s:?}"));
            let b: Vec<&[E]> = s.iter().map(|x| &x[..]).collect();
            pin();
            scenario(c, *ver, *hooks, *init, &b, Some(ch)).map_err(|e| format!("{ver:?} hooks={hooks} {init:?} {s:?}: {e}"))
        });
    }
}
