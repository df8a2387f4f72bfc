//! Clients that do not read: whoever sends to them may have to wait, but
//! nothing is lost, nobody else is affected and nobody waits for ever.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use akasa_core::Config;
use mc_engine::Check;

use crate::model::*;
use crate::sim::*;
use crate::world::Ver::{self, *};
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    /// (client, messages, QoS) published to the topic both subscribe to
    Burst(usize, u16, u8),
    Stall(usize),
    Unstall(usize),
    Eof(usize),
    Reset(usize),
    Disconnect(usize),
    /// connect again, taking over if still connected
    Connect(usize),
    /// connect again and read little more than the CONNACK
    Deaf(usize),
    Wait,
}
use self::Act::*;

/// Client 0 has a session that ends with its connection, client 1 one that
/// stays; client 2 has nothing to do with either.
const IDS: [&str; 3] = ["p-client", "s-client", "q-client"];

#[derive(Clone, Debug)]
struct Sent {
    from: usize,
    conn: usize,
    qos: u8,
    n: u32,
    at: usize,
    acked: bool,
}
struct Scene {
    w: World,
    ver: Ver,
    /// live connection of each client
    conn: [Option<usize>; 3],
    stalled: [bool; 3],
    sent: Vec<Sent>,
    pids: BTreeMap<(usize, u16), usize>,
    next_pid: [u16; 3],
    /// what each client received: message, connection, DUP
    got: [Vec<(String, usize, bool)>; 3],
    /// when the session and the connection of each client began
    session: [usize; 3],
    since: [usize; 3],
    now: usize,
    /// long enough for a retransmission
    waited: bool,
    q_sent: u32,
    /// connections that stopped reading inside a packet
    deaf: BTreeSet<usize>,
}
impl Scene {
    fn new(cfg: Config, ver: Ver) -> Result<Scene, String> {
        let mut s = Scene {
            w: World::new(cfg),
            ver,
            conn: [None; 3],
            stalled: [false; 3],
            sent: vec![],
            pids: BTreeMap::new(),
            next_pid: [0; 3],
            got: Default::default(),
            session: [0; 3],
            since: [0; 3],
            now: 0,
            waited: false,
            q_sent: 0,
            deaf: BTreeSet::new(),
        };
        for i in 0..3 {
            s.connect(i);
            s.settle()?;
        }
        Ok(s)
    }
    fn connect(&mut self, i: usize) {
        let c = self.w.open(self.ver);
        let spec = if i == 1 { ConnSpec::persistent(IDS[i], self.ver) } else { ConnSpec::new(IDS[i], self.ver) };
        let first = i != 1 || self.now == 0;
        // the one that stays away is noticed after a while
        self.w.send_connect(c, &spec.keep_alive(if i == 1 { 10 } else { 0 }));
        if first {
            self.w.send_sub(c, 60000, &[(if i == 2 { "q" } else { "t" }, q(1))], None);
            self.session[i] = self.now;
        }
        self.conn[i] = Some(c);
        self.stalled[i] = false;
        self.since[i] = self.now;
    }
    fn leave(&mut self, i: usize) {
        // what it left behind is of no interest, but the server must end it
        if let Some(c) = self.conn[i].take() {
            self.w.conns[c].polite = true;
        }
        self.stalled[i] = false;
    }
    /// Let everyone who reads receive and acknowledge, until nothing moves.
    fn settle(&mut self) -> Result<(), String> {
        for _ in 0..200 {
            self.w.quiesce();
            let mut any = false;
            for i in 0..3 {
                let Some(c) = self.conn[i] else { continue };
                if self.stalled[i] {
                    continue;
                }
                for r in self.w.recv(c) {
                    any = true;
                    match r {
                        Rx::Pub(p) => {
                            self.got[i].push((p.payload.clone(), c, p.dup));
                            match p.qos {
                                1 => self.w.send_ack(c, 4, p.pid, 0),
                                2 => self.w.send_ack(c, 5, p.pid, 0),
                                _ => {}
                            }
                        }
                        Rx::Pubrel(p, _) => self.w.send_ack(c, 7, p, 0),
                        Rx::Puback(p, _) | Rx::Pubrec(p, _) => {
                            let Some(m) = self.pids.get(&(c, p)) else { return Err(format!("client {i}: acknowledgement of {p}, which is not in flight")) };
                            self.sent[*m].acked = true;
                            if matches!(r, Rx::Pubrec(..)) {
                                self.w.send_ack(c, 6, p, 0);
                            }
                        }
                        Rx::Closed | Rx::Disconnect(_) => {
                            if self.conn[i] == Some(c) {
                                self.leave(i);
                            }
                        }
                        Rx::Connack { code: 0, .. } | Rx::Suback(..) | Rx::Pubcomp(..) | Rx::Pingresp => {}
                        r => return Err(format!("client {i} received {r:?}")),
                    }
                }
                if let Some(e) = self.w.conns[c].wire_errors.first()
                    && !self.deaf.contains(&c)
                {
                    return Err(format!("client {i}: {e}"));
                }
            }
            if let Some(p) = self.w.panicked() {
                return Err(format!("panic: {p}"));
            }
            if !any {
                return Ok(());
            }
        }
        Err("the broker never comes to rest".into())
    }
    fn act(&mut self, op: &Act) -> Result<bool, String> {
        self.now += 1;
        match *op {
            Burst(i, n, qos) => {
                let Some(c) = self.conn[i] else { return Ok(false) };
                for _ in 0..n {
                    let no = self.sent.len() as u32;
                    let pid = if qos > 0 {
                        self.next_pid[i] += 1;
                        self.pids.insert((c, self.next_pid[i]), self.sent.len());
                        self.next_pid[i]
                    } else {
                        0
                    };
                    self.sent.push(Sent { from: i, conn: c, qos, n: no, at: self.now, acked: false });
                    self.w.send_pub(c, &publ("t", qos, pid), &format!("{no}"));
                }
            }
            Stall(i) => {
                let Some(c) = self.conn[i] else { return Ok(false) };
                if self.stalled[i] {
                    return Ok(false);
                }
                self.stalled[i] = true;
                self.w.conns[c].polite = false;
                self.w.set_window(c, Some(0));
            }
            Unstall(i) => {
                let Some(c) = self.conn[i] else { return Ok(false) };
                if !self.stalled[i] {
                    return Ok(false);
                }
                self.stalled[i] = false;
                self.w.conns[c].polite = true;
                self.w.set_window(c, None);
            }
            Eof(i) | Reset(i) | Disconnect(i) => {
                let Some(c) = self.conn[i] else { return Ok(false) };
                match op {
                    Eof(_) => self.w.eof(c),
                    Reset(_) => self.w.reset(c),
                    _ => {
                        // and close, as a client must
                        self.w.send_disconnect(c, 0, None);
                        self.w.quiesce();
                        self.w.eof(c);
                    }
                }
                self.leave(i);
            }
            Connect(i) => {
                self.leave(i);
                self.connect(i);
            }
            Deaf(i) => {
                self.leave(i);
                self.connect(i);
                let c = self.conn[i].unwrap();
                self.stalled[i] = true;
                self.w.conns[c].polite = false;
                self.w.set_window(c, Some(60));
                self.deaf.insert(c);
            }
            Wait => {
                self.waited = true;
                for _ in 0..4 {
                    for i in [0, 1, 2] {
                        if let Some(c) = self.conn[i]
                            && !self.stalled[i]
                        {
                            self.w.send_ping(c);
                        }
                    }
                    self.settle()?;
                    self.w.advance(5000);
                }
            }
        }
        self.settle()?;
        // the bystander is served as ever
        let c = self.conn[2].ok_or("the bystander lost its connection")?;
        self.q_sent += 1;
        self.w.send_pub(c, &publ("q", 0, 0), &format!("q{}", self.q_sent));
        self.settle()?;
        if self.got[2].last().map(|g| g.0.clone()) != Some(format!("q{}", self.q_sent)) {
            return Err("a client that has nothing to do with the others is not served".into());
        }
        Ok(true)
    }
    fn judge(&mut self) -> Result<(), String> {
        for i in 0..2 {
            if self.stalled[i] {
                self.act(&Unstall(i))?;
            }
        }
        self.w.advance(2500);
        self.settle()?;
        if self.conn[1].is_none() {
            self.act(&Connect(1))?;
        }
        self.w.advance(2500);
        self.settle()?;
        for i in 0..2 {
            let Some(c) = self.conn[i] else { continue };
            self.w.send_ping(c);
            self.w.quiesce();
            let got = self.w.recv(c);
            if got != [Rx::Pingresp] {
                return Err(format!("client {i} reads again and is not served: ping answered {got:?}"));
            }
        }
        for c in 0..self.w.conns.len() {
            if !self.conn.contains(&Some(c)) && self.w.alive(c) {
                return Err(format!("connection {c} is over, but the broker has not ended it"));
            }
        }
        for m in &self.sent {
            if m.qos > 0 && self.conn[m.from] == Some(m.conn) && !m.acked {
                return Err(format!("message {} of client {} is not acknowledged", m.n, m.from));
            }
        }
        for i in 0..2 {
            let mut first: BTreeMap<&str, usize> = BTreeMap::new();
            let mut last: BTreeMap<(usize, u8), u32> = BTreeMap::new();
            for (t, c, dup) in &self.got[i] {
                let m = t.parse::<usize>().ok().and_then(|n| self.sent.get(n)).ok_or(format!("client {i} received {t:?}"))?;
                match first.get(t.as_str()) {
                    Some(f) if f == c && !self.waited || !dup => return Err(format!("client {i} received message {t} twice (DUP {dup})")),
                    Some(_) => continue,
                    None => {}
                }
                first.insert(t, *c);
                let l = last.entry((m.conn, m.qos)).or_default();
                if *l > m.n {
                    return Err(format!("client {i} received message {} after {l}", m.n));
                }
                *l = m.n;
            }
            let Some(now) = self.conn[i] else { continue };
            let have: BTreeSet<&str> = first.keys().copied().collect();
            for m in &self.sent {
                let must = m.at >= self.session[i]
                    && (m.acked || self.conn[m.from] == Some(m.conn))
                    && (m.qos > 0 || m.at >= self.since[i]);
                let t = m.n.to_string();
                if must && m.at > 0 && !have.contains(t.as_str()) {
                    return Err(format!("client {i} (connection {now}) never received message {} of client {} at QoS {}", m.n, m.from, m.qos));
                }
            }
        }
        Ok(())
    }
}

pub fn run(c: &Arc<Check>) {
    let full: Vec<Act> = vec![
        Burst(0, 40, 0),
        Burst(0, 40, 1),
        Burst(0, 12, 2),
        Burst(1, 40, 0),
        Burst(1, 40, 1),
        Stall(1),
        Stall(0),
        Unstall(1),
        Unstall(0),
        Eof(1),
        Reset(1),
        Disconnect(1),
        Eof(0),
        Reset(0),
        Disconnect(0),
        Connect(1),
        Connect(0),
        Deaf(1),
        Wait,
    ];
    for ver in [V5, V311] {
        for hooks in [false, true] {
            let mut cfg = if hooks { base_config() } else { no_hooks(base_config()) };
            cfg.max_inflight_client = 100;
            cfg.min_keep_alive = 0;
            let depth = if hooks { c.pick(3, 4) } else { c.pick(4, 5) };
            for (name, prefix) in [("", &[][..]), (", one not reading", &[Stall(1)]), (", neither reading", &[Stall(0), Stall(1)])] {
                let name = format!("slow {ver:?}{}{name}", if hooks { " with hooks" } else { "" });
                c.explore_tree(&name, &full, depth, |o| format!("{o:?}"), |ops, _| {
                    let mut s = Scene::new(cfg.clone(), ver).map_err(|e| (0, e))?;
                    for p in prefix {
                        s.act(p).map_err(|e| (0, e))?;
                    }
                    for (i, op) in ops.iter().enumerate() {
                        if !s.act(op).map_err(|e| (i, e))? {
                            return Ok(Some(i));
                        }
                    }
                    s.judge().map_err(|e| (ops.len() - 1, e))?;
                    c.outcome(&format!("{:?}", s.got));
                    Ok(None)
                });
            }
        }
    }
}
