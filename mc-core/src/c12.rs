//! Keep alive: a silent client is disconnected, one that talks is not.
use std::sync::Arc;

use mc_engine::Check;

use crate::model::*;
use crate::sim::*;
use crate::world::Ver::{self, *};
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Ping,
    Pub,
    /// half a packet: not a packet
    Half,
    /// acknowledge the oldest delivery
    Ack,
    /// traffic towards the client only
    Inbound,
    /// tenths of the keep alive interval pass
    Adv(u64),
    Drop,
    Disconnect,
    /// reconnect with this keep alive
    Connect(u16),
    /// a second connection of the same client takes over
    Takeover(u16),
}

struct Side {
    ka: u64,
    last: u64,
    half: bool,
}

fn run_one(c: &Check, ver: Ver, hooks: bool, lim: (u16, u16), ka0: u16, ops: &[K], log: bool) -> Result<Option<usize>, (usize, String)> {
    let mut cfg = if hooks { base_config() } else { no_hooks(base_config()) };
    cfg.min_keep_alive = lim.0;
    cfg.max_keep_alive = lim.1;
    let eff = |ka: u16| if ver.is_v5() { ka.clamp(lim.0, lim.1) } else { ka };
    let mut w = World::new(cfg);
    // the watcher never goes silent (its keep alive is 0 where that means off)
    let watcher = w.open(V311);
    w.send_connect(watcher, &ConnSpec::new("watch", V311));
    w.send_sub(watcher, 1, &[("will", q(0))], None);
    w.quiesce();
    w.recv(watcher);
    let unit = ka0.max(1) as u64 * 100;
    let mut now = 0u64;
    let mut conn: Option<(usize, Side)> = None;
    let mut pid = 0;
    // what happens when an operation is over: closed exactly if due
    let connect = |w: &mut World, ka: u16, now: u64| -> Result<(usize, Side), String> {
        let x = w.open(ver);
        let will = WillSpec { topic: "will", payload: "will", qos: 0, retain: false, delay: 0, expiry: None };
        w.send_connect(x, &ConnSpec::new("c", ver).keep_alive(ka).will(will));
        w.quiesce();
        let got = w.recv(x);
        if got != [Rx::Connack { sp: false, code: 0 }] {
            return Err(format!("not admitted: {got:?}"));
        }
        if let Some(p) = w.conns[x].last_connack.clone() {
            let want = (eff(ka) != ka).then_some(eff(ka));
            if p.server_keep_alive != want {
                return Err(format!("CONNACK says server keep alive {:?}, expected {want:?}", p.server_keep_alive));
            }
        }
        w.send_sub(x, 1, &[("t", q(1))], None);
        w.quiesce();
        w.recv(x);
        Ok((x, Side { ka: eff(ka) as u64 * 1000, last: now, half: false }))
    };
    let all: Vec<K> = std::iter::once(K::Connect(ka0)).chain(ops.iter().copied()).collect();
    for (j, op) in all.iter().enumerate() {
        let i = j.saturating_sub(1);
        let e = |s: String| (i, s);
        let mut wills = 0;
        let live = conn.is_some();
        match *op {
            K::Connect(_) if live => return Ok(Some(i)),
            K::Takeover(_) | K::Ping | K::Pub | K::Half | K::Ack | K::Inbound | K::Drop | K::Disconnect if !live => return Ok(Some(i)),
            K::Connect(ka) => conn = Some(connect(&mut w, ka, now).map_err(e)?),
            K::Takeover(ka) => {
                let (old, _) = conn.take().unwrap();
                conn = Some(connect(&mut w, ka, now).map_err(e)?);
                wills = 1;
                let got = w.recv(old);
                if got.last() != Some(&Rx::Closed) {
                    return Err(e(format!("the replaced connection is not closed: {got:?}")));
                }
            }
            K::Ping | K::Pub | K::Ack => {
                let (x, s) = conn.as_mut().unwrap();
                if s.half {
                    return Ok(Some(i));
                }
                let want = match op {
                    K::Ping => {
                        w.send_ping(*x);
                        Rx::Pingresp
                    }
                    K::Pub => {
                        pid += 1;
                        w.send_pub(*x, &publ("nobody", 1, pid), "x");
                        Rx::Puback(pid, 0)
                    }
                    _ => {
                        if w.conns[*x].unacked.is_empty() {
                            return Ok(Some(i));
                        }
                        let (p, _) = w.conns[*x].unacked.remove(0);
                        w.send_ack(*x, 4, p, 0);
                        Rx::Closed
                    }
                };
                s.last = now;
                w.quiesce();
                let got = w.recv(*x);
                let ok = match (&want, &got[..]) {
                    (Rx::Closed, []) => true,
                    (Rx::Puback(p, _), [Rx::Puback(g, k)]) => p == g && (*k == 0 || *k == 0x10),
                    (w, [g]) => w == g,
                    _ => false,
                };
                if !ok {
                    return Err(e(format!("expected {want:?}, observed {got:?}")));
                }
            }
            K::Half => {
                let (x, s) = conn.as_mut().unwrap();
                if s.half {
                    return Ok(Some(i));
                }
                s.half = true;
                w.send(*x, &[0x30, 20, 0]);
                w.quiesce();
            }
            K::Inbound => {
                let (x, _) = conn.as_ref().unwrap();
                w.send_pub(watcher, &publ("t", 1, 500 + i as u16), "in");
                w.quiesce();
                w.recv(watcher);
                let got = w.recv(*x);
                if !matches!(got[..], [Rx::Pub(_)]) {
                    return Err(e(format!("expected one delivery, observed {got:?}")));
                }
            }
            K::Adv(tenths) => {
                let ms = tenths * unit;
                let mut left = ms;
                while left > 0 {
                    // fine steps, so that a closing is noticed when it happens
                    let step = left.min((unit / 2).clamp(50, 500));
                    w.advance(step);
                    left -= step;
                    now += step;
                    let Some((x, s)) = &conn else { continue };
                    let silent = now - s.last;
                    // resends of unacknowledged deliveries may arrive meanwhile
                    let got: Vec<Rx> = w.recv(*x).into_iter().filter(|r| !matches!(r, Rx::Pub(_))).collect();
                    let closed = got.last() == Some(&Rx::Closed);
                    if !closed && !got.is_empty() {
                        return Err(e(format!("unexpected {got:?}")));
                    }
                    if closed && (s.ka == 0 || 2 * silent <= 3 * s.ka) {
                        return Err(e(format!("closed after {silent} ms of silence with a keep alive of {} ms", s.ka)));
                    }
                    if !closed && s.ka > 0 && silent > 2 * s.ka + 2 * step {
                        return Err(e(format!("still open after {silent} ms of silence with a keep alive of {} ms", s.ka)));
                    }
                    if closed {
                        conn = None;
                        wills = 1;
                    }
                }
            }
            K::Drop => {
                let (x, _) = conn.take().unwrap();
                w.eof(x);
                w.quiesce();
                wills = 1;
                w.recv(x);
            }
            K::Disconnect => {
                if conn.as_ref().unwrap().1.half {
                    return Ok(Some(i));
                }
                let (x, _) = conn.take().unwrap();
                w.send_disconnect(x, 0, None);
                w.quiesce();
                w.recv(x);
            }
        }
        if log {
            println!("  {op:?} at {now} ms: {}", if conn.is_some() { "connected" } else { "not connected" });
        }
        let got = w.recv(watcher);
        if got.iter().filter(|r| matches!(r, Rx::Pub(p) if p.payload == "will")).count() != wills {
            return Err(e(format!("expected {wills} will message(s), the watcher observed {got:?}")));
        }
        let online = 1 + conn.is_some() as u64;
        if w.global.online_clients_count() != online {
            return Err(e(format!("{} clients counted online, {online} are", w.global.online_clients_count())));
        }
        if let Some(p) = w.panicked() {
            return Err(e(format!("panic: {p}")));
        }
        c.state(&(ver, conn.as_ref().map(|(_, s)| (s.ka, (now - s.last) / unit, s.half))));
    }
    Ok(None)
}

pub fn run(c: &Arc<Check>) {
    let a = |ka: u16, other: u16| {
        vec![
            K::Ping,
            K::Pub,
            K::Half,
            K::Ack,
            K::Inbound,
            K::Adv(4),
            K::Adv(7),
            K::Adv(13),
            K::Drop,
            K::Disconnect,
            K::Connect(ka),
            K::Connect(other),
            K::Takeover(ka),
            K::Takeover(other),
        ]
    };
    for ver in [V5, V311, V310] {
        for (lim, ka, other) in [((0, u16::MAX), 4, 11), ((0, u16::MAX), 4, 0), ((10, 20), 4, 50), ((0, u16::MAX), 1, 3)] {
            if !ver.is_v5() && lim.0 > 0 {
                // v3 has no way to impose another interval
                continue;
            }
            let deep = if lim.0 == 0 && ka == 4 { c.pick(5, 6) } else { c.pick(4, 5) };
            let hooks = ka == 4 && other != 0;
            let name = format!("{ver:?}, keep alive {ka} or {other}, server limits {lim:?}, hooks {hooks}");
            c.explore_tree(&name, &a(ka, other), deep, |k| format!("{k:?}"), |ops, log| run_one(c, ver, hooks, lim, ka, ops, log));
        }
    }
    // the clamp, over every interval around the limits
    let vals = [0u16, 1, 9, 10, 11, 19, 20, 21, 65534, 65535];
    let lims = [(0, u16::MAX), (10, u16::MAX), (10, 20), (0, 20), (20, 20)];
    c.explore_product("clamp", "interval x limits x version", vals.len() * lims.len() * 2, |i| format!("{} {:?}", vals[i % 10], lims[i / 10 % 5]), |i| {
        let ver = if i / 50 == 0 { V5 } else { V311 };
        run_one(c, ver, true, lims[i / 10 % 5], vals[i % 10], &[K::Ping], false).map(|_| ()).map_err(|e| e.1)
    });
}
