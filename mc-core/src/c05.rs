//! C05: the outgoing queue of one session (window, order, retransmission).
use crate::clock;
use akasa_core::mqtt_proto::{Pid, QoS};
use akasa_core::protocols::mqtt::{PendingPacketStatus as St, PendingPackets};
use std::sync::Arc;
use mc_engine::{Check, Outcome};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// Queue the next message (QoS 1 / 2).
    Push(u8),
    /// The sender's pass: everything that is ready now, in order.
    Send,
    /// The peer acknowledges the k-th oldest outstanding packet identifier.
    Ack(u8, usize),
    Rec(usize),
    Comp(usize),
    /// An acknowledgement for a packet that was never sent.
    AckUnknown,
    /// 14 s / 15 s of silence.
    Wait(u64),
    Clean,
    /// The connection was re-established.
    Reset,
    Window(u16),
}

#[derive(Clone, Debug, PartialEq, Hash)]
enum S {
    New,
    Rec,
    Done,
}
#[derive(Clone, Debug)]
struct E {
    pid: u16,
    q: u8,
    s: S,
    sent_at: Option<u64>,
    payload: u32,
}

pub fn run_seq(c: &Check, ops: &[Op], window: u16, cap: usize, timeout: u64) -> Outcome {
    clock::with_virtual(|| {
        let mut p: PendingPackets<u32> = PendingPackets::new(window, cap, timeout);
        let mut win = window as usize;
        let mut q: Vec<E> = vec![]; // in queue order, completed ones at the front trimmed by Clean
        let mut next = 1u16;
        let mut full_ok = 0u32;
        for (step, op) in ops.iter().enumerate() {
            c.transition();
            let now = clock::now_ms() / 1000;
            match *op {
                Op::Push(qos) => {
                    let pid = next;
                    next += 1;
                    let full = p.push_back(Pid::try_from(pid).unwrap(), pid as u32 * 10);
                    let live = q.iter().filter(|e| e.s != S::Done).count();
                    if full {
                        // only a queue that really holds `cap` entries may refuse
                        if q.len() < cap {
                            return Err(format!("step {step}: refused a packet while holding {live} of {cap}"));
                        }
                        full_ok += 1;
                    } else {
                        if live >= cap {
                            return Err(format!("step {step}: accepted a packet beyond the limit {cap}"));
                        }
                        q.push(E { pid, q: qos, s: S::New, sent_at: None, payload: pid as u32 * 10 });
                    }
                }
                Op::Send => {
                    let mut start = 0;
                    let mut seen: Vec<u16> = vec![];
                    let mut guard = 0;
                    let mut fresh = false;
                    while let Some((idx, st)) = p.get_ready_packet(start) {
                        guard += 1;
                        if guard > 50 {
                            return Err(format!("step {step}: the sending pass does not end"));
                        }
                        let unix = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
                        start = idx + 1;
                        match st {
                            St::New { pid, packet, last_sent, dup, .. } => {
                                let e = q.iter_mut().find(|e| e.pid == pid.value()).ok_or("unknown packet offered")?;
                                if e.s != S::New {
                                    return Err(format!("step {step}: PUBLISH {} offered in state {:?}", e.pid, e.s));
                                }
                                if e.payload != *packet {
                                    return Err(format!("step {step}: packet {} carries another packet's content", e.pid));
                                }
                                if e.sent_at.is_some_and(|t| now < t + timeout) {
                                    return Err(format!("step {step}: PUBLISH {} offered again after {}s (timeout {timeout})", e.pid, now - e.sent_at.unwrap()));
                                }
                                fresh |= e.sent_at.is_none();
                                e.sent_at = Some(now);
                                seen.push(e.pid);
                                *last_sent = unix;
                                *dup = true;
                            }
                            St::Pubrec { pid, last_sent } => {
                                let e = q.iter_mut().find(|e| e.pid == pid.value()).ok_or("unknown packet offered")?;
                                if e.s != S::Rec {
                                    return Err(format!("step {step}: PUBREL {} offered in state {:?}", e.pid, e.s));
                                }
                                if e.sent_at.is_some_and(|t| now < t + timeout) {
                                    return Err(format!("step {step}: PUBREL {} offered again too early", e.pid));
                                }
                                e.sent_at = Some(now);
                                seen.push(e.pid);
                                *last_sent = unix;
                            }
                            St::Complete => return Err(format!("step {step}: a completed packet was offered")),
                        }
                    }
                    if !seen.windows(2).all(|w| w[0] < w[1]) {
                        return Err(format!("step {step}: offered out of order: {seen:?}"));
                    }
                    // window: a first transmission must not exceed it
                    let out = q.iter().filter(|e| e.s != S::Done && e.sent_at.is_some()).count();
                    if fresh && out > win {
                        return Err(format!("step {step}: {out} packets outstanding, window {win}"));
                    }
                    // progress: what is due and within the window must have been offered
                    let horizon = q.iter().take(win).filter(|e| e.s != S::Done);
                    for e in horizon {
                        if e.sent_at.is_none() || now >= e.sent_at.unwrap() + timeout {
                            return Err(format!("step {step}: packet {} is due and inside the window but was not offered", e.pid));
                        }
                    }
                }
                Op::Ack(_, k) | Op::Rec(k) | Op::Comp(k) => {
                    let live: Vec<usize> = (0..q.len()).filter(|i| q[*i].s != S::Done && q[*i].sent_at.is_some()).collect();
                    let Some(&i) = live.get(k) else { continue };
                    let pid = Pid::try_from(q[i].pid).unwrap();
                    match op {
                        Op::Ack(..) => {
                            if q[i].q != 1 {
                                continue;
                            }
                            let r = p.complete(pid, QoS::Level1);
                            if i < win && !r {
                                return Err(format!("step {step}: PUBACK for outstanding {} not recognised", pid.value()));
                            }
                            if r {
                                q[i].s = S::Done;
                            }
                        }
                        Op::Rec(_) => {
                            if q[i].q != 2 {
                                continue;
                            }
                            let r = p.pubrec(pid);
                            if q[i].s == S::New {
                                if i < win && !r {
                                    return Err(format!("step {step}: PUBREC for outstanding {} not recognised", pid.value()));
                                }
                                if r {
                                    q[i].s = S::Rec;
                                    q[i].sent_at = Some(now);
                                }
                            }
                        }
                        _ => {
                            if q[i].q != 2 {
                                continue;
                            }
                            let r = p.complete(pid, QoS::Level2);
                            if r != (q[i].s == S::Rec) && i < win {
                                return Err(format!("step {step}: PUBCOMP for {} in state {:?} returned {r}", pid.value(), q[i].s));
                            }
                            if r {
                                q[i].s = S::Done;
                            }
                        }
                    }
                }
                Op::AckUnknown => {
                    let pid = Pid::try_from(999).unwrap();
                    if p.complete(pid, QoS::Level1) || p.complete(pid, QoS::Level2) || p.pubrec(pid) {
                        return Err(format!("step {step}: an unknown identifier was acknowledged"));
                    }
                }
                Op::Wait(s) => clock::advance_ms(s * 1000),
                Op::Clean => {
                    p.clean_complete();
                    while q.first().is_some_and(|e| e.s == S::Done) {
                        q.remove(0);
                    }
                }
                Op::Reset => {
                    p.reset_last_sent();
                    for e in &mut q {
                        e.sent_at = None;
                    }
                }
                Op::Window(w) => {
                    p.set_max_inflight(w);
                    win = w as usize;
                }
            }
            let live = q.iter().filter(|e| e.s != S::Done).count();
            if p.len() < live {
                return Err(format!("step {step}: {} entries kept, {live} are unacknowledged", p.len()));
            }
            if live > 0 && p.is_empty() {
                return Err(format!("step {step}: queue reports empty with {live} unacknowledged"));
            }
            if *op == Op::Clean && live == 0 && !p.is_empty() {
                return Err(format!("step {step}: everything is acknowledged but {} entries stay", p.len()));
            }
        }
        c.state(&format!("{:?}", q.iter().map(|e| (e.q, e.s.clone(), e.sent_at.is_some())).collect::<Vec<_>>()));
        c.outcome(&format!("{:?}{full_ok}", q.iter().map(|e| (e.pid, e.s.clone(), e.sent_at)).collect::<Vec<_>>()));
        Ok(())
    })
}

pub fn run(c: &Arc<Check>) {
    let alpha = [
        Op::Push(1),
        Op::Push(2),
        Op::Send,
        Op::Ack(1, 0),
        Op::Ack(1, 1),
        Op::Rec(0),
        Op::Rec(1),
        Op::Comp(0),
        Op::Comp(1),
        Op::Clean,
        Op::Wait(14),
        Op::Wait(15),
        Op::Reset,
        Op::AckUnknown,
    ];
    c.explore_seqs("window2-cap4", &alpha, c.pick(6, 7), |o| format!("{o:?}"), |_, _| true, |ops| run_seq(c, ops, 2, 4, 15));
    let small = [Op::Push(1), Op::Push(2), Op::Send, Op::Ack(1, 0), Op::Rec(0), Op::Comp(0), Op::Clean, Op::Wait(15)];
    c.explore_seqs("window1-cap2", &small, c.pick(7, 8), |o| format!("{o:?}"), |_, _| true, |ops| run_seq(c, ops, 1, 2, 15));
    let mut wide = vec![Op::Push(1), Op::Push(2), Op::Send, Op::Ack(1, 1), Op::Ack(1, 2), Op::Rec(1), Op::Comp(1), Op::Clean, Op::Window(1), Op::Window(3)];
    wide.push(Op::Reset);
    c.explore_seqs("window-changes", &wide, c.pick(6, 7), |o| format!("{o:?}"), |_, _| true, |ops| run_seq(c, ops, 3, 5, 15));
}
