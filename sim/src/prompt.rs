//! P26: on a network that loses nothing every operation is prompt.
use crate::h;
use crate::kit::*;
use crate::oracle::*;
use crate::wire::Rel;
use rust_raknet::RaknetSocket;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use tokio::sim::{self, chance, choose, net, pick, range, MS, S, SEC};
use tokio::time::{sleep, timeout, Duration};

const ALL: &[Rel] = &[Rel::RO, Rel::R, Rel::RS, Rel::US, Rel::U];

/// Longest times seen, for the evidence and for choosing the bounds.
fn took(what: &'static str, r: u64, t: u64, rtts: u64, slack_ms: u64) -> bool {
    let limit = rtts * r + slack_ms * MS;
    let share = t * 100 / limit;
    if share > 50 {
        sim::probe(match what {
            "connect" => "over_half_connect",
            "accept" => "over_half_accept",
            "message" => "over_half_message",
            "send" => "over_half_send",
            "flush" => "over_half_flush",
            "close" => "over_half_close",
            "ping" => "over_half_ping",
            _ => "over_half_listener_close",
        });
    }
    if t > limit {
        h::viol("P26", what, format!("{}: {} ms on a network that loses nothing with a round-trip time of {} ms (limit {} ms)", what, t / MS, r / MS, limit / MS));
        return false;
    }
    true
}

/// Every message of this direction that is due has arrived in time.
fn judge(e: &Ep, r: u64, seen: &Cell<usize>) {
    let s = e.tx.0.borrow();
    let from = seen.get();
    seen.set(s.msgs.len());
    let bad: Vec<(usize, u64, Rel, usize)> = s.msgs[from..]
        .iter()
        .enumerate()
        .filter(|(_, m)| m.fate == Fate::Ok)
        .filter_map(|(i, m)| {
            let t = if m.got > 0 { m.got_t } else { sim::now() };
            let superseded = m.got == 0 && m.rel.sequenced() && s.msgs.iter().any(|x| x.rel.sequenced() && x.got > 0 && x.end > m.begin);
            if superseded {
                return None;
            }
            Some((from + i, if m.got > 0 { t - m.t0 } else { u64::MAX / 200 }, m.rel, m.len))
        })
        .collect();
    let name = s.name.clone();
    drop(s);
    sim::probe_n("messages", bad.len() as u64);
    for (i, t, rel, len) in bad {
        if t == u64::MAX / 200 {
            h::viol("P26", "message-missing", format!("{}: #{} {:?} of {} bytes has not arrived, the network loses nothing", name, i, rel, len));
            return;
        }
        if !took("message", r, t, 2, 300) {
            return;
        }
    }
}

pub fn p26(np: bool) {
    sched_plan(np);
    {
        let c = &mut sim::world().cfg;
        c.poll_cost = c.poll_cost.min(20_000);
        c.timer_slack = c.timer_slack.min(4 * MS);
    }
    let n = 1 + choose(S::Plan, 4) as usize;
    nodes(1 + n);
    let base = pick(S::Plan, &[1000 * 1000u64, 100_000, 5 * MS, 20 * MS, 50 * MS, 100 * MS, 150 * MS]);
    let r = 2 * base;
    sim::world().net.default = net::Link { base, ..Default::default() };
    h::note(format!("n={} rtt={}us", n, r / 1000));
    drive(async move {
        // nothing is lost in a receive buffer either
        for k in all_nodes() {
            sim::world().net.io.insert(k, net::IoFaults { rx_cap: 100_000, ..Default::default() });
        }
        let how = choose(S::Plan, 4);
        let srv = Server::start_how(SERVER, PORT, how & 1 > 0, how & 2 > 0).await;
        srv.spawn_accept();
        let conns: Rc<RefCell<Vec<Conn>>> = Default::default();
        let readers: Rc<RefCell<BTreeMap<(usize, bool), tokio::task::JoinHandle<()>>>> = Default::default();
        let left = Rc::new(Cell::new(n));
        let together = chance(S::Plan, 500_000);
        for k in 0..n {
            let (conns, left, srv, readers) = (conns.clone(), left.clone(), srv.clone(), readers.clone());
            let wait = if together { 0 } else { range(S::Work, 0, 8000) * MS };
            let node = 2 + k;
            let rounds = range(S::Work, 1, 5);
            let j = sim::spawn_on(0, async move {
                sleep(Duration::from_nanos(wait)).await;
                let t = sim::now();
                let addr = srv.addr;
                if chance(S::Work, 300_000) {
                    let j = sim::spawn_on(node, async move { timeout(Duration::from_secs(60), RaknetSocket::ping(&addr)).await });
                    let _ = j.await;
                    took("ping", r, sim::now() - t, 1, 200);
                }
                let t = sim::now();
                let c = match connect_on(node, addr, 60 * SEC).await {
                    Some(Ok(c)) => c,
                    x => {
                        h::viol("P26", "connect", format!("connect() on a network that loses nothing: {}", if x.is_none() { "not done after 60 s" } else { "failed" }));
                        return left.set(left.get() - 1);
                    }
                };
                took("connect", r, sim::now() - t, 4, 500);
                let a = client_addr(node, &c);
                let s = match srv.wait_for(a, 30 * SEC).await {
                    Some(s) => s,
                    None => {
                        h::viol("P26", "accept", "accept() does not return a connected client for 30 s".into());
                        return left.set(left.get() - 1);
                    }
                };
                let at = srv.got.borrow().iter().find(|x| x.0 == a).map(|x| x.2).unwrap_or(0);
                took("accept", r, at.saturating_sub(t), 4, 500);
                let (up, down) = flows(k);
                let c = Conn { k, c: Ep::new(node, Some(Rc::new(c)), up.clone(), down.clone()), s: Ep::new(SERVER, Some(s), down, up) };
                readers.borrow_mut().insert((k, true), c.c.spawn_reader());
                readers.borrow_mut().insert((k, false), c.s.spawn_reader());
                conns.borrow_mut().push(c.clone());
                let (sc, ss) = (Cell::new(0), Cell::new(0));
                for _ in 0..rounds {
                    let live = Rc::new(Cell::new(0));
                    for (i, e) in [&c.c, &c.s].into_iter().enumerate() {
                        let senders = if choose(S::Work, 3) == 0 && i == 1 { 0 } else { 1 + choose(S::Work, 2) };
                        if senders > 1 {
                            e.tx.0.borrow_mut().single_sender = false;
                        }
                        for _ in 0..senders {
                            live.set(live.get() + 1);
                            let (e, live) = (e.clone(), live.clone());
                            let style = choose(S::Work, 4);
                            let k = range(S::Work, 1, 25);
                            let huge = chance(S::Work, 30_000);
                            sim::spawn_on(e.node, async move {
                                for _ in 0..k {
                                    let rel = pick_rel(ALL);
                                    let len = if huge && rel == Rel::RO { range(S::Work, 20_000, 100_000) as usize } else { msg_len(rel).max(HDR) };
                                    let t = sim::now();
                                    if e.send(rel, len).await != Fate::Ok {
                                        break;
                                    }
                                    took("send", r, sim::now() - t, 0, 300);
                                    think(style).await;
                                }
                                if chance(S::Work, 600_000) {
                                    let t = sim::now();
                                    let s = e.s();
                                    let x = timeout(Duration::from_secs(60), s.flush()).await;
                                    if e.open() {
                                        let ok = matches!(x, Ok(Ok(())));
                                        // another sender of the same socket can keep it busy
                                        let last = e.tx.0.borrow().msgs.iter().map(|m| m.t1).max().unwrap_or(0);
                                        took("flush", r, if ok { sim::now() - t.max(last) } else { 60 * SEC }, 3, 400);
                                    }
                                }
                                live.set(live.get() - 1);
                            });
                        }
                    }
                    let l2 = live.clone();
                    if !wait_until(60 * SEC, || l2.get() == 0).await {
                        h::viol("P26", "send", "send() or flush() pending for 60 s on a network that loses nothing".into());
                        break;
                    }
                    let all = c.clone();
                    wait_until(2 * r + 400 * MS, || all.c.tx.settled() && all.s.tx.settled()).await;
                    // the last unreliable ones
                    sleep(Duration::from_nanos(2 * r + 100 * MS)).await;
                    judge(&c.c, r, &sc);
                    judge(&c.s, r, &ss);
                    h::nontrivial();
                    sleep(Duration::from_nanos(pick(S::Work, &[0u64, 0, 200, 3_000, 20_000]) * MS)).await;
                }
                left.set(left.get() - 1);
            });
            if !together {
                let _ = j.await;
            }
        }
        let l2 = left.clone();
        if !wait_until(400 * SEC, || l2.get() == 0).await {
            return h::inconclusive("long");
        }
        let mut all = std::mem::take(&mut *conns.borrow_mut());
        // ends
        while all.len() > 1 || (all.len() == 1 && chance(S::Plan, 700_000)) {
            let i = choose(S::Work, all.len() as u64) as usize;
            let c = all.swap_remove(i);
            let by_client = chance(S::Work, 500_000);
            let (me, peer) = if by_client { (&c.c, &c.s) } else { (&c.s, &c.c) };
            let dropped = chance(S::Work, 400_000);
            let t = sim::now();
            let s = me.s();
            if dropped {
                // the last handle: the reader lets go of its own, too
                drop(s);
                let key = (c.k, by_client);
                if let Some(j) = readers.borrow_mut().remove(&key) {
                    j.abort();
                    let _ = j.await;
                }
                if !by_client {
                    let a = srv.got.borrow().iter().map(|x| x.0).find(|a| a.ip() == ip(c.c.node));
                    if let Some(a) = a {
                        srv.forget(a);
                    }
                }
                me.let_go();
                sim::probe("drops");
            } else {
                let j = sim::spawn_on(me.node, async move { s.close().await });
                let _ = j.await;
                took("close", r, sim::now() - t, 0, 400);
                sim::probe("closes");
            }
            let p = peer.clone();
            wait_until(60 * SEC, || !p.open()).await;
            let end = if peer.open() { 60 * SEC } else { peer.closed_at.get().saturating_sub(t) };
            took("close", r, end, 1, 500);
        }
        srv.accepting.set(false);
        sleep(ms(300)).await;
        let t = sim::now();
        let l = srv.l.clone();
        let j = sim::spawn_on(SERVER, async move {
            let mut g = l.lock().await;
            if let Some(l) = g.as_mut() {
                let _ = timeout(Duration::from_secs(60), l.close()).await;
            }
        });
        let _ = j.await;
        took("listener-close", r, sim::now() - t, 1, 1500);
        for c in &all {
            let p = c.c.clone();
            wait_until(60 * SEC, || !p.open()).await;
            let end = if c.c.open() { 60 * SEC } else { c.c.closed_at.get().saturating_sub(t) };
            took("close", r, end, 1, 1500);
        }
        check_panics(&["P26"]);
    });
}
