//! Long histories: connections whose packets and frames are numbered from just
//! before a place where a counter runs over, through the guarded hook of the
//! library (`--cfg rksim`). All other scenarios start at 0.
use crate::h;
use crate::kit::*;
use crate::oracle::*;
use crate::hostile;
use crate::misc;
use crate::session::{self, Sess};
use crate::wire::{self, Rel};
use crate::wirep;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use tokio::sim::{self, chance, choose, net, pick, range, MS, S, SEC};
use tokio::time::sleep;

const ALL: &[Rel] = &[Rel::RO, Rel::R, Rel::RS, Rel::US, Rel::U];

fn start() {
    let edge = pick(S::Plan, &[1u32 << 24, 1 << 24, 1 << 16, 3 << 24, 1 << 23, 1 << 15, 255 << 24, 0x1800000]);
    let back = pick(S::Plan, &[range(S::Plan, 1, 30), range(S::Plan, 20, 300)]) as u32;
    wire::set_first(edge - back);
    h::adopt();
    h::note(format!("first={:#x}-{}", edge, back));
    sim::probe(match edge {
        0x10000 | 0x8000 => "edge_16_bit",
        0x800000 | 0x1800000 => "edge_half",
        _ => "edge_24_bit",
    });
}
pub fn sess(np: bool) {
    start();
    session::run(np, Sess { mix: ALL, monitor: true, max_clients: 2, ..Sess::default() })
}
pub fn ordered(np: bool) {
    start();
    session::run(np, Sess { mix: &[Rel::RO], monitor: true, max_clients: 1, hit: Hit::Full, ..Sess::default() })
}
pub fn outage(np: bool) {
    start();
    session::outage(np, ALL)
}
pub fn interop(np: bool) {
    start();
    wirep::p19(np)
}
pub fn wire_peer(np: bool) {
    start();
    wirep::p18_peer(np)
}
pub fn recovery(np: bool) {
    start();
    wirep::p22(np)
}
pub fn nack(np: bool) {
    start();
    wirep::p22_nack(np)
}
pub fn abuse(np: bool) {
    start();
    hostile::p14_abuse(np)
}
pub fn damaged(np: bool) {
    start();
    hostile::p14_session(np)
}
pub fn flush(np: bool) {
    start();
    misc::p06(np)
}

/// Really sends more messages than a 16-bit counter can number on one
/// connection, of one or of all reliabilities, whole or fragmented.
pub fn long_mix(_np: bool) {
    calm_sched();
    let c = &mut sim::world().cfg;
    c.max_polls = 60_000_000;
    c.max_time = 20_000 * SEC;
    nodes(2);
    let loss = pick(S::Plan, &[0u32, 0, 500, 5_000]);
    let dup = pick(S::Plan, &[0u32, 0, 10_000]);
    sim::world().net.default = net::Link { base: pick(S::Plan, &[50_000u64, 400_000]), loss, dup, ..Default::default() };
    let mix: &'static [Rel] = match choose(S::Plan, 5) {
        0 => &[Rel::RO],
        1 => &[Rel::R],
        2 => &[Rel::RS, Rel::US],
        3 => &[Rel::U, Rel::RO],
        _ => ALL,
    };
    // of 100 ordered messages
    let large = pick(S::Plan, &[0u64, 3, 100]);
    let from_server = chance(S::Plan, 500_000);
    h::note(format!("loss={} dup={} mix={:?} large={} from_server={}", loss, dup, mix, large, from_server));
    drive(async move {
        h::adopt();
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let conns = match session::connect_all(&srv, 1, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        let (tx, rx) = if from_server { (conns[0].s.clone(), conns[0].c.clone()) } else { (conns[0].c.clone(), conns[0].s.clone()) };
        let total = 65_536 + range(S::Work, 50, 3000) as u32;
        // reliability of every message, what has arrived
        let rels: Rc<RefCell<Vec<(Rel, usize)>>> = Default::default();
        let got: Rc<RefCell<Vec<u8>>> = Rc::new(RefCell::new(vec![0; total as usize + 2]));
        let bad = Rc::new(RefCell::new(String::new()));
        let count = Rc::new(Cell::new(0u32));
        let (r2, g2, b2, n2, s) = (rels.clone(), got.clone(), bad.clone(), count.clone(), rx.s());
        sim::spawn_on(rx.node, async move {
            let (mut next_ro, mut last_seq) = (0usize, None);
            while let Ok(d) = s.recv().await {
                n2.set(n2.get() + 1);
                let mut b = b2.borrow_mut();
                if !b.is_empty() {
                    continue;
                }
                let rels = r2.borrow();
                let id = if d.len() >= HDR { u32::from_be_bytes(d[5..9].try_into().unwrap()) as usize } else { usize::MAX };
                if id >= rels.len() || d != payload(77, id as u32, rels[id].1) {
                    *b = format!("received {}, which has not been sent", net::hex(&d));
                    continue;
                }
                let mut g = got2(&g2, id);
                let rel = rels[id].0;
                match rel {
                    Rel::RO => {
                        while next_ro < id && rels[next_ro].0 != Rel::RO {
                            next_ro += 1;
                        }
                        if next_ro != id {
                            *b = format!("ordered message #{} received, the next one is #{}", id, next_ro);
                        }
                        next_ro = id + 1;
                    }
                    Rel::RS | Rel::US => {
                        if last_seq.map_or(false, |l| l >= id) {
                            *b = format!("sequenced message #{} received after #{:?}", id, last_seq);
                        }
                        last_seq = Some(id);
                    }
                    _ => {}
                }
                g += 1;
                if g > 1 && rel != Rel::U {
                    *b = format!("message #{} ({:?}) received {} times", id, rel, g);
                }
                g2.borrow_mut()[id] = g;
            }
        });
        let s = tx.s();
        let r2 = rels.clone();
        let flushed = Rc::new(Cell::new(false));
        let f2 = flushed.clone();
        let j = sim::spawn_on(tx.node, async move {
            for i in 0..total {
                let rel = pick_rel(mix);
                let len = if rel == Rel::RO && choose(S::Work, 100) < large {
                    range(S::Work, 1341, 2900) as usize
                } else {
                    range(S::Work, HDR as u64, 40) as usize
                };
                r2.borrow_mut().push((rel, len));
                if s.send(&payload(77, i, len), reliability(rel)).await.is_err() {
                    return i;
                }
                if i % 40 == 39 {
                    sleep(ms(2)).await;
                }
                // (what piles up behind a lost ordered message takes the library quadratic time)
                if i % 2000 == 1999 && s.flush().await.is_err() {
                    return i;
                }
            }
            f2.set(s.flush().await.is_ok());
            total
        });
        let done = Rc::new(Cell::new(false));
        let d2 = done.clone();
        let sent: Rc<RefCell<Option<Result<u32, tokio::task::JoinError>>>> = Default::default();
        let s2 = sent.clone();
        sim::spawn_on(0, async move {
            let r = j.await;
            *s2.borrow_mut() = Some(r);
            d2.set(true);
        });
        wait_until(15_000 * SEC, || done.get()).await;
        let arrived = |i: usize| got.borrow()[i] > 0;
        let last_seq = |from: usize| (from..rels.borrow().len()).any(|k| matches!(rels.borrow()[k].0, Rel::RS | Rel::US) && arrived(k));
        sleep(ms(2000)).await;
        check_panics(&["P25"]);
        match sent.borrow_mut().take() {
            None => h::viol("P25", "long-history", format!("send() or flush() has not returned, {} of {} messages have arrived", count.get(), total)),
            Some(Err(_)) => h::viol("P25", "long-history", "send() panicked".into()),
            Some(Ok(n)) if n < total || !flushed.get() => h::viol("P25", "long-history", format!("send() or flush() failed after {} messages", n)),
            _ => {
                let lost = (0..total as usize).find(|i| {
                    !arrived(*i)
                        && match rels.borrow()[*i].0 {
                            Rel::RO | Rel::R => true,
                            Rel::RS => !last_seq(i + 1),
                            _ => false,
                        }
                });
                if let Some(i) = lost {
                    h::viol("P25", "long-history", format!("flush() returned Ok, but message #{} of {} ({:?}) did not arrive", i, total, rels.borrow()[i].0));
                }
            }
        }
        if !bad.borrow().is_empty() {
            h::viol("P25", "long-history", bad.borrow().clone());
        }
        sim::probe("16_bits_of_messages");
        h::nontrivial();
    });
}
fn got2(g: &Rc<RefCell<Vec<u8>>>, i: usize) -> u8 {
    g.borrow()[i]
}

/// One message is lost and reported missing hundreds of times, in a few runs
/// more often than 16 bits can count, while the connection is otherwise alive.
pub fn resends(np: bool) {
    sched_plan(np);
    let c = &mut sim::world().cfg;
    c.max_polls = 60_000_000;
    c.max_time = 20_000 * SEC;
    nodes(2);
    let rp = harness_node();
    let rtt = range(S::Plan, 1, 40);
    sim::world().net.default = net::Link { base: rtt * MS / 2, ..Default::default() };
    let lib_is_client = chance(S::Plan, 500_000);
    let rounds = match choose(S::Plan, 12) {
        0 => 65_536 + range(S::Plan, 10, 100),
        1..=3 => range(S::Plan, 1000, 3000),
        _ => range(S::Plan, 257, 600),
    };
    if rounds > 60_000 {
        calm_sched();
    }
    h::note(format!("rtt={}ms client={} rounds={}", rtt, lib_is_client, rounds));
    drive(async move {
        h::adopt();
        let pr = match wirep::pair(rp, lib_is_client, false, Default::default(), 30 * SEC).await {
            Ok(p) => p,
            Err(e) => {
                h::note(e);
                return h::no_connect("connect");
            }
        };
        pr.ep.spawn_reader();
        hostile::pump_inbox(&pr.p, &pr.down);
        let me = pr.ep.clone();
        let tag = me.tx.tag();
        let first = me.tx.len() as u32;
        // transmissions of the message, the number of the last one
        let seen = Rc::new(Cell::new((0u64, 0u32)));
        {
            let seen = seen.clone();
            let src = me.node;
            sim::world().net.filter = Some(Box::new(move |p| {
                if p.src_node == src && wirep::ids_of(&p.data).contains(&(tag, first)) {
                    let n = seen.get().0 + 1;
                    seen.set((n, p.data[1] as u32 | (p.data[2] as u32) << 8 | (p.data[3] as u32) << 16));
                    if n <= rounds {
                        return net::Action::Drop;
                    }
                }
                net::Action::Pass
            }));
        }
        me.send(pick_rel(&[Rel::RO, Rel::R, Rel::RS]), range(S::Work, HDR as u64, 900) as usize).await;
        let mut reported = 0;
        while reported < rounds {
            let want = reported + 1;
            if !wait_until(3 * SEC, || seen.get().0 >= want).await {
                h::viol("P25", "resend", format!("after {} reports that it is missing, a message is not sent again within 3 s", reported));
                return;
            }
            let (n, q) = seen.get();
            pr.p.send_raw(&wire::records_pkt(0xa0, &[(q, q)])).await;
            reported = n;
        }
        for _ in 0..3 {
            me.send(Rel::RO, range(S::Work, HDR as u64, 3000) as usize).await;
        }
        if !wait_until(30 * SEC, || pr.down.settled()).await {
            h::viol("P25", "resend", format!("a message that was lost {} times does not arrive once the network delivers", rounds));
        }
        sim::probe(if rounds > 60_000 { "16_bits_of_resends" } else { "8_bits_of_resends" });
        check_panics(&["P25"]);
        h::nontrivial();
    });
}

/// The same without the hook: 2^24 real messages on one connection. Takes
/// minutes, is not part of any check; `run.sh run --property P25 --scenario wrap_real`.
pub fn real(_np: bool) {
    calm_sched();
    let c = &mut sim::world().cfg;
    c.max_polls = 100_000_000;
    c.max_time = 10_000 * SEC;
    nodes(2);
    sim::world().net.default = net::Link { base: 50_000, ..Default::default() };
    drive(async move {
        h::adopt();
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let conns = match session::connect_all(&srv, 1, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        let c = conns[0].clone();
        let got = Rc::new(Cell::new(0u32));
        let (g2, s) = (got.clone(), c.s.s());
        sim::spawn_on(SERVER, async move {
            while s.recv().await.is_ok() {
                g2.set(g2.get() + 1);
            }
        });
        let total = (1u32 << 24) + 5000;
        let s = c.c.s();
        let j = sim::spawn_on(2, async move {
            for i in 0..total {
                let rel = if i % 64 == 0 { Rel::RO } else { Rel::US };
                if s.send(&payload(77, i, HDR), reliability(rel)).await.is_err() {
                    return i;
                }
                if i % 64 == 63 {
                    sleep(ms(2)).await;
                }
                if i % 1_000_000 == 0 && std::env::var_os("RKSIM_STDOUT").is_some() {
                    eprintln!("{} messages", i);
                }
            }
            total
        });
        let sent = j.await.unwrap();
        let n = got.clone();
        wait_until(30 * SEC, || n.get() >= total).await;
        if sent < total || got.get() < total {
            h::viol("P25", "long-history", format!("send() failed after {} of {} messages, {} arrived", sent, total, got.get()));
        }
        h::nontrivial();
    });
}
