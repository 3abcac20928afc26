//! One session or peer cannot take the listener, or the other sessions, with it.
use crate::h;
use crate::hostile;
use crate::kit::*;
use crate::oracle::*;
use crate::refpeer::{Opts, Peer};
use crate::session::{connect_all, count_dups};
use crate::wire::{self, Rel};
use std::cell::Cell;
use std::net::SocketAddr;
use std::rc::Rc;
use tokio::sim::{self, chance, choose, net, pick, range, MS, S, SEC};
use tokio::time::{sleep, timeout, Duration};

/// Healthy traffic on a clean network goes through within this
const ISO_BOUND: u64 = 20 * SEC;

pub fn p11(np: bool) {
    sched_plan(np);
    let good = 1 + choose(S::Plan, 2) as usize;
    let bad = 1 + choose(S::Plan, 3) as usize;
    // 2..2+good healthy, then bad ones, then one newcomer
    nodes(1 + good + bad + 1);
    let newcomer = 2 + good + bad;
    let rp = harness_node();
    let base = pick(S::Plan, &[500u64, 5_000, 25_000]) * 1000;
    let link = net::Link { base, jitter: pick(S::Plan, &[0, 0, base / 2]), ..Default::default() };
    sim::world().net.default = link;
    drive(async move {
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let conns = match connect_all(&srv, good + bad, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        h::adopt();
        count_dups(&conns);
        let healthy: Vec<Conn> = conns[..good].to_vec();
        for c in &healthy {
            c.c.spawn_reader();
            c.s.spawn_reader();
        }
        let stop = Rc::new(Cell::new(false));
        // the troublemakers with a real client
        for c in &conns[good..] {
            let kind = choose(S::Plan, 7);
            h::note(format!("bad={}", kind));
            sim::probe(["unread_session", "crashing_client", "unread_client", "half_cut", "frozen_client", "lossy_client", "app_drops_session"][kind as usize]);
            let flood = |e: &Ep, n: usize| {
                let e = e.clone();
                let stop = stop.clone();
                let big = chance(S::Work, 300_000);
                sim::spawn_on(e.node, async move {
                    for _ in 0..n {
                        if stop.get() {
                            break;
                        }
                        let rel = pick_rel(&[Rel::RO, Rel::R, Rel::U, Rel::RS, Rel::US]);
                        let len = if big && rel == Rel::RO { 8000 } else { 300 };
                        if e.send(rel, len).await == Fate::Closed {
                            break;
                        }
                    }
                });
            };
            match kind {
                0 => {
                    // the server application never reads this session
                    c.c.spawn_reader();
                    flood(&c.c, 500);
                }
                1 => {
                    c.s.spawn_reader();
                    flood(&c.c, 200);
                    flood(&c.s, 200);
                    let n = c.c.node;
                    sim::spawn_on(0, async move {
                        sleep(ms(range(S::Fault, 0, 2000))).await;
                        sim::crash(n);
                    });
                }
                2 => {
                    // the client application never reads
                    c.s.spawn_reader();
                    flood(&c.s, 500);
                }
                3 => {
                    c.s.spawn_reader();
                    c.c.spawn_reader();
                    flood(&c.s, 300);
                    flood(&c.c, 300);
                    if chance(S::Fault, 500_000) {
                        net::cut(c.c.node, SERVER);
                    } else {
                        net::cut(SERVER, c.c.node);
                    }
                }
                4 => {
                    c.s.spawn_reader();
                    flood(&c.s, 300);
                    sim::stall(c.c.node, 20 * SEC);
                }
                5 => {
                    c.s.spawn_reader();
                    c.c.spawn_reader();
                    flood(&c.s, 300);
                    flood(&c.c, 300);
                    let bad = net::Link { loss: 600_000, dup: 300_000, reorder: 300_000, reorder_by: 300 * MS, ..link };
                    let l = &mut sim::world().net.links;
                    l.insert((SERVER, c.c.node), bad);
                    l.insert((c.c.node, SERVER), bad);
                }
                _ => {
                    // dropped by the server application in full flow
                    c.c.spawn_reader();
                    flood(&c.c, 300);
                    let (c, srv) = (c.clone(), srv.clone());
                    sim::spawn_on(0, async move {
                        sleep(ms(range(S::Fault, 0, 500))).await;
                        let a = client_addr(c.c.node, &c.c.s());
                        sim::as_node(SERVER, || {
                            srv.forget(a);
                            c.s.let_go();
                        });
                    });
                }
            }
        }
        // and those that speak the protocol themselves
        let rip = net::node_ip(rp, false).unwrap();
        let noise = choose(S::Plan, 8);
        // the application has stopped accepting for good
        let mut never = false;
        h::note(format!("noise={}", noise));
        let addr = srv.addr;
        match noise {
            0 => {
                // half-open sessions, more than the backlog holds
                let k = pick(S::Plan, &[3u64, 12, 30]);
                sim::probe("half_open_flood");
                if chance(S::Plan, 600_000) {
                    // and the application is slow to accept
                    srv.accepting.set(false);
                    let srv = srv.clone();
                    let d = pick(S::Plan, &[range(S::Plan, 500, 6000), 30_000, 70_000, 0]);
                    sim::spawn_on(0, async move {
                        if d > 0 {
                            sleep(ms(d)).await;
                            srv.accepting.set(true);
                        }
                    });
                    never = d == 0;
                    sim::probe("backlog_full");
                }
                for q in 0..k {
                    let p = Peer::new(rp, SocketAddr::new(rip, 5000 + q as u16), Opts { guid: 500 + q, ..Default::default() }).await;
                    sim::spawn_on(rp, async move {
                        let _ = p.handshake(addr, 2).await;
                        if choose(S::Work, 2) == 0 {
                            for _ in 0..20 {
                                let _ = p.sock.send_to(&wire::frames_pkt(0x84, choose(S::Work, 40) as u32, &[wire::rel_frame(Rel::RO, choose(S::Work, 40) as u32, 0, choose(S::Work, 40) as u32, vec![0xfe; 200])]), addr).await;
                            }
                        }
                    });
                }
            }
            1 => {
                // peers that never acknowledge what the application sends them
                sim::probe("never_acking_peer");
                for q in 0..2u16 {
                    let p = Peer::new(rp, SocketAddr::new(rip, 5100 + q), Opts { guid: 600 + q as u64, mute_acks: true, ping_every: 5 * SEC, ..Default::default() }).await;
                    let srv = srv.clone();
                    sim::spawn_on(0, async move {
                        if p.connect(addr, 5 * SEC).await.is_err() {
                            return;
                        }
                        if let Some(s) = srv.wait_for(SocketAddr::new(rip, 5100 + q), SEC).await {
                            sim::spawn_on(SERVER, async move {
                                for i in 0..400u32 {
                                    if s.send(&payload(9, i, 1200), reliability(Rel::R)).await.is_err() {
                                        return;
                                    }
                                    if i % 50 == 0 {
                                        sleep(ms(10)).await;
                                    }
                                }
                            });
                        }
                    });
                }
            }
            2 => {
                // errors of the listener's own socket
                sim::probe("socket_errors");
                let k = 1 + choose(S::Plan, 8);
                sim::spawn_on(0, async move {
                    for _ in 0..k {
                        sleep(ms(range(S::Fault, 0, 600))).await;
                        let e = pick(S::Fault, &[104, 111, 12, 105, 113]);
                        net::inject_recv_error(SERVER, PORT, e);
                    }
                });
                if chance(S::Plan, 500_000) {
                    sim::world().net.io.insert(SERVER, net::IoFaults { send_err: pick(S::Plan, &[30_000u32, 150_000]), ..Default::default() });
                }
            }
            3 => {
                // garbage from many addresses
                sim::probe("garbage");
                for q in 0..150u16 {
                    let src = SocketAddr::new(rip, 6000 + (q % 40));
                    let at = sim::now() + range(S::Fault, 0, 3000) * MS;
                    let d = hostile::offline_noise();
                    sim::call_at(at, move || net::inject(src, addr, d));
                }
            }
            4 => {
                sim::probe("request_flood");
                for q in 0..300u64 {
                    let src = SocketAddr::new(rip, 7000 + (q % 60) as u16);
                    let at = sim::now() + range(S::Fault, 0, 4000) * MS;
                    let d = match choose(S::Fault, 4) {
                        0 => wire::ping(1, 5, q),
                        1 => wire::req1(10, 1372),
                        2 => wire::req1(9, 1372),
                        _ => wire::req2(addr, 1400, 1 + choose(S::Fault, 3)),
                    };
                    sim::call_at(at, move || net::inject(src, addr, d));
                }
            }
            5 | 6 => {
                // peers that leave, with more of their datagrams under way, while
                // the application may end the connection as well
                sim::probe("goodbyes");
                for q in 0..range(S::Plan, 1, 6) as u16 {
                    let a = SocketAddr::new(rip, 5200 + q);
                    let p = Peer::new(rp, a, Opts { guid: 700 + q as u64, ..Default::default() }).await;
                    let srv = srv.clone();
                    sim::spawn_on(rp, async move {
                        if p.connect(addr, 5 * SEC).await.is_err() {
                            return;
                        }
                        let app_ends = chance(S::Work, 500_000);
                        if app_ends {
                            let srv = srv.clone();
                            let w = range(S::Work, 0, 150);
                            sim::spawn_on(0, async move {
                                srv.wait_for(a, SEC).await;
                                sleep(ms(w)).await;
                                sim::as_node(SERVER, || srv.forget(a));
                            });
                        }
                        sleep(ms(range(S::Work, 0, 150))).await;
                        p.close();
                        let mut n = 3000;
                        for _ in 0..range(S::Work, 1, 6) {
                            n += 1;
                            let f = |rel, d| wire::frames_pkt(0x84, n, &[wire::rel_frame(rel, n, 0, n, d)]);
                            let d = match choose(S::Work, 6) {
                                0 | 1 => vec![0x15],
                                2 => f(Rel::R, vec![0x15]),
                                3 => f(Rel::U, vec![0x15]),
                                4 => f(Rel::U, payload(99, n, 60)),
                                _ => wire::ping(1, 7, 7),
                            };
                            let _ = p.sock.send_to(&d, addr).await;
                            let w = pick(S::Work, &[0u64, 0, 1, 5, 20, 60]);
                            if w > 0 {
                                sleep(ms(w)).await;
                            }
                        }
                    });
                }
            }
            _ => {}
        }
        if chance(S::Plan, 300_000) {
            sleep(ms(range(S::Work, 0, 3000))).await;
        }
        // the healthy ones are served all the time
        let rounds = 1 + choose(S::Plan, 3);
        for _ in 0..rounds {
            let mix: &'static [Rel] = &[Rel::RO, Rel::R, Rel::RS];
            if !exchange(&healthy, 12, mix, ISO_BOUND, "P11", "bystander").await {
                return;
            }
            sleep(ms(range(S::Work, 0, 1500))).await;
        }
        // a newcomer gets in
        if noise == 0 {
            if !never {
                wait_until(75 * SEC, || srv.accepting.get()).await;
            }
            sim::world().net.io.clear();
        }
        let io = sim::world().net.io.clone();
        let comes = if never {
            // no room for it perhaps; all others are still served
            exchange(&healthy, 4, &[Rel::RO, Rel::R], ISO_BOUND, "P11", "bystander").await;
            None
        } else {
            Some(connect_on(newcomer, addr, ISO_BOUND).await)
        };
        match comes {
            None => {}
            Some(Some(Ok(c))) => {
                let a = client_addr(newcomer, &c);
                match srv.wait_for(a, 5 * SEC).await {
                    None => h::viol("P11", "not-accepted", "a new client connected but accept() does not return it".into()),
                    Some(s) => {
                        let (up, down) = flows(50);
                        let c = Conn { k: 50, c: Ep::new(newcomer, Some(Rc::new(c)), up.clone(), down.clone()), s: Ep::new(SERVER, Some(s), down, up) };
                        c.c.spawn_reader();
                        c.s.spawn_reader();
                        exchange(&[c], 5, &[Rel::RO, Rel::R], ISO_BOUND, "P11", "newcomer").await;
                    }
                }
            }
            Some(Some(Err(e))) => h::viol("P11", "newcomer", format!("connect() of a new client failed: {:?}", e)),
            Some(None) => h::viol("P11", "newcomer", format!("a new client cannot connect within {} s", ISO_BOUND / SEC)),
        }
        let _ = io;
        // pings are answered (once the socket works again: every answer may fail to be sent)
        sim::world().net.io.clear();
        let r = sim::spawn_on(newcomer, async move { timeout(Duration::from_secs(15), rust_raknet::RaknetSocket::ping(&addr)).await }).await.unwrap();
        if !matches!(r, Ok(Ok(_))) {
            h::viol("P11", "ping", format!("the listener does not answer pings: {:?}", r.map(|x| x.map(|_| ()))));
        }
        stop.set(true);
        if let Some(e) = srv.accept_err.borrow().as_ref() {
            h::viol("P11", "accept-error", format!("accept() failed with {}", e));
        }
        check_panics(&["P11"]);
        h::nontrivial();
    });
}
