//! P28: listeners and connections of one process do not know of each other.
use crate::h;
use crate::kit::*;
use crate::oracle::*;
use crate::session::count_dups;
use crate::wire::Rel;
use rust_raknet::RaknetSocket;
use std::cell::{Cell, RefCell};
use std::net::SocketAddr;
use std::rc::Rc;
use tokio::sim::{self, chance, choose, net, pick, range, MS, S, SEC};
use tokio::time::{sleep, timeout, Duration};

const BOUND: u64 = 25 * SEC;

async fn ping_motd(from: usize, addr: SocketAddr) -> Option<String> {
    let j = sim::spawn_on(from, async move { timeout(Duration::from_secs(20), RaknetSocket::ping(&addr)).await });
    match j.await {
        Ok(Ok(Ok((_, m)))) => Some(m),
        _ => None,
    }
}

pub fn p28(np: bool) {
    sched_plan(np);
    let nl = 2 + choose(S::Plan, 2) as usize;
    let hosts = 1 + choose(S::Plan, 2) as usize;
    nodes(1 + hosts);
    let base = pick(S::Plan, &[500u64, 5_000, 25_000]) * 1000;
    sim::world().net.default = net::Link { base, ..Default::default() };
    let link = link_plan(Hit::Light);
    let lossy = chance(S::Plan, 400_000);
    h::note(format!("listeners={} hosts={} lossy={}", nl, hosts, lossy));
    drive(async move {
        h::adopt();
        // listeners of one process, on the same address but for the port
        let mut srv = Vec::new();
        for i in 0..nl {
            let s = Server::start_how(SERVER, PORT + i as u16, chance(S::Plan, 300_000), chance(S::Plan, 300_000)).await;
            s.l.lock().await.as_mut().unwrap().set_full_motd(format!("MCPE;listener {};", i)).unwrap();
            s.spawn_accept();
            srv.push(s);
        }
        // who connects where: hosts of their own, the listeners' host itself
        let plan: Vec<(usize, usize, u8)> = (0..range(S::Plan, 2, 6) as usize)
            .map(|k| {
                let node = if chance(S::Plan, 350_000) { SERVER } else { 2 + choose(S::Plan, hosts as u64) as usize };
                (node, if k < nl { k } else { choose(S::Plan, nl as u64) as usize }, pick(S::Plan, &[10u8, 11]))
            })
            .collect();
        let together = chance(S::Plan, 500_000);
        let got: Rc<RefCell<Vec<(usize, Conn)>>> = Default::default();
        let left = Rc::new(Cell::new(plan.len()));
        for (k, (node, l, v)) in plan.iter().copied().enumerate() {
            let (got, left, s, all) = (got.clone(), left.clone(), srv[l].clone(), srv.clone());
            let j = sim::spawn_on(0, async move {
                let c = match connect_ver(node, s.addr, v, 60 * SEC).await {
                    Some(Ok(c)) => c,
                    x => {
                        h::viol("P28", "connect", format!("connect() to listener {} on a clean network: {:?}", l, x.map(|r| r.err())));
                        return left.set(left.get() - 1);
                    }
                };
                let a = client_addr(node, &c);
                match s.wait_for(a, 10 * SEC).await {
                    Some(x) => {
                        if all.iter().enumerate().any(|(i, o)| i != l && !o.find(a).is_empty()) {
                            h::viol("P28", "wrong-listener", format!("the connection of {} to listener {} was accepted by another one as well", a, l));
                        }
                        let said = [c.raknet_version().unwrap(), x.raknet_version().unwrap()];
                        if said != [v, v] {
                            h::viol("P28", "version", format!("asked for version {}, the sockets say {:?}", v, said));
                        }
                        if x.local_addr().unwrap().port() != s.addr.port() || c.peer_addr().unwrap() != s.addr {
                            h::viol("P28", "address", format!("connected to {}: the client says {:?}, the server {:?}", s.addr, c.peer_addr(), x.local_addr()));
                        }
                        let (up, down) = flows(k);
                        let c = Conn { k, c: Ep::new(node, Some(Rc::new(c)), up.clone(), down.clone()), s: Ep::new(SERVER, Some(x), down, up) };
                        c.c.spawn_reader();
                        c.s.spawn_reader();
                        got.borrow_mut().push((l, c));
                    }
                    None => h::viol("P28", "accept", format!("listener {} does not accept {}", l, a)),
                }
                left.set(left.get() - 1);
            });
            if !together {
                let _ = j.await;
            }
        }
        let l2 = left.clone();
        wait_until(150 * SEC, || l2.get() == 0).await;
        let mut conns: Vec<(usize, Conn)> = std::mem::take(&mut *got.borrow_mut());
        if conns.len() < plan.len() {
            return;
        }
        // every motd is its listener's
        for (i, s) in srv.iter().enumerate() {
            match ping_motd(pick(S::Plan, &[SERVER, 2]), s.addr).await {
                Some(m) if m == format!("MCPE;listener {};", i) => {}
                x => h::viol("P28", "motd", format!("ping to listener {} answered {:?}", i, x)),
            }
        }
        // also when several are asked for at a time
        let asking = Rc::new(Cell::new(0usize));
        let asked = range(S::Plan, 2, 8) as usize;
        for k in 0..asked {
            asking.set(asking.get() + 1);
            let (asking, l) = (asking.clone(), choose(S::Plan, nl as u64) as usize);
            let (from, addr) = (if chance(S::Plan, 300_000) { 2 } else { SERVER }, srv[l].addr);
            let wait = if k % 2 == 0 { 0 } else { range(S::Plan, 0, 2 * base / 1000) };
            sim::spawn_on(from, async move {
                sleep(Duration::from_micros(wait)).await;
                match ping_motd(from, addr).await {
                    Some(m) if m == format!("MCPE;listener {};", l) => {}
                    x => h::viol("P28", "motd", format!("of several pings at a time, the one to listener {} was answered {:?}", l, x)),
                }
                asking.set(asking.get() - 1);
            });
        }
        let a2 = asking.clone();
        if !wait_until(4 * SEC, || a2.get() == 0).await {
            h::viol("P28", "ping-stuck", format!("{} of {} pings at a time have no answer after 4 s on a clean network", asking.get(), asked));
        }
        let cs: Vec<Conn> = conns.iter().map(|c| c.1.clone()).collect();
        if lossy {
            sim::world().net.default = link;
            let on: Vec<Conn> = cs.clone();
            count_dups(&on);
        }
        // traffic on all of them at once, with loss at first
        let live = Rc::new(Cell::new(0usize));
        for c in &cs {
            for e in [&c.c, &c.s] {
                live.set(live.get() + 1);
                let (e, live) = (e.clone(), live.clone());
                let n = range(S::Work, 3, 25);
                let style = choose(S::Work, 3);
                sim::spawn_on(e.node, async move {
                    for _ in 0..n {
                        let rel = pick_rel(&[Rel::RO, Rel::RO, Rel::R, Rel::RS]);
                        if e.send(rel, msg_len(rel).max(HDR)).await == Fate::Closed {
                            break;
                        }
                        think(style).await;
                    }
                    live.set(live.get() - 1);
                });
            }
        }
        let loud = range(S::Work, 200, 4000);
        sleep(ms(loud)).await;
        quiesce();
        // one listener or some connections go, in the middle of it or afterwards
        let calm = chance(S::Plan, 500_000);
        if calm {
            let (l2, c2) = (live.clone(), cs.clone());
            wait_until(BOUND, || l2.get() == 0 && c2.iter().all(|c| c.c.tx.settled() && c.s.tx.settled())).await;
        }
        let victim = choose(S::Plan, nl as u64) as usize;
        let how = choose(S::Plan, 4);
        let doomed: Vec<Conn> = match how {
            0 | 1 => conns.iter().filter(|c| c.0 == victim).map(|c| c.1.clone()).collect(),
            2 => {
                let i = choose(S::Plan, conns.len() as u64) as usize;
                vec![conns[i].1.clone()]
            }
            _ => vec![],
        };
        for d in &doomed {
            d.c.tx.0.borrow_mut().muted = true;
            d.s.tx.0.borrow_mut().muted = true;
        }
        conns.retain(|c| !doomed.iter().any(|d| d.k == c.1.k));
        h::note(format!("end={}", how));
        match how {
            0 | 1 => {
                srv[victim].accepting.set(false);
                let l = srv[victim].l.clone();
                let close = how == 0;
                let j = sim::spawn_on(SERVER, async move {
                    let mut g = l.lock().await;
                    if close {
                        let r = timeout(Duration::from_secs(20), g.as_mut().unwrap().close()).await;
                        if r.is_err() {
                            h::viol("P28", "close-stuck", "close() of one listener did not return in 20 s".into());
                        }
                    }
                    let x = g.take();
                    drop(g);
                    drop(x);
                });
                let _ = j.await;
                for d in &doomed {
                    let p = d.c.clone();
                    if !wait_until(20 * SEC, || !p.open()).await {
                        h::viol("P28", "not-ended", "the connections of a closed listener have not ended after 20 s".into());
                    }
                }
                sim::probe("listener_gone");
            }
            2 => {
                let s = pick(S::Plan, &[&doomed[0].c, &doomed[0].s]).s();
                let n = SERVER;
                let j = sim::spawn_on(n, async move { s.close().await });
                let _ = j.await;
                sim::probe("connection_gone");
            }
            _ => {}
        }
        // the others do not notice
        let rest: Vec<Conn> = conns.iter().map(|c| c.1.clone()).collect();
        let (l2, c2) = (live.clone(), rest.clone());
        wait_until(BOUND, || l2.get() == 0 && c2.iter().all(|c| c.c.tx.settled() && c.s.tx.settled())).await;
        exchange(&rest, 6, &[Rel::RO, Rel::R], BOUND, "P28", "disturbed").await;
        for (i, s) in srv.iter().enumerate() {
            if how < 2 && i == victim {
                continue;
            }
            match ping_motd(2, s.addr).await {
                Some(m) if m == format!("MCPE;listener {};", i) => {}
                x => h::viol("P28", "motd", format!("ping to listener {} answered {:?} after another one was closed", i, x)),
            }
            let c = connect_on(2, s.addr, 30 * SEC).await;
            let ok = match &c {
                Some(Ok(c)) => s.wait_for(client_addr(2, c), 10 * SEC).await.is_some(),
                _ => false,
            };
            if !ok {
                h::viol("P28", "no-service", format!("listener {} does not serve a new client", i));
            }
        }
        // and the closed one can be opened again next to them
        if how == 0 {
            let a = srv[victim].addr;
            let j = sim::spawn_on(SERVER, async move { rust_raknet::RaknetListener::bind(&a).await.is_ok() });
            if !j.await.unwrap_or(false) {
                h::viol("P28", "port", "the port of the closed listener cannot be bound again".into());
            }
        }
        for c in &rest {
            if !c.c.open() || !c.s.open() {
                h::viol("P28", "ended", format!("connection {} ended with another one", c.c.tx.0.borrow().name));
            }
        }
        check_panics(&["P28"]);
        h::nontrivial();
        let _ = MS;
    });
}

/// A proxy: one process accepts clients and connects on for each of them.
pub fn relay(np: bool) {
    sched_plan(np);
    let n = 1 + choose(S::Plan, 3) as usize;
    // 1 the backend, 2.. clients, last the proxy
    nodes(1 + n + 1);
    let proxy = 2 + n;
    let link = link_plan(Hit::Full);
    drive(async move {
        h::adopt();
        let back = Server::start(SERVER, PORT).await;
        back.spawn_accept();
        let front = Server::start(proxy, PORT).await;
        front.spawn_accept();
        let mut conns = Vec::new();
        for k in 0..n {
            let c = match connect_on(2 + k, front.addr, 60 * SEC).await {
                Some(Ok(c)) => c,
                _ => return h::no_connect("connect"),
            };
            let a = client_addr(2 + k, &c);
            let (f, b) = match (front.wait_for(a, 10 * SEC).await, connect_on(proxy, back.addr, 60 * SEC).await) {
                (Some(f), Some(Ok(b))) => (f, Rc::new(b)),
                _ => return h::no_connect("connect"),
            };
            let s = match back.wait_for(client_addr(proxy, &b), 10 * SEC).await {
                Some(s) => s,
                None => return h::no_connect("connect"),
            };
            for (from, to) in [(f.clone(), b.clone()), (b, f)] {
                sim::spawn_on(proxy, async move {
                    while let Ok(d) = from.recv().await {
                        if to.send(&d, reliability(Rel::RO)).await.is_err() {
                            break;
                        }
                    }
                    let _ = to.close().await;
                });
            }
            let (up, down) = flows(k);
            let c = Conn { k, c: Ep::new(2 + k, Some(Rc::new(c)), up.clone(), down.clone()), s: Ep::new(SERVER, Some(s), down, up) };
            c.c.spawn_reader();
            c.s.spawn_reader();
            conns.push(c);
        }
        sim::world().net.default = link;
        let live = Rc::new(Cell::new(0usize));
        for c in &conns {
            for e in [&c.c, &c.s] {
                live.set(live.get() + 1);
                let (e, live) = (e.clone(), live.clone());
                let n = range(S::Work, 3, 40);
                let style = choose(S::Work, 3);
                sim::spawn_on(e.node, async move {
                    for _ in 0..n {
                        if e.send(Rel::RO, msg_len(Rel::RO)).await == Fate::Closed {
                            break;
                        }
                        think(style).await;
                    }
                    live.set(live.get() - 1);
                });
            }
        }
        sleep(ms(range(S::Work, 1000, 9000))).await;
        quiesce();
        let (l2, c2) = (live.clone(), conns.clone());
        wait_until(90 * SEC, || l2.get() == 0 && c2.iter().all(|c| c.c.tx.settled() && c.s.tx.settled())).await;
        for c in &conns {
            for e in [&c.c, &c.s] {
                let owed = e.tx.owed();
                if !owed.is_empty() || !e.open() {
                    h::viol("P28", "relay", format!("through the proxy, {}: open={} {}", e.tx.0.borrow().name, e.open(), e.tx.describe_owed(&owed)));
                }
            }
        }
        // the end travels through the proxy
        let c = conns[0].clone();
        let s = c.c.s();
        let j = sim::spawn_on(c.c.node, async move { s.close().await });
        let _ = j.await;
        let p = c.s.clone();
        if !wait_until(40 * SEC, || !p.open()).await {
            h::viol("P28", "relay-end", "the end of a connection did not come through the proxy in 40 s".into());
        }
        for o in &conns[1..] {
            if !o.c.open() || !o.s.open() {
                h::viol("P28", "ended", "another client's connection through the proxy ended too".into());
            }
        }
        check_panics(&["P28"]);
        h::nontrivial();
    });
}
