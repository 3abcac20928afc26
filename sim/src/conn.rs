//! Establishing connections: handshake faults, versions, abandoned calls,
//! reconnecting from the same address.
use crate::h;
use crate::kit::*;
use crate::oracle::*;
use crate::refpeer::{self, Peer};
use crate::wire::{self, Rel};
use rust_raknet::{error::RaknetError, RaknetListener, RaknetSocket};
use std::cell::{Cell, RefCell};
use std::net::SocketAddr;
use std::rc::Rc;
use tokio::sim::{self, chance, choose, net, pick, range, MS, S, SEC};
use tokio::time::{sleep, timeout, Duration};

/// Time after faults stop within which a handshake must be through.
pub const CONNECT_BOUND: u64 = 45 * SEC;

fn apply_io(io: net::IoFaults) {
    for k in all_nodes() {
        if io.send_err > 0 || io.send_block > 0 || io.rx_cap > 0 {
            sim::world().net.io.insert(k, io);
        }
    }
}

// ---- P07 -------------------------------------------------------------------
pub fn p07(np: bool) {
    sched_plan(np);
    let late = chance(S::Plan, 300_000);
    let n = if late { 8 + choose(S::Plan, 16) as usize } else { 1 + choose(S::Plan, 5) as usize };
    let hosts = 1 + choose(S::Plan, n.min(4) as u64) as usize;
    nodes(1 + hosts);
    let hit = pick(S::Plan, &[Hit::Full, Hit::Full, Hit::Light, Hit::None]);
    let link = link_plan(hit);
    let io = io_plan();
    let any = chance(S::Plan, 200_000);
    let std = chance(S::Plan, 200_000);
    h::note(format!("clients={} hosts={} late={} any={} std={}", n, hosts, late, any, std));
    drive(async move {
        let srv = Server::start_how(SERVER, PORT, any, std).await;
        srv.accepting.set(!late);
        srv.spawn_accept();
        sim::world().net.default = link;
        apply_io(io);
        let t0 = sim::now();
        let res: Rc<RefCell<Vec<Option<Result<(Ep, SocketAddr), String>>>>> = Rc::new(RefCell::new((0..n).map(|_| None).collect()));
        for k in 0..n {
            let node = 2 + k % hosts;
            let at = if late { range(S::Plan, 0, 300) } else { range(S::Plan, 0, 3000) };
            let addr = srv.addr;
            let res = res.clone();
            sim::spawn_on(node, async move {
                sleep(ms(at)).await;
                let r = RaknetSocket::connect(&addr).await;
                match r {
                    Err(e) => res.borrow_mut()[k] = Some(Err(format!("{:?}", e))),
                    Ok(s) => {
                        let a = client_addr(node, &s);
                        if s.peer_addr().unwrap() != addr {
                            h::viol("P07", "peer-addr", format!("client connected to {} reports peer {:?}", addr, s.peer_addr()));
                        }
                        let (up, down) = flows(k);
                        let ep = Ep::new(node, Some(Rc::new(s)), up, down);
                        ep.spawn_reader();
                        res.borrow_mut()[k] = Some(Ok((ep.clone(), a)));
                        // keep it alive
                        loop {
                            if ep.send(Rel::RO, 40).await == Fate::Closed || sim::now() > t0 + 200 * SEC {
                                break;
                            }
                            sleep(ms(5000)).await;
                        }
                    }
                }
            });
        }
        let dur = pick(S::Plan, &[3u64, 8, 15]) * SEC;
        let until = sim::now() + dur;
        let fd = sim::spawn_on(0, fault_driver(FaultOpts { partitions: hit != Hit::None, stalls: true, clock: true, budget: 12 * SEC }, until));
        let accept_at = if late { pick(S::Plan, &[500u64, 3_000, 15_000, 25_000]) * MS } else { 0 };
        let r2 = res.clone();
        let s2 = srv.clone();
        let mut w = 0;
        while sim::now() < until || sim::now() < t0 + accept_at {
            if !srv.accepting.get() && sim::now() >= t0 + accept_at {
                srv.accepting.set(true);
            }
            if srv.accepting.get() && r2.borrow().iter().all(|x| x.is_some()) && w > 20 {
                break;
            }
            w += 1;
            sleep(ms(20)).await;
        }
        srv.accepting.set(true);
        fd.abort();
        quiesce();
        let all = wait_until(CONNECT_BOUND, || {
            let r = r2.borrow();
            r.iter().all(|x| x.is_some())
                && r.iter().flatten().flatten().all(|x| !s2.find(x.1).is_empty())
        })
        .await;
        if !all {
            let r = res.borrow();
            for k in 0..n {
                match &r[k] {
                    None => h::viol("P07", "connect-stuck", format!("connect() of client {} has not returned {} s after faults stopped", k, CONNECT_BOUND / SEC)),
                    Some(Ok(x)) if srv.find(x.1).is_empty() => h::viol(
                        "P07",
                        "not-accepted",
                        format!("client {} ({}) is connected but accept() never returned its socket", k, x.1),
                    ),
                    _ => {}
                }
            }
            return;
        }
        let mut conns = Vec::new();
        for (k, x) in res.borrow().iter().enumerate() {
            match x.as_ref().unwrap() {
                Err(e) => h::viol("P07", "connect-failed", format!("connect() of client {} failed although the server was up: {}", k, e)),
                Ok((ep, a)) => {
                    let got = srv.find(*a);
                    let s = got.last().unwrap().clone();
                    if s.local_addr().unwrap().port() != PORT {
                        h::viol("P07", "local-addr", format!("accepted socket reports local address {:?}", s.local_addr()));
                    }
                    let sep = Ep::new(SERVER, Some(s), ep.rx.clone(), ep.tx.clone());
                    sep.spawn_reader();
                    conns.push(Conn { k, c: ep.clone(), s: sep });
                }
            }
        }
        exchange(&conns, 3, &[Rel::RO, Rel::R], CONNECT_BOUND, "P07", "no-data").await;
        sleep(ms(2500)).await;
        // one accept per connect, nothing else
        let got = srv.got.borrow();
        for c in &conns {
            let a = client_addr(c.c.node, &c.c.s());
            let m = got.iter().filter(|x| x.0 == a).count();
            if m != 1 {
                h::viol("P07", "accept-count", format!("client {} ({}) was accepted {} times", c.k, a, m));
            }
        }
        for x in got.iter() {
            if !conns.iter().any(|c| client_addr(c.c.node, &c.c.s()) == x.0) {
                h::viol("P07", "phantom-accept", format!("accept() returned a socket for {} where nobody connected", x.0));
            }
        }
        check_panics(&["P07"]);
        sim::probe_n("connects", n as u64);
        if accept_at > 0 && n > 10 {
            sim::probe("backlog_overfull");
        }
        h::nontrivial();
    });
}

// ---- P08 -------------------------------------------------------------------
fn bad_version() -> u8 {
    loop {
        let v = match choose(S::Work, 3) {
            0 => pick(S::Work, &[9u8, 12, 0, 255, 8, 6]),
            _ => choose(S::Work, 256) as u8,
        };
        if v != 10 && v != 11 {
            return v;
        }
    }
}
pub fn p08(np: bool) {
    sched_plan(np);
    let n = 1 + choose(S::Plan, 5) as usize;
    // clients may share a host
    let hosts = 1 + choose(S::Plan, n.min(3) as u64) as usize;
    let crowd = chance(S::Plan, 400_000);
    nodes(1 + hosts);
    let rp = harness_node();
    let rs = harness_node();
    let link = link_plan(pick(S::Plan, &[Hit::None, Hit::Light, Hit::Full]));
    drive(async move {
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        sim::world().net.default = link;
        let mut hs = Vec::new();
        let mut want = Vec::new();
        for k in 0..n {
            let v = match choose(S::Work, 4) {
                0 | 1 => pick(S::Work, &[10u8, 11]),
                _ => bad_version(),
            };
            want.push(v);
            let addr = srv.addr;
            let at = if crowd { range(S::Work, 0, 12) } else { range(S::Work, 0, 1500) };
            let node = 2 + k % hosts;
            hs.push(sim::spawn_on(0, async move {
                sleep(ms(at)).await;
                connect_ver(node, addr, v, 90 * SEC).await
            }));
        }
        // reference peers: client towards the library, server towards a library client
        let rv = if chance(S::Work, 500_000) { pick(S::Work, &[10u8, 11]) } else { bad_version() };
        let sv = pick(S::Work, &[10u8, 11, 9, 12]);
        let cv = pick(S::Work, &[10u8, 11]);
        let pa = SocketAddr::new(net::node_ip(rp, false).unwrap(), 4000);
        let sa = SocketAddr::new(net::node_ip(rs, false).unwrap(), 4001);
        let peer = Peer::new(rp, pa, refpeer::Opts { proto: rv, ..Default::default() }).await;
        let speer = Peer::new(rs, sa, refpeer::Opts { proto: sv, ..Default::default() }).await;
        let p2 = peer.clone();
        let srv_addr = srv.addr;
        let hr = sim::spawn_on(rp, async move { p2.connect(srv_addr, 60 * SEC).await });
        let sp2 = speer.clone();
        sim::spawn_on(rs, async move {
            let _ = sp2.serve_one(90 * SEC).await;
        });
        let hc = sim::spawn_on(0, async move { connect_ver(2, sa, cv, 90 * SEC).await });
        let dur = pick(S::Plan, &[2u64, 6]) * SEC;
        // strangers who ask once and are never heard of again
        if chance(S::Plan, 60_000) {
            let n = range(S::Plan, 10, 300);
            for i in 0..n {
                let from = SocketAddr::new(std::net::Ipv4Addr::new(10, 77, (i % 3) as u8, 1 + (i % 200) as u8).into(), range(S::Work, 1024, 60_000) as u16);
                let d = wire::req1(pick(S::Work, &[10u8, 11, 11, 9]), 1372);
                sim::call_at(sim::now() + range(S::Work, 0, 1800) * MS, move || net::inject(from, srv_addr, d));
            }
            sim::probe_n("strangers", n);
        }
        sleep(Duration::from_nanos(dur)).await;
        quiesce();
        let mut ok = 0;
        let mut keep = Vec::new();
        let mut seen = Vec::new();
        let mut allowed = Vec::new();
        for (k, j) in hs.into_iter().enumerate() {
            let v = want[k];
            let good = v == 10 || v == 11;
            match j.await {
                Ok(Some(Ok(s))) => {
                    if !good {
                        h::viol("P08", "accepted-version", format!("connect_with_version({}) succeeded", v));
                    }
                    if s.raknet_version().unwrap() != v {
                        h::viol("P08", "client-version", format!("connect_with_version({}) yields a socket that says {:?}", v, s.raknet_version()));
                    }
                    let a = client_addr(2 + k % hosts, &s);
                    allowed.push(a);
                    match srv.wait_for(a, 5 * SEC).await {
                        None => h::viol("P08", "not-accepted", format!("client with version {} was not accepted", v)),
                        Some(x) => {
                            if x.raknet_version().unwrap() != v {
                                h::viol("P08", "server-version", format!("client speaks {}, the accepted socket says {:?}", v, x.raknet_version()));
                            }
                        }
                    }
                    let g = srv.l.lock().await;
                    let l = g.as_ref().unwrap().get_peer_raknet_version(&a).await.unwrap();
                    if l != v {
                        h::viol("P08", "listener-version", format!("client {} speaks {}, get_peer_raknet_version says {}", a, v, l));
                    }
                    ok += 1;
                    seen.push((a, v));
                    keep.push(s);
                }
                Ok(Some(Err(RaknetError::NotSupportVersion))) => {
                    if good {
                        h::viol("P08", "refused-version", format!("connect_with_version({}) was refused", v));
                    }
                    ok += 1;
                }
                Ok(Some(Err(e))) => h::viol("P08", "wrong-error", format!("connect_with_version({}) failed with {:?}", v, e)),
                _ => h::viol("P08", "stuck", format!("connect_with_version({}) did not return", v)),
            }
        }
        let good = rv == 10 || rv == 11;
        match hr.await.unwrap() {
            Ok(()) => {
                allowed.push(pa);
                if !good {
                    h::viol("P08", "accepted-version", format!("the listener let a version {} peer in", rv));
                } else {
                    match srv.wait_for(pa, 5 * SEC).await {
                        Some(x) if x.raknet_version().unwrap() == rv => {}
                        Some(x) => h::viol("P08", "server-version", format!("peer speaks {}, the accepted socket says {:?}", rv, x.raknet_version())),
                        None => h::viol("P08", "not-accepted", "version 10/11 peer not accepted".into()),
                    }
                }
            }
            Err(e) => {
                if good {
                    h::viol("P08", "refused-version", format!("a version {} peer could not connect: {}", rv, e));
                } else if e != "incompatible 10" && e != "incompatible 11" {
                    h::viol("P08", "no-incompatible", format!("a version {} peer got no incompatible-version answer: {}", rv, e));
                }
            }
        }
        match hc.await.unwrap() {
            Some(Ok(s)) => {
                if cv != sv {
                    h::viol("P08", "accepted-version", format!("connect_with_version({}) succeeded at a server that refuses it", cv));
                } else if s.raknet_version().unwrap() != cv {
                    h::viol("P08", "client-version", format!("asked for {}, socket says {:?}", cv, s.raknet_version()));
                }
            }
            Some(Err(RaknetError::NotSupportVersion)) => {
                if cv == sv {
                    h::viol("P08", "refused-version", format!("version {} refused by a server that speaks it", cv));
                }
            }
            Some(Err(e)) => h::viol("P08", "wrong-error", format!("connect_with_version({}) failed with {:?}", cv, e)),
            None => h::viol("P08", "stuck", format!("connect_with_version({}) to a version {} server did not return", cv, sv)),
        }
        sleep(ms(1500)).await;
        for (k, x) in srv.got.borrow().iter().map(|x| x.0).enumerate() {
            if !allowed.contains(&x) {
                h::viol("P08", "phantom-accept", format!("accept() number {} returned a socket for {}, which never connected", k, x));
            }
        }
        // later connections do not change what is known of the earlier ones
        for (a, v) in &seen {
            let g = srv.l.lock().await;
            let l = g.as_ref().unwrap().get_peer_raknet_version(a).await.unwrap();
            if l != *v {
                h::viol("P08", "listener-version", format!("client {} speaks {}, get_peer_raknet_version says {} after other clients connected", a, v, l));
            }
            for x in srv.find(*a) {
                if x.raknet_version().unwrap() != *v {
                    h::viol("P08", "server-version", format!("client {} speaks {}, its accepted socket says {:?}", a, v, x.raknet_version()));
                }
            }
        }
        // a second connection from the same address, in the other version
        if chance(S::Plan, 400_000) && !keep.is_empty() {
            let k = (0..n).find(|k| want[*k] == 10 || want[*k] == 11).unwrap();
            let v2 = if want[k] == 10 { 11 } else { 10 };
            let a1 = client_addr(2 + k % hosts, &keep[0]);
            let s = keep.remove(0);
            sim::as_node(2 + k % hosts, || drop(s));
            sleep(ms(12_000)).await;
            net::reuse_ports(2 + k % hosts);
            match connect_ver(2 + k % hosts, srv.addr, v2, 60 * SEC).await {
                Some(Ok(s)) => {
                    let a2 = client_addr(2 + k % hosts, &s);
                    if a1 == a2 {
                        sim::probe("same_address_other_version");
                    }
                    sleep(ms(300)).await;
                    let x = srv.find(a2).pop();
                    if let Some(x) = x {
                        if x.raknet_version().unwrap() != v2 {
                            h::viol("P08", "server-version", format!("{} reconnected with {}, the accepted socket says {:?}", a2, v2, x.raknet_version()));
                        }
                    }
                    let g = srv.l.lock().await;
                    let l = g.as_ref().unwrap().get_peer_raknet_version(&a2).await.unwrap();
                    if l != v2 {
                        h::viol("P08", "listener-version", format!("{} reconnected with {}, get_peer_raknet_version says {}", a2, v2, l));
                    }
                }
                Some(Err(e)) => h::viol("P08", "wrong-error", format!("reconnecting with version {} failed: {:?}", v2, e)),
                None => h::viol("P08", "stuck", format!("reconnecting with version {} did not return", v2)),
            }
        }
        check_panics(&["P08"]);
        sim::probe_n("versions_tried", n as u64 + 2);
        if ok > 0 {
            h::nontrivial();
        }
    });
}

// ---- P20 -------------------------------------------------------------------
/// Reader that gives every recv() only a random moment.
fn impatient_reader(ep: &Ep) {
    let me = ep.clone();
    sim::spawn_on(ep.node, async move {
        loop {
            let s = me.s();
            let patience = pick(S::Work, &[0u64, 0, 1, 7, 60, 400]);
            let r = if patience == 0 {
                // polled once, then dropped
                tokio::select! {
                    biased;
                    r = s.recv() => Some(r),
                    _ = tokio::task::yield_now() => None,
                }
            } else {
                timeout(ms(patience), s.recv()).await.ok()
            };
            match r {
                Some(Ok(d)) => me.rx.received(&d),
                Some(Err(e)) => {
                    me.closed_at.set(sim::now());
                    *me.recv_err.borrow_mut() = Some(format!("{:?}", e));
                    return;
                }
                None => {
                    sim::probe("recv_cancelled");
                    if patience == 0 {
                        sleep(ms(2)).await;
                    }
                }
            }
        }
    });
}
pub fn p20(np: bool) {
    sched_plan(np);
    let n = 1 + choose(S::Plan, 3) as usize;
    nodes(2 + n);
    let quitter = 2 + n;
    let link = link_plan(pick(S::Plan, &[Hit::Full, Hit::Light, Hit::None]));
    let io = io_plan();
    drive(async move {
        h::adopt();
        let srv = Server::start(SERVER, PORT).await;
        // an accept loop that keeps changing its mind
        let (s2, patience) = (srv.clone(), pick(S::Plan, &[1u64, 3, 15, 80]));
        sim::spawn_on(SERVER, async move {
            loop {
                let mut g = s2.l.lock().await;
                let l = match g.as_mut() {
                    Some(l) => l,
                    None => return,
                };
                let r = timeout(ms(patience), l.accept()).await;
                drop(g);
                match r {
                    Ok(Ok(s)) => {
                        let a = s.peer_addr().unwrap();
                        s2.got.borrow_mut().push((a, Rc::new(s), sim::now()));
                    }
                    Ok(Err(_)) => return,
                    Err(_) => sim::probe("accept_cancelled"),
                }
                tokio::task::yield_now().await;
            }
        });
        if chance(S::Plan, 300_000) {
            sim::world().net.default = link;
        }
        let conns = match crate::session::connect_all(&srv, n, 60 * SEC).await {
            Some(c) => c,
            None => {
                h::viol("P20", "connect", "a connection was not established next to cancelled accepts".into());
                return;
            }
        };
        crate::session::count_dups(&conns);
        sim::world().net.default = link;
        apply_io(io);
        // connect() calls that are given up
        let m = choose(S::Plan, 5);
        for _ in 0..m {
            let addr = srv.addr;
            let d = pick(S::Plan, &[0u64, 1, 5, 20, 70, 120, 300, 1000]);
            let at = range(S::Plan, 0, 2000);
            sim::spawn_on(quitter, async move {
                sleep(ms(at)).await;
                let r = if d == 0 {
                    tokio::select! {
                        biased;
                        r = RaknetSocket::connect(&addr) => Some(r),
                        _ = tokio::task::yield_now() => None,
                    }
                } else {
                    timeout(ms(d), RaknetSocket::connect(&addr)).await.ok()
                };
                match r {
                    None => sim::probe("connect_cancelled"),
                    Some(_) => {}
                }
            });
        }
        let live = Rc::new(Cell::new(0usize));
        for c in &conns {
            for e in [&c.c, &c.s] {
                impatient_reader(e);
                let k = 1 + choose(S::Work, 2);
                if k > 1 {
                    e.tx.0.borrow_mut().single_sender = false;
                }
                for _ in 0..k {
                    let me = e.clone();
                    let live = live.clone();
                    live.set(live.get() + 1);
                    let cnt = range(S::Work, 10, 50);
                    let style = choose(S::Work, 4);
                    sim::spawn_on(e.node, async move {
                        for _ in 0..cnt {
                            let rel = pick_rel(&[Rel::RO, Rel::RO, Rel::R, Rel::RS, Rel::U, Rel::US]);
                            let len = msg_len(rel).max(HDR);
                            let (id, p) = me.tx.begin(rel, len);
                            let s = me.s();
                            let cut = pick(S::Work, &[u64::MAX, u64::MAX, 0, 1, 4]);
                            let r = match cut {
                                u64::MAX => Some(s.send(&p, reliability(rel)).await),
                                0 => tokio::select! {
                                    biased;
                                    r = s.send(&p, reliability(rel)) => Some(r),
                                    _ = tokio::task::yield_now() => None,
                                },
                                d => timeout(ms(d), s.send(&p, reliability(rel))).await.ok(),
                            };
                            match r {
                                Some(r) => {
                                    let f = fate(&r);
                                    me.tx.end(id, f);
                                    if f == Fate::Closed {
                                        break;
                                    }
                                }
                                None => {
                                    sim::probe("send_cancelled");
                                    me.tx.end(id, Fate::Cancelled)
                                }
                            }
                            if chance(S::Work, 100_000) {
                                if timeout(ms(pick(S::Work, &[1u64, 8, 40])), s.flush()).await.is_err() {
                                    sim::probe("flush_cancelled");
                                }
                            }
                            think(style).await;
                        }
                        live.set(live.get() - 1);
                    });
                }
            }
        }
        let until = sim::now() + pick(S::Plan, &[3u64, 8]) * SEC;
        let fd = sim::spawn_on(0, fault_driver(FaultOpts { partitions: true, stalls: true, clock: false, budget: 8 * SEC }, until));
        wait_until(until - sim::now(), || live.get() == 0 && conns.iter().all(|c| c.c.tx.settled() && c.s.tx.settled())).await;
        fd.abort();
        quiesce();
        let ok = wait_until(crate::session::SETTLE + 20 * SEC, || live.get() == 0 && conns.iter().all(|c| c.c.tx.settled() && c.s.tx.settled())).await;
        if !ok {
            for c in &conns {
                for e in [&c.c, &c.s] {
                    let owed = e.tx.owed();
                    if !owed.is_empty() {
                        h::viol("P20", "lost", format!("{}: {}", e.tx.0.borrow().name, e.tx.describe_owed(&owed)));
                    }
                    if !e.open() {
                        h::viol("P20", "closed", format!("{} was closed ({:?}) next to cancelled calls", e.rx.0.borrow().name, e.recv_err.borrow()));
                    }
                }
            }
            if live.get() > 0 {
                h::viol("P20", "stuck", "a send() has not returned after other calls were cancelled".into());
            }
        }
        // whatever the abandoned connects began is cleaned up again, on both sides
        let left = wait_until(25 * SEC, || sim::node_tasks(quitter) == 0 && sim::node_sockets(quitter) == 0).await;
        if !left {
            h::viol(
                "P20",
                "connect-leak",
                format!(
                    "25 s after every connect() on a host was abandoned it still has {} sockets and tasks {:?}",
                    sim::node_sockets(quitter),
                    sim::node_task_list(quitter)
                ),
            );
        }
        let qip = ip(quitter);
        let socks: Vec<Sock> = srv.got.borrow().iter().filter(|x| x.0.ip() == qip).map(|x| x.1.clone()).collect();
        for s in socks {
            let a = s.peer_addr().unwrap();
            let r = sim::spawn_on(SERVER, async move {
                loop {
                    match timeout(Duration::from_secs(80), s.recv()).await {
                        Err(_) => return false,
                        Ok(Err(_)) => return true,
                        Ok(Ok(_)) => {}
                    }
                }
            })
            .await
            .unwrap();
            if !r {
                h::viol("P20", "half-open", format!("the session of the abandoned connect from {} is still open after 80 s", a));
            }
        }
        check_panics(&["P20"]);
        h::nontrivial();
    });
}

// ---- P21 -------------------------------------------------------------------
pub fn p21(np: bool) {
    sched_plan(np);
    nodes(3);
    let link = net::Link { base: pick(S::Plan, &[200u64, 2_000, 20_000]) * 1000, ..Default::default() };
    let how = choose(S::Plan, 3); // crash, close, drop
    let rounds = if how == 0 { 1 } else { 1 + choose(S::Plan, 3) };
    let loss = pick(S::Plan, &[0u32, 0, 50_000]);
    drive(async move {
        h::adopt();
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        sim::world().net.default = link;
        let node = 2;
        let mut last: Option<SocketAddr> = None;
        // somebody else's connection must not notice
        let by = match connect_on(3, srv.addr, 30 * SEC).await {
            Some(Ok(s)) => s,
            _ => {
                h::inconclusive("bystander");
                return;
            }
        };
        let ba = client_addr(3, &by);
        let bs = srv.wait_for(ba, 5 * SEC).await;
        let bs = match bs {
            Some(b) => b,
            None => {
                h::inconclusive("bystander");
                return;
            }
        };
        let (up, down) = flows(99);
        let bystander = Conn { k: 99, c: Ep::new(3, Some(Rc::new(by)), up.clone(), down.clone()), s: Ep::new(SERVER, Some(bs), down, up) };
        bystander.c.spawn_reader();
        bystander.s.spawn_reader();
        let keep = bystander.c.clone();
        let stop = Rc::new(Cell::new(false));
        let st2 = stop.clone();
        sim::spawn_on(3, async move {
            while !st2.get() {
                if keep.send(Rel::RO, 50).await == Fate::Closed {
                    break;
                }
                sleep(ms(3000)).await;
            }
        });
        for round in 0..=rounds {
            let before = srv.got.borrow().len();
            net::reuse_ports(node);
            let t = sim::now();
            let bound = if round == 0 || how != 0 { 20 * SEC } else { 80 * SEC };
            let mut l = link;
            l.loss = if round == 0 { 0 } else { loss };
            sim::world().net.default = l;
            let c = match connect_on(node, srv.addr, bound).await {
                Some(Ok(c)) => c,
                Some(Err(e)) => {
                    h::viol("P21", "connect-failed", format!("connecting again from the same address failed: {:?}", e));
                    return;
                }
                None => {
                    h::viol("P21", "connect-stuck", format!("connecting again from the same address did not succeed within {} s", bound / SEC));
                    return;
                }
            };
            sim::world().net.default = link;
            let a = client_addr(node, &c);
            if let Some(l) = last {
                if l == a {
                    sim::probe("same_address");
                } else {
                    h::inconclusive("other-port");
                }
            }
            last = Some(a);
            if !wait_until(10 * SEC, || srv.got.borrow().len() > before).await {
                h::viol("P21", "not-accepted", format!("{} connected again but was not accepted", a));
                return;
            }
            let got = srv.got.borrow().len();
            if got != before + 1 {
                h::viol("P21", "accept-count", format!("{} accepts for one connect", got - before));
            }
            let s = srv.got.borrow().last().unwrap().1.clone();
            if s.peer_addr().unwrap() != a {
                h::viol("P21", "peer-addr", format!("{} connected, the accepted socket says {:?}", a, s.peer_addr()));
            }
            sim::trace(|| format!("round {} connected in {} ms", round, (sim::now() - t) / MS));
            let (up, down) = flows(round as usize);
            let conn = Conn { k: round as usize, c: Ep::new(node, Some(Rc::new(c)), up.clone(), down.clone()), s: Ep::new(SERVER, Some(s), down, up) };
            conn.c.spawn_reader();
            conn.s.spawn_reader();
            if !exchange(&[conn.clone()], 3 + choose(S::Work, 12) as usize, &[Rel::RO, Rel::R, Rel::RS], 45 * SEC, "P21", "no-data").await {
                return;
            }
            // leave data on the way in some runs
            if chance(S::Work, 500_000) {
                for _ in 0..choose(S::Work, 8) {
                    conn.s.send(Rel::RO, 100).await;
                    conn.c.send(Rel::RO, 100).await;
                }
            }
            if round == rounds {
                conn.c.tx.0.borrow_mut().muted = true;
                break;
            }
            match how {
                0 => {
                    let d = pick(S::Plan, &[0u64, 30, 500, 5_000]);
                    sim::crash(node);
                    sim::as_node(node, || {
                        conn.c.let_go();
                    });
                    sleep(ms(d)).await;
                    sim::restart(node);
                }
                1 => {
                    let s = conn.c.s();
                    let r = sim::spawn_on(node, async move { s.close().await }).await.unwrap();
                    if r.is_err() {
                        h::viol("P21", "close", format!("close() failed: {:?}", r));
                    }
                    // the library's receive task keeps the port until it notices
                    if !wait_until(25 * SEC, || sim::node_sockets(node) == 0).await {
                        h::viol("P21", "port-held", "25 s after close() the socket is still bound".into());
                        return;
                    }
                    sim::as_node(node, || {
                        conn.c.let_go();
                    });
                }
                _ => {
                    // the reader holds the socket: end it by dropping both
                    sim::as_node(node, || {
                        conn.c.let_go();
                    });
                    conn.s.send(Rel::RO, 30).await;
                    if !wait_until(25 * SEC, || sim::node_sockets(node) == 0).await {
                        h::viol("P21", "port-held", "25 s after the last handle was dropped the socket is still bound".into());
                        return;
                    }
                }
            }
            sleep(ms(pick(S::Plan, &[1000u64, 1500, 4000]))).await;
        }
        stop.set(true);
        exchange(&[bystander.clone()], 3, &[Rel::RO], 45 * SEC, "P21", "bystander").await;
        check_panics(&["P21"]);
        h::nontrivial();
    });
}
