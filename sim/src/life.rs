//! The end of connections and listeners: close, drop, death of the peer,
//! listener shutdown, and what is left behind.
use crate::conn::CONNECT_BOUND;
use crate::h;
use crate::interpose;
use crate::kit::*;
use crate::oracle::*;
use crate::refpeer::{self, Peer};
use crate::session::{connect_all, count_dups, SETTLE};
use crate::wire::{self, Rel};
use rust_raknet::{error::RaknetError, RaknetListener, RaknetSocket};
use std::cell::{Cell, RefCell};
use std::net::SocketAddr;
use std::rc::Rc;
use tokio::sim::{self, chance, choose, net, pick, range, MS, S, SEC};
use tokio::time::{sleep, timeout, Duration};

/// close()/drop is noticed by the other end within this on a network that
/// delivers at least four of five datagrams
pub const CLOSE_BOUND: u64 = 15 * SEC;
/// silence of the peer is noticed within this (60 s timeout plus slack)
pub const DEAD_BOUND: u64 = 80 * SEC;

pub fn open_conns_light() -> net::Link {
    let mut l = net::Link { base: pick(S::Plan, &[200u64, 1_000, 10_000, 40_000]) * 1000, ..Default::default() };
    l.jitter = pick(S::Plan, &[0, 0, l.base / 2]);
    l.loss = pick(S::Plan, &[0u32, 0, 50_000, 150_000]);
    l.dup = pick(S::Plan, &[0u32, 0, 50_000]);
    h::note(format!("link={}us+{} loss={} dup={}", l.base / 1000, l.jitter / 1000, l.loss, l.dup));
    l
}

/// Drain a socket until recv() fails; true if it failed within the bound.
async fn ends(node: usize, s: Sock, flow: Option<Flow>, within: u64) -> Option<String> {
    sim::spawn_on(node, async move {
        let until = sim::now() + within;
        loop {
            if sim::now() >= until {
                return None;
            }
            match timeout(Duration::from_nanos(until - sim::now()), s.recv()).await {
                Err(_) => return None,
                Ok(Err(e)) => return Some(format!("{:?}", e)),
                Ok(Ok(d)) => {
                    if let Some(f) = &flow {
                        f.received(&d)
                    }
                }
            }
        }
    })
    .await
    .unwrap()
}

/// After the end of a connection recv() fails with ConnectionClosed and nothing else.
fn end_kind(prop: &str, who: &str, err: &Option<String>) {
    if let Some(e) = err {
        if e != "ConnectionClosed" {
            h::viol(prop, "end-error", format!("recv() of {} failed with {} instead of ConnectionClosed", who, e));
        }
    }
}

// ---- P09 -------------------------------------------------------------------
/// A server that turns some clients away: it drops or closes their sockets as
/// soon as accept() returns them. They learn, others are served.
pub fn p09_turned_away(np: bool) {
    sched_plan(np);
    let n = range(S::Plan, 2, 6) as usize;
    nodes(1 + n);
    let mut link = open_conns_light();
    link.loss = link.loss.min(80_000);
    let away: Vec<bool> = (0..n).map(|i| i > 0 && chance(S::Plan, 700_000)).collect();
    drive(async move {
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        for i in (0..n).filter(|i| away[*i]) {
            srv.turn_away.borrow_mut().insert(ip(2 + i), 0);
        }
        sleep(ms(100)).await;
        let base = sim::node_tasks(SERVER);
        sim::world().net.default = link;
        let done = Rc::new(Cell::new(0));
        let ended: Rc<RefCell<Vec<Option<RaknetSocket>>>> = Default::default();
        for i in (0..n).filter(|i| away[*i]) {
            let (addr, done, ended) = (srv.addr, done.clone(), ended.clone());
            sim::spawn_on(2 + i, async move {
                let r = RaknetSocket::connect(&addr).await;
                sim::trace(|| format!("connect: {:?}", r.as_ref().err()));
                if let Ok(s) = r {
                    while s.recv().await.is_ok() {}
                    // the application holds on to it
                    ended.borrow_mut().push(Some(s));
                }
                done.set(done.get() + 1);
            });
        }
        let conns = match connect_all(&srv, 1, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        for c in &conns {
            c.c.spawn_reader();
            c.s.spawn_reader();
        }
        h::adopt();
        count_dups(&conns);
        if !exchange(&conns, 10, &[Rel::RO, Rel::R], SETTLE, "P09", "bystander").await {
            return;
        }
        let want = away.iter().filter(|a| **a).count();
        // everyone has been turned away, and 15 s have passed since
        let t = srv.turn_away.clone();
        wait_until(90 * SEC, || done.get() == want || t.borrow().values().all(|t| *t > 0 && sim::now() > *t + 15 * SEC)).await;
        if done.get() < want {
            if t.borrow().values().any(|t| *t == 0) {
                return h::no_connect("connect");
            }
            return h::viol("P09", "turned-away", format!("the server dropped the sockets of {} clients as soon as they were accepted; 15 s later only {} know", want, done.get()));
        }
        if !wait_until(DEAD_BOUND, || sim::node_tasks(SERVER) <= base + 5).await {
            h::viol("P09", "turned-away", format!("tasks of dropped sockets still run: {:?}", sim::node_task_list(SERVER)));
        }
        check_panics(&["P09"]);
        h::nontrivial();
    });
}

pub fn p09(np: bool) {
    sched_plan(np);
    nodes(3);
    let link = open_conns_light();
    let side = chance(S::Plan, 500_000); // who closes: client or server
    let how = choose(S::Plan, 4); // 0 close, 1 drop, 2 close from several tasks, 3 both sides close
    let flushed = chance(S::Plan, 600_000);
    let late_reader = chance(S::Plan, 400_000);
    let traffic = chance(S::Plan, 600_000);
    let stall = pick(S::Plan, &[0u64, 0, 0, 300, 2000]);
    h::note(format!("side={} how={} flushed={} late={} traffic={}", side, how, flushed, late_reader, traffic));
    drive(async move {
        roomy();
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let conns = match connect_all(&srv, 2, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        h::adopt();
        count_dups(&conns);
        sim::world().net.default = link;
        let c = conns[0].clone();
        let by = conns[1].clone();
        by.c.spawn_reader();
        by.s.spawn_reader();
        let (me, other) = if side { (c.c.clone(), c.s.clone()) } else { (c.s.clone(), c.c.clone()) };
        // some history first
        for e in [&me, &other] {
            for _ in 0..choose(S::Work, 12) {
                e.send(pick_rel(&[Rel::RO, Rel::R, Rel::RO]), msg_len(Rel::RO).clamp(HDR, 1300)).await;
            }
        }
        if !late_reader {
            me.spawn_reader();
            other.spawn_reader();
        }
        let mut flushed_op = 0;
        if flushed {
            let s = me.s();
            flushed_op = op();
            let r = sim::spawn_on(me.node, async move { timeout(Duration::from_secs(50), s.flush()).await }).await.unwrap();
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return h::viol("P09", "flush-error", format!("flush() on an open connection failed: {:?}", e)),
                Err(_) => return h::inconclusive("flush"),
            }
        } else {
            sleep(ms(range(S::Work, 0, 200))).await;
        }
        // traffic still running while it closes
        let stop = Rc::new(Cell::new(false));
        let live = Rc::new(Cell::new(0usize));
        if traffic {
            for e in [&me, &other] {
                let e = e.clone();
                let stop = stop.clone();
                let live = live.clone();
                let burst = chance(S::Work, 400_000);
                live.set(live.get() + 1);
                let drop_mode = how == 1;
                let mine = e.node == me.node;
                sim::spawn_on(e.node, async move {
                    loop {
                        if stop.get() || (drop_mode && mine) {
                            break;
                        }
                        if e.send(pick_rel(&[Rel::RO, Rel::R, Rel::U]), msg_len(Rel::R).max(HDR)).await == Fate::Closed {
                            break;
                        }
                        if !burst || chance(S::Work, 100_000) {
                            sleep(ms(range(S::Work, 1, 40))).await;
                        }
                        if e.tx.len() > 600 {
                            sleep(ms(200)).await;
                        }
                    }
                    live.set(live.get() - 1);
                });
            }
            sleep(ms(range(S::Work, 0, 300))).await;
        }
        if stall > 0 {
            sim::stall(if chance(S::Fault, 500_000) { me.node } else { other.node }, stall * MS);
        }
        // flush() pending across the close
        let fl = if chance(S::Work, 300_000) && how != 1 {
            let s = me.s();
            Some(sim::spawn_on(me.node, async move { timeout(Duration::from_secs(30), s.flush()).await }))
        } else {
            None
        };
        // many tasks send at the moment it closes
        if chance(S::Work, 250_000) {
            for e in [&me, &other] {
                if how == 1 && e.node == me.node {
                    continue;
                }
                for _ in 0..range(S::Work, 8, 40) {
                    let e = e.clone();
                    let live = live.clone();
                    let after = choose(S::Work, 60);
                    live.set(live.get() + 1);
                    sim::spawn_on(e.node, async move {
                        sleep(ms(after)).await;
                        e.send(pick_rel(&[Rel::RO, Rel::R, Rel::U, Rel::US]), range(S::Work, HDR as u64, 1300) as usize).await;
                        live.set(live.get() - 1);
                    });
                }
            }
            sleep(ms(choose(S::Work, 60))).await;
            sim::probe("send_storm_at_close");
        }
        let t = sim::now();
        let both = how == 3;
        if how == 1 {
            // drop: the reader holds a handle as well, so only without one
            sim::as_node(me.node, || {
                me.let_go();
            });
            // a reader blocked in recv() lets go with the next message
            if !late_reader {
                if other.tx.0.borrow().msgs.iter().all(|m| m.fate != Fate::Pending) && !traffic {
                    other.send(Rel::RO, 20).await;
                }
            }
            // accepted sockets are also held by the accept list
            if me.node == SERVER {
                let a = client_addr(c.c.node, &other.s());
                sim::as_node(SERVER, || srv.forget(a));
            }
        } else {
            let k = if how == 2 { 3 } else { 1 };
            let mut hs = Vec::new();
            for _ in 0..k {
                let s = me.s();
                hs.push(sim::spawn_on(me.node, async move { timeout(Duration::from_secs(15), s.close()).await }));
            }
            if both {
                let s = other.s();
                hs.push(sim::spawn_on(other.node, async move { timeout(Duration::from_secs(15), s.close()).await }));
            }
            for j in hs {
                match j.await {
                    Ok(Ok(Ok(()))) => {}
                    Ok(Ok(Err(e))) => h::viol("P09", "close-error", format!("close() failed: {:?}", e)),
                    _ => h::viol("P09", "close-stuck", "close() did not return within 15 s".into()),
                }
            }
            // the API says so at once
            let s = me.s();
            let m2 = me.clone();
            sim::spawn_on(me.node, async move {
                let (id, p) = m2.tx.begin(Rel::RO, 20);
                let r = timeout(Duration::from_secs(5), s.send(&p, reliability(Rel::RO))).await;
                m2.tx.end(id, Fate::Closed);
                if !matches!(r, Ok(Err(RaknetError::ConnectionClosed))) {
                    h::viol("P09", "send-after-close", format!("send() after close() returned {:?}", r));
                }
                let r = timeout(Duration::from_secs(5), s.flush()).await;
                if !matches!(r, Ok(Err(RaknetError::ConnectionClosed))) {
                    h::viol("P09", "flush-after-close", format!("flush() after close() returned {:?}", r));
                }
                let r = timeout(Duration::from_secs(5), s.close()).await;
                if !matches!(r, Ok(Ok(()))) {
                    h::viol("P09", "close-twice", format!("the second close() returned {:?}", r));
                }
            })
            .await
            .unwrap();
        }
        if let Some(f) = fl {
            match f.await {
                Ok(Err(_)) => h::viol("P09", "flush-stuck", "a flush() that was waiting when close() was called never returned".into()),
                _ => {}
            }
        }
        // the local recv() ends
        if how != 1 {
            let within = CLOSE_BOUND;
            let ended = if late_reader {
                let e = ends(me.node, me.s(), Some(me.rx.clone()), within).await;
                end_kind("P09", "the closed socket", &e);
                e.is_some()
            } else {
                let e = wait_until(within, || !me.open()).await;
                end_kind("P09", "the closed socket", &me.recv_err.borrow());
                e
            };
            if !ended {
                h::viol("P09", "local-recv", format!("recv() still waits {} s after close() of the same socket", within / SEC));
            }
        }
        // and so does the other end's
        let left = (t + CLOSE_BOUND + stall * MS).saturating_sub(sim::now());
        if late_reader {
            // everything delivered before the end stays readable
            sleep(ms(2000)).await;
            let r = ends(other.node, other.s(), Some(other.rx.clone()), left).await;
            end_kind("P09", "the peer of a closed socket", &r);
            if r.is_none() {
                h::viol("P09", "peer-recv", format!("the peer's recv() still waits {} s after the other end was closed", CLOSE_BOUND / SEC));
            }
        } else if !wait_until(left, || !other.open()).await {
            h::viol("P09", "peer-recv", format!("the peer's recv() still waits {} s after the other end was closed", CLOSE_BOUND / SEC));
        }
        if flushed {
            // flushed means it is at the other end, so closing cannot take it away
            let owed = me.tx.owed_before(flushed_op);
            if !owed.is_empty() {
                h::viol("P09", "flushed-lost", format!("flushed, then closed, but the peer's recv() never returned: {}", me.tx.describe_owed(&owed)));
            }
        }
        end_kind("P09", "the peer of a closed socket", &other.recv_err.borrow());
        stop.set(true);
        // the peer's send() and flush() fail, nothing hangs
        if !wait_until(20 * SEC, || live.get() == 0).await {
            h::viol("P09", "send-stuck", "a send() is still pending 20 s after the connection ended".into());
        }
        let s = other.s();
        let r = sim::spawn_on(other.node, async move { timeout(Duration::from_secs(5), s.send(&payload(1, 1, 20), reliability(Rel::R))).await }).await.unwrap();
        if !matches!(r, Ok(Err(RaknetError::ConnectionClosed))) {
            h::viol("P09", "peer-send", format!("send() on a connection the peer closed returned {:?}", r));
        }
        let s = other.s();
        let r = sim::spawn_on(other.node, async move { timeout(Duration::from_secs(5), s.recv()).await }).await.unwrap();
        if !matches!(r, Ok(Err(RaknetError::ConnectionClosed))) {
            h::viol("P09", "peer-recv-again", format!("recv() after the end returned {:?}", r.map(|x| x.map(|y| y.len()))));
        }
        // the other connection of the same listener does not notice
        quiesce();
        exchange(&[by], 3, &[Rel::RO, Rel::R], CONNECT_BOUND, "P09", "bystander").await;
        check_panics(&["P09"]);
        sim::probe(["ended_by_close", "ended_by_drop", "ended_by_concurrent_close", "ended_by_both"][how as usize]);
        h::nontrivial();
    });
}

// ---- P10 -------------------------------------------------------------------
async fn pulse(e: Ep, every: u64, stop: Rc<Cell<bool>>) {
    while !stop.get() {
        if e.send(pick_rel(&[Rel::RO, Rel::R, Rel::RO]), 60).await == Fate::Closed {
            break;
        }
        sleep(Duration::from_nanos(every)).await;
    }
}
fn step_clocks() {
    for k in all_nodes() {
        if chance(S::Fault, 400_000) {
            let d = pick(S::Fault, &[1i64, 30, 61, 600, 86_400, 400 * 86_400]);
            let d = if chance(S::Fault, 500_000) { -d } else { d };
            sim::step_wall_clock(k, d * SEC as i64);
        }
    }
}
/// A peer that dies is noticed; a peer that lives is not given up.
pub fn p10(np: bool) {
    sched_plan(np);
    let n = 1 + choose(S::Plan, 3) as usize;
    nodes(1 + n);
    let link = open_conns_light();
    let clocks = chance(S::Plan, 600_000);
    drive(async move {
        h::adopt();
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let conns = match connect_all(&srv, n, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        count_dups(&conns);
        sim::world().net.default = link;
        let heard = Heard::attach();
        for c in &conns {
            c.c.spawn_reader();
            c.s.spawn_reader();
        }
        let t0 = sim::now();
        let life = pick(S::Plan, &[20u64, 100, 200]) * SEC;
        // sparse traffic, perhaps in one direction only
        let stops: Vec<Rc<Cell<bool>>> = conns.iter().map(|_| Rc::new(Cell::new(false))).collect();
        for (c, stop) in conns.iter().zip(&stops) {
            let dir = choose(S::Work, 3);
            let every = pick(S::Work, &[1u64, 5, 15, 25]) * SEC;
            if dir != 1 {
                sim::spawn_on(c.c.node, pulse(c.c.clone(), every, stop.clone()));
            }
            if dir != 0 {
                sim::spawn_on(SERVER, pulse(c.s.clone(), every, stop.clone()));
            }
        }
        // outages shorter than the timeout, clock steps
        while sim::now() < t0 + life {
            sleep(ms(range(S::Fault, 3000, 40_000).min((t0 + life - sim::now()) / MS + 1))).await;
            if clocks && chance(S::Fault, 500_000) {
                step_clocks();
            }
            if chance(S::Fault, 250_000) && sim::now() + 40 * SEC < t0 + life {
                let a = 2 + choose(S::Fault, n as u64) as usize;
                let d = pick(S::Fault, &[500u64, 4_000, 12_000]);
                net::cut(SERVER, a);
                if chance(S::Fault, 500_000) {
                    net::cut(a, SERVER);
                }
                sleep(ms(d)).await;
                net::heal(SERVER, a);
                net::heal(a, SERVER);
            }
            for c in &conns {
                if c.c.open() && c.s.open() {
                    continue;
                }
                match heard.wrongly_ended(c) {
                    Some(m) => h::viol("P10", "spurious-close", format!("after {} s: {}", (sim::now() - t0) / SEC, m)),
                    None => h::inconclusive("silence"),
                }
                return;
            }
        }
        // the end of some peers
        let dead = choose(S::Plan, n as u64) as usize;
        let how = choose(S::Plan, 5);
        let t = sim::now();
        let mut busy = false;
        let mut l = link;
        l.loss = 0;
        sim::world().net.default = l;
        for (k, st) in stops.iter().enumerate() {
            if k == dead || how == 1 {
                st.set(true);
            }
        }
        let victims: Vec<Ep> = match how {
            0 => {
                // client crashes
                sim::crash(conns[dead].c.node);
                vec![conns[dead].s.clone()]
            }
            1 => {
                // server crashes
                sim::crash(SERVER);
                conns.iter().map(|c| c.c.clone()).collect()
            }
            2 => {
                // the path dies for good
                let a = conns[dead].c.node;
                net::cut(a, SERVER);
                net::cut(SERVER, a);
                vec![conns[dead].c.clone(), conns[dead].s.clone()]
            }
            3 => {
                // the client host freezes
                sim::stall(conns[dead].c.node, 500 * SEC);
                vec![conns[dead].s.clone()]
            }
            _ => {
                // one direction dies: the server hears nothing
                let a = conns[dead].c.node;
                net::cut(a, SERVER);
                vec![conns[dead].s.clone()]
            }
        };
        // with data outstanding, or none
        if chance(S::Plan, 500_000) {
            busy = true;
            for v in &victims {
                let v = v.clone();
                sim::spawn_on(v.node, async move {
                    for _ in 0..40 {
                        if v.send(Rel::RO, 200).await == Fate::Closed {
                            return;
                        }
                        sleep(ms(2000)).await;
                    }
                });
            }
        }
        // a waiting flush must not wait for ever
        let v0 = victims[0].clone();
        let s = v0.s();
        let fl = sim::spawn_on(v0.node, async move { timeout(Duration::from_secs(100), s.flush()).await });
        for _ in 0..((DEAD_BOUND / SEC) / 5) {
            if clocks && chance(S::Fault, 150_000) {
                step_clocks();
            }
            sleep(ms(5000)).await;
            if victims.iter().all(|v| !v.open()) {
                break;
            }
            if how != 4 {
                for v in &victims {
                    let peer = if v.node == SERVER { conns[dead].c.node } else { SERVER };
                    if !v.open() && heard.silence(peer, v.node, v.closed_at.get()) < 45 * SEC {
                        h::viol("P10", "early", format!("{} gave up after {} s of silence", v.rx.0.borrow().name, heard.silence(peer, v.node, v.closed_at.get()) / SEC));
                        return;
                    }
                }
            }
        }
        for v in &victims {
            if v.open() {
                h::viol("P10", "undetected", format!("{}: the peer has been silent for {} s and recv() still waits", v.rx.0.borrow().name, (sim::now() - t) / SEC));
            }
        }
        let r = fl.await.unwrap();
        if r.is_err() {
            h::viol("P10", "flush-stuck", "flush() still waits 100 s after the peer died".into());
        }
        if busy {
            sim::probe("died_with_data_outstanding");
        }
        // the others were used all the time and go on
        if how != 1 {
            for (k, c) in conns.iter().enumerate() {
                if k == dead {
                    continue;
                }
                if let Some(m) = heard.wrongly_ended(c) {
                    h::viol("P10", "spurious-close", m);
                }
                stops[k].set(true);
                if c.c.open() && c.s.open() {
                    quiesce_links();
                    exchange(&[c.clone()], 2, &[Rel::RO, Rel::R], CONNECT_BOUND, "P10", "survivor").await;
                }
            }
        }
        check_panics(&["P10"]);
        sim::probe(["client_crash", "server_crash", "path_dead", "client_frozen", "one_way_dead"][how as usize]);
        h::nontrivial();
    });
}
/// connect() when the server dies half-way through the handshake.
pub fn p10_connect(np: bool) {
    sched_plan(np);
    nodes(2);
    let rs = harness_node();
    let base = pick(S::Plan, &[200u64, 5_000, 40_000]) * 1000;
    let real = chance(S::Plan, 500_000);
    sim::world().net.default = net::Link { base, ..Default::default() };
    drive(async move {
        let sa = SocketAddr::new(net::node_ip(rs, false).unwrap(), 4001);
        let target;
        let mut keep = None;
        if real {
            let srv = Server::start(SERVER, PORT).await;
            target = srv.addr;
            keep = Some(srv);
            // the server host dies right after its reply 2 arrived
            let done = Rc::new(Cell::new(false));
            let after = pick(S::Plan, &[0u64, base / 3, base * 3 / 4, base * 2]);
            let d2 = done.clone();
            sim::world().net.on_deliver = Some(Box::new(move |p: &net::Packet| {
                if p.src_node == SERVER && p.data[0] == 0x08 && !d2.get() {
                    d2.set(true);
                    sim::call_at(sim::now() + after, || {
                        net::cut(SERVER, 2);
                        net::cut(2, SERVER);
                    });
                }
            }));
        } else {
            target = sa;
            let p = Peer::new(rs, sa, Default::default()).await;
            sim::spawn_on(rs, async move {
                // answers both requests, then never again
                let mut buf = vec![0u8; 2048];
                loop {
                    let (n, from) = match p.sock.recv_from(&mut buf).await {
                        Ok(x) => x,
                        Err(_) => continue,
                    };
                    match wire::parse(&buf[..n]) {
                        Ok(wire::Wire::Req1 { .. }) => {
                            let _ = p.sock.send_to(&wire::reply1(1, 1400), from).await;
                        }
                        Ok(wire::Wire::Req2 { mtu, .. }) => {
                            let _ = p.sock.send_to(&wire::reply2(1, from, mtu), from).await;
                        }
                        _ => {}
                    }
                }
            });
        }
        let t = sim::now();
        match connect_on(2, target, 100 * SEC).await {
            Some(Ok(_)) => {
                if !real {
                    h::viol("P10", "connected", "connect() succeeded although the server never accepted the connection".into());
                }
            }
            Some(Err(e)) => {
                sim::probe("connect_gave_up");
                if sim::now() - t < 40 * SEC {
                    h::viol("P10", "early", format!("connect() gave up after {} s: {:?}", (sim::now() - t) / SEC, e));
                }
            }
            None => h::viol("P10", "connect-stuck", "the server died during the handshake and connect() still waits after 100 s".into()),
        }
        if !wait_until(30 * SEC, || sim::node_tasks(2) == 0 && sim::node_sockets(2) == 0).await && !real {
            h::viol("P10", "connect-leak", format!("a failed connect() leaves {} sockets and {:?}", sim::node_sockets(2), sim::node_task_list(2)));
        }
        drop(keep);
        check_panics(&["P10"]);
        h::nontrivial();
    });
}

// ---- P12 -------------------------------------------------------------------
pub fn p12(np: bool) {
    sched_plan(np);
    let n = 1 + choose(S::Plan, 5) as usize;
    nodes(2 + n);
    let late = 2 + n; // a host that keeps connecting
    let rp = harness_node();
    let link = open_conns_light();
    let io = pick(S::Plan, &[0u32, 0, 20_000, 100_000]);
    let how = choose(S::Plan, 4); // 0,1 close; 2 drop; 3 close twice
    let listen_only = chance(S::Plan, 60_000);
    let no_listen = chance(S::Plan, 60_000);
    drive(async move {
        if no_listen {
            return p12_unlistened().await;
        }
        roomy();
        let srv = Server::start(SERVER, PORT).await;
        srv.accepting.set(!chance(S::Plan, 150_000));
        srv.spawn_accept();
        let mut conns = Vec::new();
        if !listen_only {
            if srv.accepting.get() {
                match connect_all(&srv, n, 60 * SEC).await {
                    Some(c) => conns = c,
                    None => return h::no_connect("connect"),
                }
            } else {
                // sessions that wait in the backlog
                for k in 0..n {
                    let addr = srv.addr;
                    match connect_on(2 + k, addr, 30 * SEC).await {
                        Some(Ok(s)) => {
                            let (up, down) = flows(k);
                            let c = Ep::new(2 + k, Some(Rc::new(s)), up.clone(), down.clone());
                            conns.push(Conn { k, c, s: Ep::new(SERVER, None, down, up) });
                        }
                        _ => return h::no_connect("connect"),
                    }
                }
            }
        }
        h::adopt();
        count_dups(&conns);
        sim::world().net.default = link;
        if io > 0 {
            sim::world().net.io.insert(SERVER, net::IoFaults { send_err: io, rx_cap: 100_000, ..Default::default() });
        }
        let stop = Rc::new(Cell::new(false));
        let mut odd: Vec<bool> = vec![false; conns.len()];
        let mut unread_by: Vec<bool> = vec![false; conns.len()];
        for (i, c) in conns.iter().enumerate() {
            let unread = chance(S::Work, 300_000);
            if !unread {
                c.c.spawn_reader();
                if c.s.sock.borrow().is_some() {
                    c.s.spawn_reader();
                }
            }
            for e in [&c.c, &c.s] {
                if e.sock.borrow().is_none() || chance(S::Work, 300_000) {
                    continue;
                }
                let me = e.clone();
                let stop = stop.clone();
                sim::spawn_on(e.node, async move {
                    while !stop.get() && me.tx.len() < 400 {
                        if me.send(pick_rel(&[Rel::RO, Rel::R, Rel::U, Rel::RS]), msg_len(Rel::R).max(HDR)).await == Fate::Closed {
                            break;
                        }
                        think(1).await;
                    }
                });
            }
            unread_by[i] = unread;
        }
        // half-open sessions: peers that stop after the offline handshake
        for q in 0..choose(S::Plan, 4) {
            let a = SocketAddr::new(net::node_ip(rp, false).unwrap(), 4100 + q as u16);
            let p = Peer::new(rp, a, refpeer::Opts { guid: 900 + q, ..Default::default() }).await;
            let addr = srv.addr;
            sim::spawn_on(rp, async move {
                let _ = p.handshake(addr, 3).await;
            });
        }
        sleep(ms(range(S::Work, 0, 1500))).await;
        // some clients leave, die or are cut off just before
        for (i, c) in conns.iter().enumerate() {
            match choose(S::Fault, 8) {
                0 => {
                    odd[i] = true;
                    sim::crash(c.c.node);
                }
                1 => {
                    odd[i] = true;
                    net::cut(c.c.node, SERVER);
                    net::cut(SERVER, c.c.node);
                }
                2 => {
                    let s = c.c.s();
                    sim::spawn_on(c.c.node, async move {
                        let _ = s.close().await;
                    });
                }
                3 => {
                    if let Some(s) = c.s.sock.borrow().as_ref() {
                        let s = s.clone();
                        sim::spawn_on(SERVER, async move {
                            let _ = s.close().await;
                        });
                    }
                }
                _ => {}
            }
        }
        if chance(S::Plan, 400_000) {
            sleep(ms(pick(S::Plan, &[1u64, 30, 70, 200]))).await;
        }
        // somebody connects while it closes
        let racer = chance(S::Plan, 500_000);
        let raced: Rc<RefCell<Option<RaknetSocket>>> = Rc::new(RefCell::new(None));
        if racer {
            let (addr, r2) = (srv.addr, raced.clone());
            let d = range(S::Plan, 0, 120);
            sim::spawn_on(late, async move {
                sleep(ms(d)).await;
                if let Ok(Ok(s)) = timeout(Duration::from_secs(8), RaknetSocket::connect(&addr)).await {
                    *r2.borrow_mut() = Some(s);
                }
            });
            sleep(ms(range(S::Plan, 0, 120))).await;
        }
        if chance(S::Plan, 100_000) {
            sim::stall(SERVER, 400 * MS);
        }
        srv.accepting.set(false);
        let t = sim::now();
        let l = srv.l.clone();
        if how == 2 {
            let mut g = l.lock().await;
            let x = g.take();
            sim::as_node(SERVER, || drop(x));
        } else {
            let again = how == 3;
            let r = sim::spawn_on(SERVER, async move {
                let mut g = l.lock().await;
                let x = g.as_mut().unwrap();
                let r = timeout(Duration::from_secs(15), x.close()).await;
                if !matches!(r, Ok(Ok(()))) {
                    return Err(format!("{:?}", r));
                }
                if x.local_addr().is_ok() {
                    h::viol("P12", "local-addr", "a closed listener still reports a local address".into());
                }
                match timeout(Duration::from_secs(5), x.accept()).await {
                    Ok(Err(RaknetError::NotListen)) => {}
                    o => h::viol("P12", "accept-after-close", format!("accept() on a closed listener: {:?}", o.map(|y| y.map(|_| "a socket")))),
                }
                if again {
                    let r = timeout(Duration::from_secs(5), x.close()).await;
                    if !matches!(r, Ok(Ok(()))) {
                        return Err(format!("second close: {:?}", r));
                    }
                }
                Ok(())
            })
            .await
            .unwrap();
            if let Err(e) = r {
                h::viol("P12", "close-stuck", format!("listener close() did not complete: {}; tasks {:?}", e, sim::node_task_list(SERVER)));
                return;
            }
        }
        // the port is free again
        if !wait_until((t + 15 * SEC).saturating_sub(sim::now()).max(MS), || net::ports_bound(SERVER).is_empty()).await {
            h::viol("P12", "port-held", format!("15 s after the listener was {} its port is still bound; tasks {:?}", if how == 2 { "dropped" } else { "closed" }, sim::node_task_list(SERVER)));
            return;
        }
        // every session of it ends, on both sides
        for (i, c) in conns.iter().enumerate() {
            let s = c.s.sock.borrow().clone();
            if let Some(s) = s {
                let left = (t + CLOSE_BOUND).saturating_sub(sim::now()).max(SEC);
                let ended = if unread_by[i] {
                    let e = ends(SERVER, s.clone(), None, left).await;
                    end_kind("P12", "an accepted socket", &e);
                    e.is_some()
                } else {
                    let e = wait_until(left, || !c.s.open()).await;
                    end_kind("P12", "an accepted socket", &c.s.recv_err.borrow());
                    e
                };
                if !ended {
                    h::viol("P12", "session-open", format!("recv() on an accepted socket still waits {} s after the listener was closed", CLOSE_BOUND / SEC));
                }
                let r = sim::spawn_on(SERVER, async move { timeout(Duration::from_secs(5), s.send(&payload(1, 1, 20), reliability(Rel::R))).await }).await.unwrap();
                if !matches!(r, Ok(Err(RaknetError::ConnectionClosed))) {
                    h::viol("P12", "session-send", format!("send() on a session of a closed listener: {:?}", r));
                }
            }
            if !odd[i] && io == 0 {
                let s = c.c.s();
                let left = (t + CLOSE_BOUND).saturating_sub(sim::now()).max(SEC);
                let ended = if unread_by[i] {
                    let e = ends(c.c.node, s, None, left).await;
                    end_kind("P12", "a client of a closed listener", &e);
                    e.is_some()
                } else {
                    let e = wait_until(left, || !c.c.open()).await;
                    end_kind("P12", "a client of a closed listener", &c.c.recv_err.borrow());
                    e
                };
                if !ended {
                    h::viol("P12", "client-open", format!("client {} still waits {} s after the listener was closed", i, CLOSE_BOUND / SEC));
                }
            }
        }
        stop.set(true);
        // listening again on the same address works
        quiesce();
        for c in &conns {
            sim::restart(c.c.node);
        }
        let addr = srv.addr;
        let again = sim::spawn_on(SERVER, async move {
            let mut l = RaknetListener::bind(&addr).await?;
            l.listen().await;
            Ok::<_, RaknetError>(l)
        })
        .await
        .unwrap();
        match again {
            Err(e) => h::viol("P12", "rebind", format!("binding the same address again failed: {:?}", e)),
            Ok(l) => {
                let srv2 = Server::wrap(SERVER, addr, l);
                srv2.spawn_accept();
                sleep(ms(1000)).await;
                sim::as_node(late, || raced.borrow_mut().take());
                let (k, node) = (7, late);
                match connect_on(node, addr, CONNECT_BOUND).await {
                    Some(Ok(s)) => {
                        let a = client_addr(node, &s);
                        match srv2.wait_for(a, 10 * SEC).await {
                            None => h::viol("P12", "second-listener", "the listener bound afterwards does not accept".into()),
                            Some(x) => {
                                let (up, down) = flows(k);
                                let c = Conn { k, c: Ep::new(node, Some(Rc::new(s)), up.clone(), down.clone()), s: Ep::new(SERVER, Some(x), down, up) };
                                c.c.spawn_reader();
                                c.s.spawn_reader();
                                exchange(&[c], 3, &[Rel::RO], CONNECT_BOUND, "P12", "second-listener").await;
                            }
                        }
                    }
                    _ => h::viol("P12", "second-listener", "no connection to the listener bound afterwards".into()),
                }
            }
        }
        check_panics(&["P12"]);
        sim::probe(if how == 2 { "listener_dropped" } else { "listener_closed" });
        h::nontrivial();
    });
}
async fn p12_unlistened() {
    let addr = server_addr();
    let drop_it = chance(S::Plan, 500_000);
    let r = sim::spawn_on(SERVER, async move {
        let mut l = RaknetListener::bind(&addr).await.map_err(|e| format!("bind {:?}", e))?;
        match timeout(Duration::from_secs(5), l.accept()).await {
            Ok(Err(RaknetError::NotListen)) => {}
            o => return Err(format!("accept() before listen(): {:?}", o.map(|y| y.map(|_| "a socket")))),
        }
        if !drop_it {
            let r = timeout(Duration::from_secs(15), l.close()).await;
            if !matches!(r, Ok(Ok(()))) {
                return Err(format!("close() of a listener that never listened: {:?}", r));
            }
        }
        drop(l);
        Ok(())
    })
    .await
    .unwrap();
    if let Err(e) = r {
        h::viol("P12", "unlistened", e);
        return;
    }
    if !wait_until(15 * SEC, || net::ports_bound(SERVER).is_empty() && sim::node_tasks(SERVER) == 0).await {
        h::viol("P12", "port-held", format!("a listener that never listened still holds its port; tasks {:?}", sim::node_task_list(SERVER)));
    }
    let again = sim::spawn_on(SERVER, async move { RaknetListener::bind(&addr).await.is_ok() }).await.unwrap();
    if !again {
        h::viol("P12", "rebind", "binding the address of a closed listener failed".into());
    }
    check_panics(&["P12"]);
    sim::probe("never_listened");
    h::nontrivial();
}

// ---- P13 -------------------------------------------------------------------
/// Connections come and go; nothing of them stays.
pub fn p13(np: bool) {
    sched_plan(np);
    let n = 2 + choose(S::Plan, 3) as usize;
    nodes(1 + n);
    let link = open_conns_light();
    let rounds = 1 + choose(S::Plan, 3);
    drive(async move {
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        sleep(ms(100)).await;
        // listener tasks plus the accept loop of the harness
        let base_tasks = sim::node_tasks(SERVER);
        for _ in 0..rounds {
            sim::world().net.default = link;
            let mut hs = Vec::new();
            for k in 0..n {
                let node = 2 + k;
                let addr = srv.addr;
                let srv = srv.clone();
                hs.push(sim::spawn_on(0, async move {
                    let c = match connect_on(node, addr, 60 * SEC).await {
                        Some(Ok(c)) => Rc::new(c),
                        _ => return,
                    };
                    let a = client_addr(node, &c);
                    let s = match srv.wait_for(a, 10 * SEC).await {
                        Some(s) => s,
                        None => return,
                    };
                    let m = choose(S::Work, 30);
                    let (c2, s2) = (c.clone(), s.clone());
                    let j1 = sim::spawn_on(node, async move {
                        for i in 0..m {
                            if c2.send(&payload(1, i as u32, msg_len(Rel::RO).max(HDR)), reliability(Rel::RO)).await.is_err() {
                                break;
                            }
                        }
                    });
                    let j2 = sim::spawn_on(SERVER, async move {
                        for i in 0..m {
                            if s2.send(&payload(2, i as u32, 400), reliability(Rel::R)).await.is_err() {
                                break;
                            }
                        }
                    });
                    let _ = timeout(Duration::from_secs(20), async {
                        let _ = j1.await;
                        let _ = j2.await;
                    })
                    .await;
                    sleep(ms(range(S::Work, 0, 400))).await;
                    let how = choose(S::Work, 6);
                    match how {
                        0 => {
                            let c = c.clone();
                            let _ = sim::spawn_on(node, async move { c.close().await }).await;
                        }
                        1 => {
                            let s = s.clone();
                            let _ = sim::spawn_on(SERVER, async move { s.close().await }).await;
                        }
                        2 => {
                            sim::crash(node);
                            sleep(ms(100)).await;
                            sim::restart(node);
                        }
                        _ => {}
                    }
                    if how >= 4 {
                        // one end is dropped, the other learns of it
                        let first_c = how == 4;
                        if first_c {
                            sim::as_node(node, || drop(c));
                        } else {
                            sim::as_node(SERVER, || {
                                srv.forget(a);
                                drop(s);
                            });
                        }
                    } else {
                        sleep(ms(range(S::Work, 0, 3000))).await;
                        sim::as_node(node, || drop(c));
                        sim::as_node(SERVER, || {
                            srv.forget(a);
                            drop(s);
                        });
                    }
                    sim::probe("cycles");
                }));
            }
            for j in hs {
                let _ = j.await;
            }
        }
        quiesce();
        // everything the applications held is gone: 60 s for peers that
        // cannot know, plus slack
        sim::as_node(SERVER, || srv.forget_all());
        let ok = wait_until(DEAD_BOUND, || {
            sim::node_tasks(SERVER) <= base_tasks
                && (2..2 + n).all(|k| sim::node_tasks(k) == 0 && sim::node_sockets(k) == 0)
        })
        .await;
        if !ok {
            for k in 2..2 + n {
                if sim::node_tasks(k) > 0 || sim::node_sockets(k) > 0 {
                    h::viol("P13", "client-leak", format!("80 s after all connections ended client host {} has {} sockets and tasks {:?}", k, sim::node_sockets(k), sim::node_task_list(k)));
                    break;
                }
            }
            if sim::node_tasks(SERVER) > base_tasks {
                h::viol("P13", "server-leak", format!("80 s after all connections ended the server has {} tasks instead of {}: {:?}", sim::node_tasks(SERVER), base_tasks, sim::node_task_list(SERVER)));
            }
        }
        if net::ports_bound(SERVER).len() != 1 {
            h::viol("P13", "server-sockets", format!("the server has {:?} bound", net::ports_bound(SERVER)));
        }
        // and the listener itself goes without rest
        srv.accepting.set(false);
        let l = srv.l.clone();
        let close = chance(S::Plan, 500_000);
        let r = sim::spawn_on(SERVER, async move {
            let mut g = l.lock().await;
            let mut x = g.take().unwrap();
            drop(g);
            if close {
                let _ = timeout(Duration::from_secs(15), x.close()).await;
            }
        })
        .await;
        let _ = r;
        srv.accepting.set(true); // lets the harness accept loop see it is gone
        let ok = wait_until(20 * SEC, || sim::node_tasks(SERVER) == 0 && sim::node_sockets(SERVER) == 0).await;
        if !ok {
            h::viol("P13", "listener-leak", format!("20 s after the listener is gone the host has {} sockets and tasks {:?}", sim::node_sockets(SERVER), sim::node_task_list(SERVER)));
        }
        check_panics(&["P13"]);
        h::nontrivial();
    });
}

/// Heap in use apart from the simulator's records.
fn lib_heap() -> i64 {
    interpose::CUR.load(std::sync::atomic::Ordering::Relaxed) as i64 - sim::own_heap() as i64
}
/// Memory of one long connection under steady traffic and of many short ones.
pub fn p13_mem(np: bool) {
    sched_plan(np);
    nodes(3);
    let mut link = open_conns_light();
    link.base = link.base.min(10_000_000);
    link.reorder = pick(S::Plan, &[0u32, 50_000]);
    link.reorder_by = 30 * MS;
    let mix = choose(S::Plan, 4);
    drive(async move {
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let c = match connect_on(2, srv.addr, 60 * SEC).await {
            Some(Ok(c)) => Rc::new(c),
            _ => return h::no_connect("connect"),
        };
        let a = client_addr(2, &c);
        let s = match srv.wait_for(a, 10 * SEC).await {
            Some(s) => s,
            None => return h::no_connect("accept"),
        };
        sim::world().net.default = link;
        let got = Rc::new(Cell::new(0u64));
        for (node, x) in [(2, c.clone()), (SERVER, s.clone())] {
            let got = got.clone();
            sim::spawn_on(node, async move {
                while x.recv().await.is_ok() {
                    got.set(got.get() + 1);
                }
            });
        }
        // every buffer reaches a size it will not need again
        let mut rough = link.clone();
        rough.loss = 300_000;
        sim::world().net.default = rough;
        let mut hs = Vec::new();
        for (node, x) in [(2usize, c.clone()), (SERVER, s.clone())] {
            hs.push(sim::spawn_on(node, async move {
                for i in 0..800u32 {
                    if x.send(&payload(3, i, if mix < 2 { 100 } else { 200 }), reliability(if mix < 2 || (mix == 3 && i % 2 == 0) { Rel::RO } else { Rel::R })).await.is_err() {
                        return false;
                    }
                }
                timeout(Duration::from_secs(120), x.flush()).await.map(|r| r.is_ok()).unwrap_or(false)
            }));
        }
        sleep(ms(2000)).await;
        sim::world().net.default = link;
        for j in hs {
            if !j.await.unwrap() {
                return h::inconclusive("flush");
            }
        }
        let mut level = Vec::new();
        let mut rounds = 12;
        while level.len() < rounds {
            let mut hs = Vec::new();
            for (node, x) in [(2usize, c.clone()), (SERVER, s.clone())] {
                hs.push(sim::spawn_on(node, async move {
                    for i in 0..200u32 {
                        let (rel, len) = match mix {
                            0 => (Rel::RO, 100),
                            1 => (Rel::RO, if i % 8 == 0 { [1400, 3000, 2000, 9000][i as usize / 8 % 4] } else { 300 }),
                            2 => (pick_rel(&[Rel::R, Rel::RS, Rel::U, Rel::US]), 200),
                            _ => (pick_rel(&[Rel::RO, Rel::R, Rel::RS, Rel::U, Rel::US]), 700),
                        };
                        if x.send(&payload(3, i, len), reliability(rel)).await.is_err() {
                            return false;
                        }
                        if i % 10 == 9 {
                            sleep(ms(3)).await;
                        }
                    }
                    timeout(Duration::from_secs(60), x.flush()).await.map(|r| r.is_ok()).unwrap_or(false)
                }));
            }
            for j in hs {
                if !j.await.unwrap() {
                    return h::inconclusive("flush");
                }
            }
            sleep(ms(1500)).await;
            level.push(lib_heap());
            // steady state: buffers reach a new high-water mark now and then, ever
            // more rarely, but what was delivered and acknowledged is not kept
            if level.len() == 12 && level[11] - level[3] > 3_000 {
                sim::probe("memory_second_look");
                rounds = 60;
            }
        }
        sim::trace(|| format!("heap {:?} received {}", level, got.get()));
        if rounds == 60 {
            let grow = level[59] - level[11];
            let steps = (12..60).filter(|i| level[*i] - level[*i - 1] > 1000).count();
            if grow > 140_000 || (grow > 15_000 && steps >= 16) {
                h::viol("P13", "memory", format!("heap grows by {} bytes over 19200 delivered and acknowledged messages: {:?}", grow, level));
            }
        }
        check_panics(&["P13"]);
        h::nontrivial();
    });
}
