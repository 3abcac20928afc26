//! What goes over the wire: MTU, format, acknowledgements, interoperation with
//! another RakNet implementation, recovery speed, retransmission restraint.
use crate::conn::CONNECT_BOUND;
use crate::h;
use crate::hostile::pump_inbox;
use crate::kit::*;
use crate::oracle::*;
use crate::refpeer::{Opts, Peer};
use crate::session::{connect_all, count_dups, SETTLE};
use crate::wire::{self, Ctl, Rel, Wire};
use crate::wiremon::WireMon;
use rust_raknet::{RaknetListener, RaknetSocket};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::net::{IpAddr, SocketAddr};
use std::rc::Rc;
use tokio::sim::{self, chance, choose, net, pick, range, MS, S, SEC};
use tokio::time::{sleep, timeout, Duration};

pub fn ip6(n: usize) -> IpAddr {
    format!("fd00::{:x}", n).parse().unwrap()
}
/// IPv6 addresses for all hosts.
pub fn add_v6() {
    for k in all_nodes() {
        net::add_ip(k, ip6(k));
    }
}

/// A library endpoint talking to the reference peer.
pub struct Pair {
    pub ep: Ep,
    pub p: Peer,
    /// reference peer -> library, library -> reference peer
    pub up: Flow,
    pub down: Flow,
    pub lib_addr: SocketAddr,
    pub peer_addr: SocketAddr,
    _srv: Option<Server>,
}
/// Open one connection between the library and the reference peer.
pub async fn pair(rp: usize, lib_is_client: bool, v6: bool, o: Opts, within: u64) -> Result<Pair, String> {
    let (up, down) = flows(0);
    let pip = net::node_ip(rp, v6).unwrap();
    let pa = SocketAddr::new(pip, 4100);
    if lib_is_client {
        let p = Peer::new(rp, pa, o).await;
        let p2 = p.clone();
        let j = sim::spawn_on(rp, async move { p2.serve_one(within).await });
        let s = match connect_on(2, pa, within).await {
            Some(Ok(s)) => s,
            Some(Err(e)) => return Err(format!("connect() failed: {:?}", e)),
            None => return Err("connect() did not return".into()),
        };
        match j.await {
            Ok(Ok(_)) => {}
            e => return Err(format!("reference server: {:?}", e)),
        }
        let lib_addr = SocketAddr::new(net::node_ip(2, v6).unwrap(), s.local_addr().unwrap().port());
        let ep = Ep::new(2, Some(Rc::new(s)), down.clone(), up.clone());
        Ok(Pair { ep, p, up, down, lib_addr, peer_addr: pa, _srv: None })
    } else {
        let la = SocketAddr::new(net::node_ip(SERVER, v6).unwrap(), PORT);
        let l = sim::spawn_on(SERVER, async move {
            let mut l = RaknetListener::bind(&la).await.expect("bind listener");
            l.listen().await;
            l
        })
        .await
        .unwrap();
        let srv = Server::wrap(SERVER, la, l);
        srv.spawn_accept();
        let p = Peer::new(rp, pa, o).await;
        p.connect(la, within).await?;
        let s = srv.wait_for(pa, 10 * SEC).await.ok_or("the listener did not accept")?;
        let ep = Ep::new(SERVER, Some(s), down.clone(), up.clone());
        Ok(Pair { ep, p, up, down, lib_addr: la, peer_addr: pa, _srv: Some(srv) })
    }
}
impl Pair {
    /// The reference peer sends n messages.
    pub fn feed(&self, n: usize, mix: &[Rel]) {
        let max = self.p.st.borrow().mtu as u64 - 60;
        for _ in 0..n {
            let rel = pick_rel(mix);
            let len = match (rel, choose(S::Work, 6)) {
                (Rel::RO, 0) => range(S::Work, max - 1, 5 * max),
                (Rel::RO, 1) => range(S::Work, max - 1, max + 2),
                (_, 2) => range(S::Work, max - 3, max),
                _ => range(S::Work, HDR as u64, 200),
            };
            let (id, d) = self.up.begin(rel, len as usize);
            self.up.end(id, Fate::Ok);
            self.p.push(rel, d);
        }
    }
}

// ---- P16 -------------------------------------------------------------------
pub fn p16(np: bool) {
    sched_plan(np);
    nodes(2);
    let rp = harness_node();
    let lib_is_client = chance(S::Plan, 500_000);
    let mtu = pick(S::Plan, &[1400u16, 400, 401, 508, 576, 1000, 1200, 1399, 1401, 1492, 1500, 9000, 65535]);
    let link = net::Link { base: pick(S::Plan, &[300u64, 5_000, 40_000]) * 1000, loss: pick(S::Plan, &[0u32, 50_000, 200_000]), reorder: pick(S::Plan, &[0u32, 100_000]), reorder_by: 80 * MS, ..Default::default() };
    let holes = chance(S::Plan, 500_000);
    let pack = pick(S::Plan, &[0usize, 1300]);
    h::note(format!("mtu={} client={} holes={}", mtu, lib_is_client, holes));
    drive(async move {
        let mon = WireMon::attach(&[1, 2]);
        let req1_len = (mtu as usize).clamp(46, 1500) - 28;
        let o = Opts { mtu, req1_len, pack, guid: 3, ..Default::default() };
        let pr = match pair(rp, lib_is_client, false, o, 30 * SEC).await {
            Ok(p) => p,
            Err(e) => {
                h::note(e);
                return h::no_connect("connect");
            }
        };
        pr.up.0.borrow_mut().dups = 1 << 40;
        pr.down.0.borrow_mut().dups = 1 << 40;
        let mtu = mon.0.borrow().mtu(pr.lib_addr, pr.peer_addr);
        let conn_mtu = mtu.min(pr.p.st.borrow().mtu) as usize;
        pr.ep.spawn_reader();
        pump_inbox(&pr.p, &pr.down);
        sim::world().net.default = link;
        let max = conn_mtu - 60;
        for _ in 0..3 {
            if holes {
                // every other datagram of the peer is lost, so that the list of
                // missing ones has many entries
                let n = range(S::Fault, 40, 400);
                let left = Cell::new(n);
                sim::world().net.filter = Some(Box::new(move |p| {
                    if p.src_node == rp && left.get() > 0 && (0x80..0x8e).contains(&p.data[0]) {
                        left.set(left.get() - 1);
                        if left.get() % 2 == 0 {
                            return net::Action::Drop;
                        }
                    }
                    net::Action::Pass
                }));
                pr.feed(n as usize, &[Rel::U, Rel::R]);
                sim::probe("lists_of_holes");
            } else {
                pr.feed(20, &[Rel::RO, Rel::R, Rel::RS, Rel::U]);
            }
            let me = pr.ep.clone();
            let j = sim::spawn_on(me.node, async move {
                for _ in 0..25 {
                    let rel = pick_rel(&[Rel::RO, Rel::RO, Rel::R, Rel::RS, Rel::US, Rel::U]);
                    let len = match choose(S::Work, 6) {
                        0 => max - 1,
                        1 => max,
                        2 => max + 1,
                        // too long for anything but ordered messages: refused, or split
                        5 if chance(S::Work, 300_000) => range(S::Work, max as u64 + 1, (max as u64 + 200).max(1500)) as usize,
                        3 if rel == Rel::RO => range(S::Work, 1, 12) as usize * max - 1 + choose(S::Work, 3) as usize,
                        4 if rel == Rel::RO => range(S::Work, max as u64, 12_000) as usize,
                        _ => range(S::Work, HDR as u64, max as u64 - 1) as usize,
                    };
                    if me.send(rel, len).await == Fate::Closed {
                        return;
                    }
                    if chance(S::Work, 200_000) {
                        sleep(ms(range(S::Work, 1, 100))).await;
                    }
                }
            });
            let _ = timeout(Duration::from_secs(60), j).await;
            sleep(ms(range(S::Work, 0, 800))).await;
        }
        quiesce();
        wait_until(SETTLE, || pr.up.settled() && pr.down.settled()).await;
        sleep(ms(1000)).await;
        for f in [&pr.up, &pr.down] {
            let o = f.owed();
            if !o.is_empty() {
                h::viol("P19", "lost", format!("{}: {}", f.0.borrow().name, f.describe_owed(&o)));
            }
        }
        let g = mon.0.borrow();
        sim::probe_n("datagrams_measured", g.datagrams);
        sim::probe_n("nacks", g.nacks);
        check_panics(&["P16", "P19"]);
        pr.p.close();
        h::nontrivial();
    });
}

// ---- P18 -------------------------------------------------------------------
/// Bookkeeping on the wire between two library endpoints.
pub fn p18(np: bool) {
    sched_plan(np);
    let n = 1 + choose(S::Plan, 2) as usize;
    nodes(1 + n);
    let mut link = link_plan(Hit::Light);
    let mut cuts = chance(S::Plan, 300_000);
    if chance(S::Plan, 50_000) {
        // a very long way: many transmissions are under way at once, and each
        // of their acknowledgements counts
        link = net::Link { base: pick(S::Plan, &[900u64, 1700, 2600]) * MS, loss: pick(S::Plan, &[0u32, 30_000]), ..net::Link::default() };
        cuts = false;
        h::note(format!("long way {} ms", link.base / MS));
    }
    drive(async move {
        let mon = WireMon::attach(&all_nodes().collect::<Vec<_>>());
        mon.0.borrow_mut().strict_resend = true;
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let conns = match connect_all(&srv, n, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        sim::world().net.default = link;
        for c in &conns {
            c.c.spawn_reader();
            c.s.spawn_reader();
        }
        let mut lives = Vec::new();
        for _ in 0..2 {
            if cuts {
                let a = 2 + choose(S::Fault, n as u64) as usize;
                let d = pick(S::Fault, &[300u64, 2000, 6000]) * MS;
                let both = chance(S::Fault, 500_000);
                sim::spawn_on(0, async move {
                    sleep(ms(range(S::Fault, 0, 800))).await;
                    net::cut(SERVER, a);
                    if both {
                        net::cut(a, SERVER);
                    }
                    sleep(Duration::from_nanos(d)).await;
                    net::heal(SERVER, a);
                    net::heal(a, SERVER);
                });
            }
            let live = Rc::new(Cell::new(0));
            let p = crate::session::Sess { mix: &[Rel::RO, Rel::R, Rel::RS, Rel::US, Rel::U], msgs: (10, 50), ..Default::default() };
            for c in &conns {
                crate::session::spawn_senders(&c.c, &p, &live);
                crate::session::spawn_senders(&c.s, &p, &live);
            }
            wait_until(20 * SEC, || live.get() == 0).await;
            lives.push(live);
        }
        quiesce();
        wait_until(SETTLE, || lives.iter().all(|l| l.get() == 0) && conns.iter().all(|c| c.c.tx.settled() && c.s.tx.settled())).await;
        // what is delivered is acknowledged, and then left alone; the last
        // acknowledgement may have been lost and the timeout have grown
        sleep(ms(16_000)).await;
        let sent0 = mon.0.borrow().frames();
        sleep(ms(15_000)).await;
        for c in &conns {
            if !c.c.open() || !c.s.open() {
                return h::inconclusive("closed");
            }
            let ca = client_addr(c.c.node, &c.c.s());
            for (a, b) in [(ca, srv.addr), (srv.addr, ca)] {
                let u = mon.0.borrow().unacked(a, b, SEC);
                if !u.is_empty() {
                    h::viol("P18", "unacked", format!("{} never acknowledged {} datagrams {} delivered to it, e.g. {}", b, u.len(), a, u[0]));
                }
                let u = mon.0.borrow().unasked(a, b, SEC);
                if !u.is_empty() {
                    h::viol("P18", "gap-not-reported", format!("{} saw {} gaps in the datagrams of {} and never asked for them, e.g. {:?}", b, u.len(), a, u[0]));
                }
            }
        }
        let more = mon.0.borrow().frames() - sent0;
        if more > 0 && lives.iter().all(|l| l.get() == 0) && conns.iter().all(|c| c.c.tx.settled() && c.s.tx.settled()) {
            h::viol("P18", "never-quiet", format!("{} more datagrams with frames sent although all was delivered and acknowledged long before", more));
        }
        let g = mon.0.borrow();
        sim::probe_n("wire_datagrams", g.datagrams);
        sim::probe_n("wire_acks", g.acks);
        sim::probe_n("wire_nacks", g.nacks);
        sim::probe_n("wire_resends", g.resends);
        h::nontrivial();
    });
}
/// The same towards the reference peer, which also checks control messages.
pub fn p18_peer(np: bool) {
    sched_plan(np);
    nodes(2);
    let rp = harness_node();
    let lib_is_client = chance(S::Plan, 500_000);
    let link = link_plan(Hit::Light);
    let delay = pick(S::Plan, &[0u64, 0, 20, 200]) * MS;
    let pack = pick(S::Plan, &[0usize, 1300]);
    drive(async move {
        let mon = WireMon::attach(&[1, 2]);
        mon.0.borrow_mut().strict_resend = true;
        let o = Opts { guid: 4, ack_delay: delay, pack, ..Default::default() };
        let pr = match pair(rp, lib_is_client, false, o, 30 * SEC).await {
            Ok(p) => p,
            Err(e) => {
                h::note(e);
                return h::no_connect("connect");
            }
        };
        pr.up.0.borrow_mut().dups = 1 << 40;
        pr.ep.spawn_reader();
        pump_inbox(&pr.p, &pr.down);
        sim::world().net.default = link;
        let me = pr.ep.clone();
        let n = range(S::Work, 5, 60);
        let j = sim::spawn_on(me.node, async move {
            for _ in 0..n {
                let rel = pick_rel(&[Rel::RO, Rel::R, Rel::RS, Rel::US, Rel::U]);
                if me.send(rel, msg_len(rel).max(HDR)).await == Fate::Closed {
                    return;
                }
                think(1).await;
            }
        });
        pr.feed(range(S::Work, 5, 60) as usize, &[Rel::RO, Rel::R, Rel::RS, Rel::U, Rel::US]);
        let _ = timeout(Duration::from_secs(60), j).await;
        quiesce();
        wait_until(SETTLE, || pr.up.settled() && pr.down.settled()).await;
        // connected pings are answered with their own time stamp
        let stamps: Vec<i64> = (0..3).map(|i| pick(S::Work, &[0x1122_3344_0000i64, 0, -1, i64::MIN, i64::MAX - 5, 1, 0xffff_fffe, 1 << 53]).wrapping_add(i)).collect();
        for t in &stamps {
            pr.p.push(pick_rel(&[Rel::U, Rel::R]), wire::Wr::new(0).u64(*t as u64).0);
        }
        sleep(ms(1500)).await;
        if !pr.ep.open() {
            return h::inconclusive("closed");
        }
        let u = mon.0.borrow().unacked(pr.peer_addr, pr.lib_addr, SEC);
        if !u.is_empty() {
            h::viol("P18", "unacked", format!("{} datagrams delivered to the library were never acknowledged, e.g. {}", u.len(), u[0]));
        }
        let u = mon.0.borrow().unasked(pr.peer_addr, pr.lib_addr, SEC);
        if !u.is_empty() {
            h::viol("P18", "gap-not-reported", format!("the library saw {} gaps in the datagrams it got and never asked for them, e.g. {:?}", u.len(), u[0]));
        }
        let s = pr.p.st.borrow();
        for t in &stamps {
            if !s.ctl.iter().any(|c| matches!(c.1, Ctl::Pong { ping, .. } if ping == *t)) {
                h::viol("P18", "no-pong", "a connected ping was not answered with its time stamp on a clean network".into());
                break;
            }
        }
        for e in s.errors.iter().take(2) {
            h::viol("P18", "malformed", format!("the reference peer cannot read: {}", e));
        }
        h::nontrivial();
        drop(s);
        pr.p.close();
    });
}

// ---- P19 -------------------------------------------------------------------
pub fn p19(np: bool) {
    sched_plan(np);
    nodes(2);
    let v6 = chance(S::Plan, 400_000);
    if v6 {
        add_v6();
    }
    let rp = sim::add_node("peer");
    net::add_ip(rp, if v6 { ip6(rp) } else { ip(rp) });
    sim::world().nodes[rp].harness = true;
    let lib_is_client = chance(S::Plan, 500_000);
    let mtu = pick(S::Plan, &[1400u16, 1400, 1400, 576, 1200, 1492]);
    let link = link_plan(Hit::Light);
    let early = chance(S::Plan, 200_000);
    if early {
        sim::world().net.default = link;
    }
    let o = Opts {
        proto: 10,
        mtu,
        req1_len: (mtu as usize).min(1500) - 28 - if v6 { 20 } else { 0 },
        pack: pick(S::Plan, &[0usize, 0, 1372, 1300, 300]),
        tight: !v6 && chance(S::Plan, 400_000),
        ack_delay: pick(S::Plan, &[0u64, 10, 60]) * MS,
        resend: pick(S::Plan, &[100u64, 300, 1000]) * MS,
        internal_addrs: pick(S::Plan, &[10usize, 20]),
        guid: 9,
        ping_every: pick(S::Plan, &[0u64, 500, 3000]) * MS,
        datagram_id: pick(S::Plan, &[0x84u8, 0x80, 0x88, 0x8c, 0x8d]),
        ..Default::default()
    };
    h::note(format!("v6={} client={} mtu={} pack={} tight={} ids={:#x}", v6, lib_is_client, mtu, o.pack, o.tight, o.datagram_id));
    drive(async move {
        h::adopt();
        let r = pair(rp, lib_is_client, v6, o, CONNECT_BOUND).await;
        let pr = match r {
            Ok(p) => p,
            Err(e) => {
                if early {
                    return h::inconclusive("connect");
                }
                h::viol("P19", "connect", format!("no connection with another RakNet implementation: {}", e));
                return;
            }
        };
        pr.up.0.borrow_mut().dups = 1 << 40;
        pr.down.0.borrow_mut().dups = 1 << 40;
        pr.ep.spawn_reader();
        pump_inbox(&pr.p, &pr.down);
        sim::world().net.default = link;
        let s = pr.ep.s();
        if s.peer_addr().ok() != Some(pr.peer_addr) {
            h::viol("P19", "peer-addr", format!("peer_addr() is {:?} instead of {}", s.peer_addr(), pr.peer_addr));
        }
        drop(s);
        let rounds = 1 + choose(S::Work, 4);
        for _ in 0..rounds {
            pr.feed(range(S::Work, 1, 40) as usize, &[Rel::RO, Rel::R, Rel::RS, Rel::U, Rel::US]);
            let me = pr.ep.clone();
            let n = range(S::Work, 1, 40);
            let j = sim::spawn_on(me.node, async move {
                for _ in 0..n {
                    let rel = pick_rel(&[Rel::RO, Rel::R, Rel::RS, Rel::US, Rel::U]);
                    let len = if rel == Rel::RO { msg_len(rel).max(HDR) } else { range(S::Work, HDR as u64, 500) as usize };
                    if me.send(rel, len).await == Fate::Closed {
                        return;
                    }
                }
            });
            let _ = timeout(Duration::from_secs(60), j).await;
            sleep(ms(range(S::Work, 0, 1000))).await;
        }
        quiesce();
        let ok = wait_until(SETTLE, || pr.up.settled() && pr.down.settled()).await;
        if !pr.ep.open() {
            h::viol("P19", "closed", format!("the connection ended: {:?}", pr.ep.recv_err.borrow()));
        } else if !ok {
            for f in [&pr.up, &pr.down] {
                let o = f.owed();
                if !o.is_empty() {
                    h::viol("P19", "lost", format!("{}: {}", f.0.borrow().name, f.describe_owed(&o)));
                }
            }
        }
        // what the handshake said
        wait_until(15 * SEC, || !lib_is_client || pr.p.st.borrow().ctl.iter().any(|c| matches!(c.1, Ctl::NewIncoming { .. }))).await;
        {
            let s = pr.p.st.borrow();
            for (_, c) in &s.ctl {
                match c {
                    Ctl::ConnAcc { client, .. } => {
                        if *client != pr.peer_addr {
                            h::viol("P19", "handshake", format!("the listener tells the client its address is {} instead of {}", client, pr.peer_addr));
                        }
                    }
                    Ctl::NewIncoming { .. } => sim::probe("new_incoming_connection"),
                    _ => {}
                }
            }
            if lib_is_client && !s.ctl.iter().any(|c| matches!(c.1, Ctl::NewIncoming { .. })) {
                h::viol("P19", "handshake", "the client never announced itself with a new incoming connection message".into());
            }
            for e in s.errors.iter().take(2) {
                h::viol("P19", "malformed", format!("the other implementation cannot read: {}", e));
            }
        }
        // the end, in either direction
        if chance(S::Plan, 500_000) {
            let s = pr.ep.s();
            let t = sim::now();
            let _ = sim::spawn_on(pr.ep.node, async move { s.close().await }).await;
            if !wait_until(10 * SEC, || pr.p.st.borrow().got_disconnect.is_some()).await {
                h::viol("P19", "disconnect", format!("{} s after close() the other implementation was not told", (sim::now() - t) / SEC));
            }
        } else {
            if chance(S::Plan, 500_000) {
                pr.p.push(Rel::RO, vec![0x15]);
            } else {
                pr.p.send_raw(&[0x15]).await;
            }
            if !wait_until(15 * SEC, || !pr.ep.open()).await {
                h::viol("P19", "disconnect", "the other implementation disconnected; recv() still waits 15 s later".into());
            }
        }
        check_panics(&["P19"]);
        sim::probe(if v6 { "ipv6" } else { "ipv4" });
        pr.p.close();
        h::nontrivial();
    });
}
/// The library with itself over IPv6.
pub fn p19_v6(np: bool) {
    sched_plan(np);
    let n = 1 + choose(S::Plan, 2) as usize;
    nodes(1 + n);
    add_v6();
    let link = link_plan(Hit::Light);
    let any = chance(S::Plan, 500_000);
    drive(async move {
        h::adopt();
        let la = SocketAddr::new(ip6(SERVER), PORT);
        let bind = if any { SocketAddr::new("::".parse().unwrap(), PORT) } else { la };
        let l = sim::spawn_on(SERVER, async move {
            let mut l = RaknetListener::bind(&bind).await.expect("bind listener");
            l.listen().await;
            l
        })
        .await
        .unwrap();
        let srv = Server::wrap(SERVER, la, l);
        srv.spawn_accept();
        let mut conns = Vec::new();
        for k in 0..n {
            let node = 2 + k;
            match connect_on(node, la, CONNECT_BOUND).await {
                Some(Ok(s)) => {
                    let a = SocketAddr::new(ip6(node), s.local_addr().unwrap().port());
                    let x = match srv.wait_for(a, 10 * SEC).await {
                        Some(x) => x,
                        None => {
                            h::viol("P19", "connect", "connected over IPv6 but not accepted".into());
                            return;
                        }
                    };
                    let (up, down) = flows(k);
                    conns.push(Conn { k, c: Ep::new(node, Some(Rc::new(s)), up.clone(), down.clone()), s: Ep::new(SERVER, Some(x), down, up) });
                }
                r => {
                    h::viol("P19", "connect", format!("no connection over IPv6: {:?}", r.map(|x| x.map(|_| ()))));
                    return;
                }
            }
        }
        count_dups(&conns);
        sim::world().net.default = link;
        for c in &conns {
            c.c.spawn_reader();
            c.s.spawn_reader();
        }
        exchange(&conns, 15, &[Rel::RO, Rel::R, Rel::RS, Rel::U], 100 * SEC, "P19", "traffic").await;
        quiesce();
        let r = sim::spawn_on(2, async move { timeout(Duration::from_secs(30), RaknetSocket::ping(&la)).await }).await.unwrap();
        if !matches!(r, Ok(Ok(_))) {
            h::viol("P19", "ping", "ping() over IPv6 is not answered".into());
        }
        check_panics(&["P19"]);
        sim::probe("ipv6_library_only");
        h::nontrivial();
    });
}
/// More fragmented messages than the 16-bit compound id can number.
pub fn long_history(np: bool) {
    let _ = np;
    calm_sched();
    nodes(2);
    sim::world().net.default = net::Link { base: 100_000, ..Default::default() };
    drive(async move {
        h::adopt();
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let conns = match connect_all(&srv, 1, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        let c = conns[0].clone();
        let got = Rc::new(Cell::new(0u32));
        let bad = Rc::new(RefCell::new(String::new()));
        let total = 65_536 + 60 + choose(S::Work, 50) as u32;
        let (g2, b2, s) = (got.clone(), bad.clone(), c.s.s());
        sim::spawn_on(SERVER, async move {
            while let Ok(d) = s.recv().await {
                let i = g2.get();
                if d != payload(77, i, 1341 + (i % 3) as usize) && b2.borrow().is_empty() {
                    *b2.borrow_mut() = format!("message #{} is {}", i, net::hex(&d));
                }
                g2.set(i + 1);
            }
        });
        let s = c.c.s();
        let j = sim::spawn_on(2, async move {
            for i in 0..total {
                if s.send(&payload(77, i, 1341 + (i % 3) as usize), reliability(Rel::RO)).await.is_err() {
                    return i;
                }
                if i % 40 == 39 {
                    sleep(ms(2)).await;
                }
            }
            total
        });
        let sent = j.await;
        wait_until(60 * SEC, || got.get() >= total).await;
        check_panics(&["P19"]);
        match sent {
            Ok(n) if n < total => h::viol("P19", "long-history", format!("send() failed after {} fragmented messages", n)),
            Err(_) => h::viol("P19", "long-history", "send() panicked".into()),
            _ => {}
        }
        if !bad.borrow().is_empty() {
            h::viol("P19", "long-history", bad.borrow().clone());
        } else if got.get() < total {
            h::viol("P19", "long-history", format!("{} of {} fragmented messages arrived", got.get(), total));
        }
        sim::probe("compound_id_wrapped");
        h::nontrivial();
    });
}

// ---- P22 / P23 -------------------------------------------------------------
/// Counts how often each message of a flow is put on the wire, and when.
#[derive(Default)]
pub struct Tx {
    pub at: BTreeMap<(u32, u32, u32), Vec<u64>>,
}
pub fn tx_log() -> Rc<RefCell<Tx>> {
    let t: Rc<RefCell<Tx>> = Default::default();
    let t2 = t.clone();
    sim::world().net.on_send = Some(Box::new(move |p| {
        if let Ok(Wire::Frames { frames, .. }) = wire::parse(&p.data) {
            for f in frames {
                let i = f.frag.map(|x| x.2).unwrap_or(0);
                if i == 0 && f.data.len() >= HDR && f.data[0] == 0xfe {
                    let tag = u32::from_be_bytes(f.data[1..5].try_into().unwrap());
                    let id = u32::from_be_bytes(f.data[5..9].try_into().unwrap());
                    t2.borrow_mut().at.entry((tag, id, i)).or_default().push(sim::now());
                }
            }
        }
    }));
    t
}
pub fn ids_of(d: &[u8]) -> Vec<(u32, u32)> {
    let mut v = Vec::new();
    if let Ok(Wire::Frames { frames, .. }) = wire::parse(d) {
        for f in frames {
            if f.frag.map(|x| x.2).unwrap_or(0) == 0 && f.data.len() >= HDR && f.data[0] == 0xfe {
                v.push((u32::from_be_bytes(f.data[1..5].try_into().unwrap()), u32::from_be_bytes(f.data[5..9].try_into().unwrap())));
            }
        }
    }
    v
}

/// A few lost datagrams cost a few retransmission intervals, not seconds.
pub fn p22(np: bool) {
    sched_plan(np);
    nodes(2);
    let rtt = range(S::Plan, 1, 48);
    sim::world().net.default = net::Link { base: rtt * MS / 2, ..Default::default() };
    let history = pick(S::Plan, &[0u64, 0, 5, 40, 150]);
    let side = chance(S::Plan, 500_000);
    h::note(format!("rtt={}ms history={}", rtt, history));
    drive(async move {
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let conns = match connect_all(&srv, 1, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        let c = conns[0].clone();
        c.c.spawn_reader();
        c.s.spawn_reader();
        let (me, _other) = if side { (c.c.clone(), c.s.clone()) } else { (c.s.clone(), c.c.clone()) };
        for _ in 0..history {
            me.send(pick_rel(&[Rel::RO, Rel::R]), range(S::Work, HDR as u64, 300) as usize).await;
            if chance(S::Work, 500_000) {
                sleep(ms(range(S::Work, 1, 120))).await;
            }
        }
        if !wait_until(30 * SEC, || me.tx.settled()).await {
            return h::inconclusive("history");
        }
        sleep(ms(range(S::Work, 0, 300))).await;
        for _ in 0..3 {
            let first = me.tx.len() as u32;
            let burst = range(S::Work, 1, 12) as u32;
            let lost = 1 + choose(S::Fault, 3);
            let tag = me.tx.tag();
            // which messages of the burst are hit
            let all = chance(S::Fault, 300_000);
            let victim = first + choose(S::Fault, burst as u64) as u32;
            let acks = chance(S::Fault, 200_000);
            let mut seen: BTreeMap<u32, u64> = BTreeMap::new();
            let mut acked = 0;
            let src = me.node;
            sim::world().net.filter = Some(Box::new(move |p| {
                if acks {
                    // the acknowledgements are lost instead
                    if p.dst_node == src && p.data[0] == 0xc0 && acked < lost {
                        acked += 1;
                        return net::Action::Drop;
                    }
                    return net::Action::Pass;
                }
                if p.src_node != src {
                    return net::Action::Pass;
                }
                for (t, id) in ids_of(&p.data) {
                    if t == tag && id >= first && (all || id == victim) {
                        let n = seen.entry(id).or_insert(0);
                        *n += 1;
                        if *n <= lost {
                            return net::Action::Drop;
                        }
                    }
                }
                net::Action::Pass
            }));
            let t = sim::now();
            for _ in 0..burst {
                me.send(pick_rel(&[Rel::RO, Rel::R, Rel::RO]), range(S::Work, HDR as u64, 600) as usize).await;
            }
            let done = wait_until(10 * SEC, || me.tx.settled()).await;
            let took = sim::now() - t;
            if took > 3 * SEC || !done {
                h::viol(
                    "P22",
                    "slow-recovery",
                    format!(
                        "{} messages of which {} lost its first {} transmissions took {} ms to arrive at a round-trip time of {} ms",
                        burst,
                        if all { "each" } else { "one" },
                        lost,
                        took / MS,
                        rtt
                    ),
                );
                return;
            }
            sim::world().net.filter = None;
            // flush() does not lag behind either
            let s = me.s();
            let r = sim::spawn_on(me.node, async move { timeout(Duration::from_secs(4), s.flush()).await }).await.unwrap();
            if !matches!(r, Ok(Ok(()))) {
                h::viol("P22", "slow-flush", format!("all was delivered; flush() is still waiting 4 s later, {} lost datagrams, round-trip time {} ms", lost, rtt));
                return;
            }
            sleep(ms(range(S::Work, 0, 500))).await;
        }
        h::nontrivial();
    });
}

/// What the peer reports missing is sent again at once, however far the
/// retransmission timer has backed off.
pub fn p22_nack(np: bool) {
    sched_plan(np);
    sim::world().cfg.timer_slack = sim::world().cfg.timer_slack.min(4 * MS);
    nodes(2);
    let rp = harness_node();
    let rtt = range(S::Plan, 1, 48);
    sim::world().net.default = net::Link { base: rtt * MS / 2, ..Default::default() };
    let lib_is_client = chance(S::Plan, 500_000);
    let drops = range(S::Plan, 1, 11);
    let spans = chance(S::Plan, 400_000);
    h::note(format!("rtt={}ms client={} drops={} spans={}", rtt, lib_is_client, drops, spans));
    drive(async move {
        let o = Opts { guid: 5, ..Default::default() };
        let pr = match pair(rp, lib_is_client, false, o, 30 * SEC).await {
            Ok(p) => p,
            Err(e) => {
                h::note(e);
                return h::no_connect("connect");
            }
        };
        pr.ep.spawn_reader();
        pump_inbox(&pr.p, &pr.down);
        let me = pr.ep.clone();
        for _ in 0..choose(S::Work, 8) {
            me.send(pick_rel(&[Rel::RO, Rel::R, Rel::RS]), range(S::Work, HDR as u64, 900) as usize).await;
            sleep(ms(range(S::Work, 0, 80))).await;
        }
        if !wait_until(30 * SEC, || pr.down.settled()).await {
            return h::inconclusive("history");
        }
        sleep(ms(range(S::Work, 0, 300))).await;
        // message -> how often it was sent, the number of its last datagram, when
        type Seen = BTreeMap<u32, (u64, u32, u64)>;
        let seen: Rc<RefCell<Seen>> = Default::default();
        let first = me.tx.len() as u32;
        let tag = me.tx.tag();
        {
            let seen = seen.clone();
            let src = me.node;
            sim::world().net.filter = Some(Box::new(move |p| {
                if p.src_node != src {
                    return net::Action::Pass;
                }
                for (t, id) in ids_of(&p.data) {
                    if t == tag && id >= first {
                        let mut m = seen.borrow_mut();
                        let e = m.entry(id).or_insert((0, 0, 0));
                        e.0 += 1;
                        e.1 = p.data[1] as u32 | (p.data[2] as u32) << 8 | (p.data[3] as u32) << 16;
                        e.2 = sim::now();
                        if e.0 <= drops {
                            return net::Action::Drop;
                        }
                    }
                }
                net::Action::Pass
            }));
        }
        for _ in 0..range(S::Work, 1, 8) {
            me.send(pick_rel(&[Rel::RO, Rel::R, Rel::RS]), range(S::Work, HDR as u64, 900) as usize).await;
        }
        // each of them has now been lost that often
        let s2 = seen.clone();
        let all = move || !s2.borrow().is_empty() && s2.borrow().values().all(|v| v.0 >= drops);
        if !wait_until(40 * SEC, all).await {
            return h::inconclusive("history");
        }
        sleep(ms(choose(S::Fault, 40))).await;
        let before = seen.borrow().clone();
        let missing: Vec<(u32, u32)> = {
            let mut v: Vec<u32> = before.values().filter(|v| v.0 == drops).map(|v| v.1).collect();
            v.sort_unstable();
            v.dedup();
            if spans && !v.is_empty() {
                vec![(v[0], v[v.len() - 1])]
            } else {
                v.into_iter().map(|q| (q, q)).collect()
            }
        };
        let t = sim::now();
        pr.p.send_raw(&wire::records_pkt(0xa0, &missing)).await;
        let wait = 500 * MS + rtt * MS;
        sleep(Duration::from_nanos(wait)).await;
        for (id, b) in before.iter().filter(|(_, b)| b.0 == drops) {
            let n = seen.borrow()[id];
            if n.0 == b.0 {
                h::viol(
                    "P22",
                    "nack-ignored",
                    format!(
                        "message #{} was lost {} times, the peer reported its last datagram {} missing at {} ms, {} ms later it has not been sent again",
                        id, b.0, b.1, (t - 1000 * SEC) / MS, wait / MS
                    ),
                );
                return;
            }
        }
        if !wait_until(20 * SEC, || pr.down.settled()).await {
            h::viol("P22", "slow-recovery", "what was reported missing and sent again did not arrive".into());
        }
        sim::probe("nacks_answered");
        h::nontrivial();
    });
}

/// On a network that loses nothing, nothing is sent twice; in an outage the
/// sender backs off.
pub fn p23(np: bool) {
    sched_plan(np);
    // this is about what the protocol does, not about a host that is slow
    sim::world().cfg.timer_slack = sim::world().cfg.timer_slack.min(4 * MS);
    nodes(2);
    let rtt = pick(S::Plan, &[1u64, 5, 20, 40, 100, 200, 400]);
    sim::world().net.default = net::Link { base: rtt * MS / 2, ..Default::default() };
    let side = chance(S::Plan, 500_000);
    let outage = chance(S::Plan, 500_000);
    h::note(format!("rtt={}ms outage={}", rtt, outage));
    drive(async move {
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let conns = match connect_all(&srv, 1, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        let c = conns[0].clone();
        c.c.spawn_reader();
        c.s.spawn_reader();
        let (me, other) = if side { (c.c.clone(), c.s.clone()) } else { (c.s.clone(), c.c.clone()) };
        // let the round-trip time estimate settle
        for _ in 0..40 {
            me.send(Rel::R, 50).await;
            sleep(ms(rtt.max(20))).await;
        }
        wait_until(20 * SEC, || me.tx.settled()).await;
        sleep(ms(500)).await;
        let log = tx_log();
        let first = me.tx.len() as u32;
        if !outage {
            let n = range(S::Work, 20, 150) as usize;
            let style = choose(S::Work, 4);
            for _ in 0..n {
                me.send(pick_rel(&[Rel::RO, Rel::R, Rel::RS]), range(S::Work, HDR as u64, 1300) as usize).await;
                think(style).await;
            }
            wait_until(60 * SEC, || me.tx.settled()).await;
            sleep(ms(1000)).await;
            let g = log.borrow();
            let sent: usize = g.at.iter().filter(|(k, _)| k.0 == me.tx.tag() && k.1 >= first).map(|x| x.1.len()).sum();
            let worst = g.at.iter().filter(|(k, _)| k.0 == me.tx.tag() && k.1 >= first).map(|x| x.1.len()).max().unwrap_or(0);
            sim::trace(|| format!("{} messages, {} transmissions, worst {}", n, sent, worst));
            sim::probe_n("clean_messages", n as u64);
            sim::probe_n("clean_transmissions", sent as u64);
            // no retransmission timeout is below 50 ms; where the round trip takes
            // longer a message may be sent again before it can be acknowledged
            let (most, each) = if rtt <= 40 { (n + n / 20 + 2, 2) } else { (n * 6, 8) };
            if sent > most || worst > each {
                h::viol("P23", "needless", format!("{} messages on a network that loses nothing (round-trip time {} ms) were sent {} times, one of them {} times", n, rtt, sent, worst));
            }
        } else {
            let dur = pick(S::Fault, &[3u64, 8, 14, 20, 42]) * SEC;
            let n = range(S::Work, 1, 30) as usize;
            let one_way = choose(S::Fault, 3);
            if one_way != 1 {
                net::cut(me.node, other.node);
            }
            if one_way != 2 {
                net::cut(other.node, me.node);
            }
            let t = sim::now();
            for _ in 0..n {
                me.send(pick_rel(&[Rel::RO, Rel::R]), range(S::Work, HDR as u64, 1300) as usize).await;
            }
            sleep(Duration::from_nanos(dur)).await;
            let healed = sim::now();
            net::heal(me.node, other.node);
            net::heal(other.node, me.node);
            let ok = wait_until(20 * SEC, || me.tx.settled()).await;
            let took = sim::now() - healed;
            sleep(ms(1000)).await;
            let g = log.borrow();
            for (k, v) in g.at.iter().filter(|(k, _)| k.0 == me.tx.tag() && k.1 >= first) {
                let during = v.iter().filter(|x| **x <= healed).count();
                if during as u64 > 16 + (dur / SEC).saturating_sub(20) / 5 {
                    h::viol("P23", "storm", format!("message #{} was sent {} times during an outage of {} s", k.1, during, dur / SEC));
                    return;
                }
                let gap = v.windows(2).map(|w| w[1] - w[0]).max().unwrap_or(0);
                if gap > 16 * SEC {
                    h::viol("P23", "gap", format!("{} s pass between two transmissions of message #{}", gap / SEC, k.1));
                    return;
                }
                // nothing is acknowledged meanwhile: the timeout grows by half each
                // time (not more), up to its cap, and never shrinks
                let w: Vec<u64> = v.iter().copied().filter(|x| *x <= healed).collect();
                let g: Vec<u64> = w.windows(2).map(|x| (x[1] - x[0]) / MS).collect();
                for x in g.windows(2).skip(1) {
                    if x[1] > x[0] * 3 / 2 + 130 || x[1] + 80 < x[0] {
                        h::viol("P23", "backoff", format!("message #{}: the time between transmissions goes from {} ms to {} ms in an outage: {:?}", k.1, x[0], x[1], g));
                        return;
                    }
                }
                sim::probe_n("outage_transmissions", during as u64);
            }
            sim::probe_n("outage_messages", n as u64);
            let _ = t;
            if !ok || took > 17 * SEC {
                h::viol("P23", "late", format!("after an outage of {} s the messages take {} s to arrive", dur / SEC, took / SEC));
            }
        }
        h::nontrivial();
    });
}
/// connect() asks every two seconds, whatever else it hears.
pub fn p23_connect(np: bool) {
    sched_plan(np);
    nodes(2);
    let rp = harness_node();
    sim::world().net.default = net::Link { base: pick(S::Plan, &[300u64, 10_000]) * 1000, ..Default::default() };
    let mode = choose(S::Plan, 4);
    drive(async move {
        let rip = net::node_ip(rp, false).unwrap();
        let sa = SocketAddr::new(rip, 4300);
        let p = Peer::new(rp, sa, Opts::default()).await;
        let counts: Rc<RefCell<BTreeMap<u8, Vec<u64>>>> = Default::default();
        let c2 = counts.clone();
        sim::world().net.on_send = Some(Box::new(move |p| {
            if p.src_node == 2 && !p.data.is_empty() {
                c2.borrow_mut().entry(p.data[0]).or_default().push(sim::now());
            }
        }));
        sim::spawn_on(rp, async move {
            let mut buf = vec![0u8; 4096];
            loop {
                let (n, from) = match p.sock.recv_from(&mut buf).await {
                    Ok(x) => x,
                    Err(_) => continue,
                };
                let stray = |k: u64| match k {
                    0 => wire::Wr::new(0x12).magic().u64(1).0,
                    1 => wire::pong(1, 1, b"MCPE;"),
                    2 => wire::frames_pkt(0x84, 1, &[wire::rel_frame(Rel::U, 0, 0, 0, payload(1, 1, 20))]),
                    _ => wire::records_pkt(0xc0, &[(0, 4)]),
                };
                match wire::parse(&buf[..n]) {
                    Ok(Wire::Req1 { .. }) => match mode {
                        0 => {}
                        1 => {
                            // the answer is something else, once or many times
                            for _ in 0..pick(S::Fault, &[1u64, 30]) {
                                let d = stray(choose(S::Fault, 4));
                                let _ = p.sock.send_to(&d, from).await;
                            }
                        }
                        _ => {
                            let _ = p.sock.send_to(&wire::reply1(1, 1400), from).await;
                        }
                    },
                    Ok(Wire::Req2 { .. }) => {
                        if mode == 3 {
                            for _ in 0..pick(S::Fault, &[1u64, 30]) {
                                let d = stray(choose(S::Fault, 4));
                                let _ = p.sock.send_to(&d, from).await;
                            }
                        }
                    }
                    _ => {}
                }
            }
        });
        let dur = 31 * SEC;
        let _ = connect_on(2, sa, dur).await;
        let c = counts.borrow();
        for (id, what) in [(5u8, "open connection request 1"), (7, "open connection request 2")] {
            if let Some(v) = c.get(&id) {
                sim::probe_n("handshake_requests", v.len() as u64);
                // every two seconds, and a little more
                if v.len() > 24 {
                    h::viol("P23", "handshake-storm", format!("connect() sent {} {} times in {} s", what, v.len(), dur / SEC));
                }
                let span = v[v.len() - 1] - v[0];
                let gap = v.windows(2).map(|w| w[1] - w[0]).max().unwrap_or(0);
                if gap > 8 * SEC || (v.len() < 3 && span < 10 * SEC && !(id == 5 && mode >= 2)) {
                    h::viol("P23", "handshake-gap", format!("connect() sent {} only {} times in {} s", what, v.len(), dur / SEC));
                }
            }
        }
        check_panics(&["P23"]);
        h::nontrivial();
    });
}
