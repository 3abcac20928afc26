//! Damaged, nonsensical and spoofed datagrams.
use crate::conn::CONNECT_BOUND;
use crate::h;
use crate::interpose;
use crate::kit::*;
use crate::oracle::*;
use crate::refpeer::{Opts, Peer};
use crate::session::{connect_all, count_dups, SETTLE};
use crate::wire::{self, rel_frame, Frame, Rel, Wr};
use rust_raknet::RaknetSocket;
use std::cell::{Cell, RefCell};
use std::net::SocketAddr;
use std::rc::Rc;
use tokio::sim::{self, chance, choose, net, pick, range, word, MS, S, SEC};
use tokio::time::{sleep, timeout, Duration};

// ---- generators ------------------------------------------------------------
fn rnd(n: u64) -> u64 {
    choose(S::Fault, n)
}
fn junk(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        v.extend_from_slice(&word(S::Fault).to_le_bytes());
    }
    v.truncate(n);
    v
}
fn any_len() -> usize {
    match rnd(8) {
        0 => 0,
        1 => 1,
        2 => range(S::Fault, 2, 8) as usize,
        3 | 4 => range(S::Fault, 8, 60) as usize,
        5 => range(S::Fault, 1372, 1500) as usize,
        6 => pick(S::Fault, &[2047usize, 2048, 2049, 4000, 60_000]),
        _ => range(S::Fault, 60, 1400) as usize,
    }
}
fn edge16() -> u16 {
    pick(S::Fault, &[0u16, 1, 27, 28, 59, 60, 61, 399, 400, 576, 1400, 1401, 1492, 9000, 32767, 32768, 65535])
}
fn edge24() -> u32 {
    match rnd(4) {
        0 => pick(S::Fault, &[0u32, 1, 0x7fffff, 0x800000, 0xfffffe, 0xffffff]),
        1 => range(S::Fault, 0, 30) as u32,
        2 => range(S::Fault, 0, 3000) as u32,
        _ => (word(S::Fault) & 0xffffff) as u32,
    }
}
fn edge32() -> u32 {
    match rnd(3) {
        0 => pick(S::Fault, &[0u32, 1, 2, 0x7fff_ffff, 0x8000_0000, u32::MAX]),
        1 => range(S::Fault, 0, 5) as u32,
        _ => word(S::Fault) as u32,
    }
}
fn edge64() -> u64 {
    match rnd(3) {
        0 => pick(S::Fault, &[0u64, 1, i64::MAX as u64, i64::MIN as u64, u64::MAX]),
        _ => word(S::Fault),
    }
}
fn any_addr() -> SocketAddr {
    let s = pick(S::Fault, &["0.0.0.0:0", "255.255.255.255:65535", "10.0.0.1:19132", "[::]:0", "[ffff::1]:65535", "127.0.0.1:19132"]);
    s.parse().unwrap()
}
/// A well-formed datagram of the connectionless kind with odd values.
fn offline() -> Vec<u8> {
    match rnd(9) {
        0 => wire::ping(1 + rnd(2) as u8, edge64() as i64, edge64()),
        1 => {
            let n = pick(S::Fault, &[0usize, 1, 100, 900]);
            wire::pong(edge64() as i64, edge64(), &junk(n))
        }
        2 => wire::req1(pick(S::Fault, &[0u8, 9, 10, 11, 12, 255]), pick(S::Fault, &[18usize, 19, 46, 500, 1372, 1464, 2047])),
        3 => wire::reply1(edge64(), edge16()),
        4 => wire::req2(any_addr(), edge16(), edge64()),
        5 => wire::reply2(edge64(), any_addr(), edge16()),
        6 => wire::incompatible(rnd(256) as u8, edge64()),
        7 => Wr::new(0x12).magic().u64(edge64()).0,
        _ => vec![0x15],
    }
}
fn record_pkt() -> Vec<u8> {
    let n = pick(S::Fault, &[0u64, 1, 3, 150]);
    let mut rs = Vec::new();
    for _ in 0..n {
        let (a, b) = (edge24(), edge24());
        rs.push(if rnd(3) == 0 { (a, b) } else { (a.min(b), a.max(b)) });
    }
    wire::records_pkt(pick(S::Fault, &[0xc0u8, 0xa0]), &rs)
}
fn any_payload() -> Vec<u8> {
    match rnd(9) {
        0 => vec![],
        1 => junk(range(S::Fault, 1, 40) as usize),
        2 => wire::conn_request(edge64(), edge64() as i64),
        3 => wire::conn_accepted(any_addr(), pick(S::Fault, &[0usize, 1, 10, 20, 60]), 1, edge64() as i64),
        4 => wire::new_incoming(any_addr(), 1, edge64() as i64),
        5 => Wr::new(pick(S::Fault, &[0u8, 3])).u64(edge64()).u64(edge64()).0,
        6 => {
            let n = range(S::Fault, 1, 1300) as usize;
            let mut v = junk(n);
            v[0] = 0xfe;
            v
        }
        7 => offline(),
        _ => {
            // a control message cut short
            let mut v = match rnd(4) {
                0 => wire::conn_request(1, 2),
                1 => wire::conn_accepted(any_addr(), 10, 1, 2),
                2 => wire::new_incoming(any_addr(), 1, 2),
                _ => Wr::new(0).u64(7).0,
            };
            let n = range(S::Fault, 1, v.len() as u64 - 1) as usize;
            v.truncate(n);
            v
        }
    }
}
fn any_frame() -> Frame {
    let rel = pick(S::Fault, &[Rel::RO, Rel::R, Rel::RS, Rel::US, Rel::U]);
    let mut f = rel_frame(rel, edge24(), edge24(), edge24(), any_payload());
    f.chan = pick(S::Fault, &[0u8, 0, 1, 31, 255]);
    if rnd(3) == 0 {
        f.frag = Some((edge32(), edge16(), edge32()));
    }
    f
}
/// A datagram that parses, from someone who does not follow the protocol.
pub fn nonsense() -> Vec<u8> {
    match rnd(6) {
        0 => offline_no_disconnect(),
        1 => record_pkt(),
        _ => {
            let n = 1 + rnd(4);
            let fs: Vec<Frame> = (0..n).map(|_| any_frame()).collect();
            let mut d = wire::frames_pkt(0x80 + rnd(14) as u8, edge24(), &fs);
            d.truncate(2040);
            d
        }
    }
}
fn offline_no_disconnect() -> Vec<u8> {
    loop {
        let d = offline();
        if d != [0x15] {
            return d;
        }
    }
}
/// Any change to a datagram: cut, stretched, bits flipped, bytes replaced.
fn mutate(mut d: Vec<u8>) -> Vec<u8> {
    for _ in 0..1 + rnd(3) {
        if d.is_empty() {
            return d;
        }
        let n = d.len() as u64;
        match rnd(5) {
            0 => d.truncate(rnd(n) as usize),
            1 => d.extend(junk(1 + rnd(40) as usize)),
            2 => {
                let i = rnd(n) as usize;
                d[i] ^= 1 << rnd(8);
            }
            3 => {
                let i = rnd(n) as usize;
                d[i] = pick(S::Fault, &[0u8, 1, 0x7f, 0x80, 0xff]);
            }
            _ => {
                let i = rnd(n.min(24)) as usize;
                d[i] = rnd(256) as u8;
            }
        }
    }
    d
}
/// What strangers may throw at a listener.
pub fn offline_noise() -> Vec<u8> {
    match rnd(6) {
        0 => {
            let n = any_len();
            junk(n)
        }
        1 => {
            let n = any_len();
            let mut v = junk(n.max(1));
            v[0] = pick(S::Fault, &[0u8, 1, 2, 3, 5, 6, 7, 8, 9, 0x10, 0x12, 0x13, 0x15, 0x19, 0x1c, 0x80, 0x84, 0x8d, 0xa0, 0xc0, 0xfe]);
            v
        }
        2 => offline(),
        3 | 4 => mutate(offline()),
        _ => {
            let d = nonsense();
            if rnd(2) == 0 {
                mutate(d)
            } else {
                d
            }
        }
    }
}
/// A datagram that is not a RakNet datagram by any reading: unknown id, or a
/// known one that ends in the middle of a field.
pub fn damaged() -> Vec<u8> {
    match rnd(9) {
        0 => vec![],
        1 => {
            let n = 1 + rnd(200) as usize;
            let mut v = junk(n);
            v[0] = pick(S::Fault, &[0x20u8, 0x33, 0x48, 0x7f, 0x90, 0x9f, 0xa1, 0xb0, 0xc1, 0xe0, 0xff]);
            v
        }
        2 => {
            // a frame whose payload is cut
            let rel = pick(S::Fault, &[Rel::RO, Rel::R, Rel::RS, Rel::US, Rel::U]);
            let f = rel_frame(rel, edge24(), edge24(), edge24(), payload(0xBAD, 1, 40));
            let d = wire::frames_pkt(0x84, edge24(), &[f]);
            let n = d.len() - 1 - rnd(38) as usize;
            d[..n].to_vec()
        }
        3 => {
            // a frame whose header is cut
            let mut f = rel_frame(Rel::RO, edge24(), 0, edge24(), payload(0xBAD, 1, 40));
            f.frag = Some((2, 7, rnd(2) as u32));
            let d = wire::frames_pkt(0x84, edge24(), &[f]);
            let n = 5 + rnd(18) as usize;
            d[..n].to_vec()
        }
        4 => {
            // a sound frame, then one that claims more than there is
            let a = rel_frame(Rel::R, edge24(), 0, 0, payload(0xBAD, 2, 30));
            let b = rel_frame(Rel::U, 0, 0, 0, payload(0xBAD, 3, 30));
            let mut d = wire::frames_pkt(0x84, edge24(), &[a, b]);
            let n = d.len() - 1 - rnd(25) as usize;
            d.truncate(n);
            d
        }
        5 => {
            // records announced but missing
            let mut d = wire::records_pkt(pick(S::Fault, &[0xc0u8, 0xa0]), &[(edge24(), edge24())]);
            d[2] = d[2].wrapping_add(1 + rnd(200) as u8);
            d
        }
        6 => {
            let d = wire::records_pkt(pick(S::Fault, &[0xc0u8, 0xa0]), &[(3, 9000), (1, 1)]);
            let n = 1 + rnd(d.len() as u64 - 1) as usize;
            d[..n.min(d.len() - 1)].to_vec()
        }
        7 => {
            // a frame with a reliability that does not exist
            let mut d = wire::frames_pkt(0x84, edge24(), &[rel_frame(Rel::U, 0, 0, 0, payload(0xBAD, 1, 40))]);
            d[4] = pick(S::Fault, &[5u8, 6, 7]) << 5;
            d.truncate(4 + 3);
            d
        }
        _ => {
            let d = match rnd(4) {
                0 => wire::ping(1, 5, 6),
                1 => wire::req1(10, 18),
                2 => wire::req2("10.0.0.1:19132".parse().unwrap(), 1400, 5),
                _ => wire::reply1(3, 1400),
            };
            let n = 1 + rnd(15) as usize;
            d[..n.min(d.len() - 1)].to_vec()
        }
    }
}

// ---- helpers ---------------------------------------------------------------
/// Heap that a flood of small datagrams may occupy in the library.
const HEAP_LIMIT: i64 = 48 << 20;
fn heap() -> i64 {
    interpose::CUR.load(std::sync::atomic::Ordering::Relaxed) as i64 - sim::own_heap() as i64
}
fn feed(p: &Peer, n: usize, f: &Flow) {
    for _ in 0..n {
        let rel = pick_rel(&[Rel::RO, Rel::R, Rel::RS, Rel::RO]);
        let len = if rel == Rel::RO { range(S::Work, HDR as u64, 4000) } else { range(S::Work, HDR as u64, 900) } as usize;
        let (id, d) = f.begin(rel, len);
        f.end(id, Fate::Ok);
        p.push(rel, d);
    }
}
/// Move what the reference peer received into the flow's record.
pub fn drain(p: &Peer, f: &Flow) {
    let v = std::mem::take(&mut p.st.borrow_mut().inbox);
    for (_, _, d) in v {
        f.received(&d);
    }
}
pub fn pump_inbox(p: &Peer, f: &Flow) {
    let (p, f) = (p.clone(), f.clone());
    sim::spawn_on(p.node, async move {
        loop {
            drain(&p, &f);
            if p.st.borrow().closed {
                return;
            }
            sleep(ms(10)).await;
        }
    });
}

// ---- P14 -------------------------------------------------------------------
/// Strangers against a listener with clients.
pub fn p14_listener(np: bool) {
    sched_plan(np);
    nodes(4);
    let rp = harness_node();
    let link = crate::life::open_conns_light();
    let n = pick(S::Plan, &[40u64, 150, 400]);
    drive(async move {
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let conns = match connect_all(&srv, 2, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        h::adopt();
        count_dups(&conns);
        sim::world().net.default = link;
        for c in &conns {
            c.c.spawn_reader();
            c.s.spawn_reader();
        }
        let rip = net::node_ip(rp, false).unwrap();
        let h0 = heap();
        let addr = srv.addr;
        // what a client's own address sends is only damaged, never misleading
        let mine: Vec<SocketAddr> = conns.iter().map(|c| client_addr(c.c.node, &c.c.s())).collect();
        for q in 0..n {
            let at = sim::now() + rnd(4000) * MS;
            let own = rnd(5) == 0;
            let src = if own { mine[rnd(2) as usize] } else { SocketAddr::new(rip, 6000 + rnd(30) as u16) };
            let d = if own { damaged() } else { offline_noise() };
            let _ = q;
            sim::call_at(at, move || net::inject(src, addr, d));
        }
        sim::probe_n("hostile_datagrams", n);
        // and to the clients' ports, from their server's address
        for c in &conns {
            for _ in 0..n / 6 {
                let at = sim::now() + rnd(4000) * MS;
                let to = client_addr(c.c.node, &c.c.s());
                let d = damaged();
                sim::call_at(at, move || net::inject(addr, to, d));
            }
        }
        if !exchange(&conns, 25, &[Rel::RO, Rel::R, Rel::RS, Rel::U], SETTLE, "P14", "traffic").await {
            return;
        }
        sleep(ms(4200)).await;
        quiesce();
        if !exchange(&conns, 5, &[Rel::RO, Rel::R], SETTLE, "P14", "traffic").await {
            return;
        }
        // the listener still does its job
        match connect_on(4, addr, CONNECT_BOUND).await {
            Some(Ok(c)) => {
                let a = client_addr(4, &c);
                match srv.wait_for(a, 10 * SEC).await {
                    None => h::viol("P14", "not-accepted", "a new client connected but is not accepted".into()),
                    Some(s) => {
                        let (up, down) = flows(60);
                        let c = Conn { k: 60, c: Ep::new(4, Some(Rc::new(c)), up.clone(), down.clone()), s: Ep::new(SERVER, Some(s), down, up) };
                        c.c.spawn_reader();
                        c.s.spawn_reader();
                        exchange(&[c], 4, &[Rel::RO], SETTLE, "P14", "newcomer").await;
                    }
                }
            }
            _ => h::viol("P14", "newcomer", "no new client can connect after malformed datagrams".into()),
        }
        let r = sim::spawn_on(4, async move { timeout(Duration::from_secs(15), RaknetSocket::ping(&addr)).await }).await.unwrap();
        if !matches!(r, Ok(Ok(_))) {
            h::viol("P14", "ping", "the listener does not answer pings after malformed datagrams".into());
        }
        if heap() - h0 > HEAP_LIMIT {
            h::viol("P14", "memory", format!("{} hostile datagrams made the heap grow by {} bytes", n, heap() - h0));
        }
        check_panics(&["P14"]);
        h::nontrivial();
    });
}

/// A peer (either role) whose stream is interspersed with damaged datagrams and
/// damaged control messages; everything sound is still exchanged.
pub fn p14_session(np: bool) {
    sched_plan(np);
    nodes(3);
    let rp = harness_node();
    let server_role = chance(S::Plan, 500_000);
    let base = pick(S::Plan, &[300u64, 5_000, 30_000]) * 1000;
    let link = net::Link { base, jitter: pick(S::Plan, &[0, base]), loss: pick(S::Plan, &[0u32, 0, 60_000]), ..Default::default() };
    sim::world().net.default = link;
    let pack = pick(S::Plan, &[0usize, 0, 1300]);
    let dm = pick(S::Plan, &[10u64, 60, 200]);
    drive(async move {
        let rip = net::node_ip(rp, false).unwrap();
        let (up, down) = flows(0); // up: reference peer -> library
        up.0.borrow_mut().single_sender = true;
        let o = Opts { pack, guid: 5, ..Default::default() };
        let ep;
        let lib_addr;
        let p;
        if server_role {
            // the library is the client; its server talks rubbish in between
            let sa = SocketAddr::new(rip, 4100);
            p = Peer::new(rp, sa, o).await;
            let p2 = p.clone();
            let j = sim::spawn_on(rp, async move { p2.serve_one(60 * SEC).await });
            let noise = chance(S::Plan, 600_000);
            let stop = Rc::new(Cell::new(false));
            if noise {
                // damaged replies before the proper ones
                let stop = stop.clone();
                sim::spawn_on(0, async move {
                    while !stop.get() {
                        for a in net::ports_bound(2) {
                            let d = damaged();
                            net::inject(sa, SocketAddr::new(ip(2), a.port()), d);
                        }
                        sleep(ms(range(S::Fault, 1, 40))).await;
                    }
                });
            }
            let r = connect_on(2, sa, 60 * SEC).await;
            stop.set(true);
            let s = match r {
                Some(Ok(s)) => s,
                Some(Err(_)) => {
                    // refusing a server that answers with a damaged reply is
                    // connect()'s right
                    sim::probe("connect_refused_damaged_reply");
                    check_panics(&["P14"]);
                    return h::inconclusive("connect-refused");
                }
                None => {
                    if link.loss > 0 {
                        return h::inconclusive("connect");
                    }
                    h::viol("P14", "connect", "connect() does not get through when damaged datagrams come with the server's answers".into());
                    return;
                }
            };
            if !matches!(j.await, Ok(Ok(_))) {
                return h::inconclusive("serve");
            }
            lib_addr = client_addr(2, &s);
            ep = Ep::new(2, Some(Rc::new(s)), down.clone(), up.clone());
        } else {
            let srv = Server::start(SERVER, PORT).await;
            srv.spawn_accept();
            p = Peer::new(rp, SocketAddr::new(rip, 4100), o).await;
            if let Err(e) = p.connect(srv.addr, 30 * SEC).await {
                h::note(e);
                return h::no_connect("connect");
            }
            lib_addr = srv.addr;
            let s = match srv.wait_for(SocketAddr::new(rip, 4100), 10 * SEC).await {
                Some(s) => s,
                None => return h::no_connect("accept"),
            };
            ep = Ep::new(SERVER, Some(s), down.clone(), up.clone());
            std::mem::forget(srv);
        }
        h::adopt();
        up.0.borrow_mut().dups = 1 << 40;
        ep.spawn_reader();
        pump_inbox(&p, &down);
        let src = SocketAddr::new(rip, 4100);
        let span = 3000;
        for _ in 0..dm {
            let at = sim::now() + rnd(span) * MS;
            let d = damaged();
            sim::call_at(at, move || net::inject(src, lib_addr, d));
        }
        sim::probe_n("damaged_datagrams", dm);
        let rounds = 6;
        let h0 = heap();
        for _ in 0..rounds {
            feed(&p, 8, &up);
            // control messages cut short, of unknown kind or empty: the
            // datagram and frame are in order, the message is not
            for _ in 0..rnd(4) {
                let d = match rnd(4) {
                    0 => {
                        let mut v = pick(S::Fault, &[9u8, 0x10, 0x13, 0]).to_be_bytes().to_vec();
                        v.extend(junk(rnd(7) as usize));
                        v
                    }
                    1 => {
                        let mut v = junk(1 + rnd(30) as usize);
                        v[0] = pick(S::Fault, &[0x20u8, 0x40, 0x55, 0x70, 0xe5]);
                        v
                    }
                    2 => vec![],
                    _ => Wr::new(3).u64(1).u64(2).0,
                };
                p.push(pick_rel(&[Rel::R, Rel::U, Rel::RO]), d);
                sim::probe("damaged_control_messages");
            }
            let me = ep.clone();
            let j = sim::spawn_on(ep.node, async move {
                for _ in 0..6 {
                    let rel = pick_rel(&[Rel::RO, Rel::R, Rel::RS]);
                    me.send(rel, msg_len(rel).max(HDR)).await;
                }
            });
            let _ = timeout(Duration::from_secs(60), j).await;
            sleep(ms(range(S::Work, 0, 900))).await;
        }
        let ok = wait_until(SETTLE, || up.settled() && down.settled()).await;
        if !ep.open() {
            h::viol("P14", "closed", format!("damaged datagrams ended the connection: {:?}", ep.recv_err.borrow()));
        } else if !ok {
            for f in [&up, &down] {
                let o = f.owed();
                if !o.is_empty() {
                    h::viol("P14", "traffic", format!("damaged datagrams disturbed {}: {}", f.0.borrow().name, f.describe_owed(&o)));
                }
            }
        }
        if heap() - h0 > HEAP_LIMIT {
            h::viol("P14", "memory", format!("heap grew by {} bytes", heap() - h0));
        }
        for e in p.st.borrow().errors.iter().take(1) {
            h::viol("P14", "malformed-answer", format!("the library answered with a malformed datagram: {}", e));
        }
        check_panics(&["P14"]);
        p.close();
        h::nontrivial();
    });
}

/// A peer that abuses its own session (either role): it may lose that session,
/// nothing else.
pub fn p14_abuse(np: bool) {
    sched_plan(np);
    nodes(4);
    let rp = harness_node();
    let server_role = chance(S::Plan, 400_000);
    let link = net::Link { base: pick(S::Plan, &[300u64, 10_000]) * 1000, ..Default::default() };
    sim::world().net.default = link;
    let n = pick(S::Plan, &[30u64, 120, 300]);
    drive(async move {
        let rip = net::node_ip(rp, false).unwrap();
        let src = SocketAddr::new(rip, 4100);
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let conns = match connect_all(&srv, 1, 30 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        for c in &conns {
            c.c.spawn_reader();
            c.s.spawn_reader();
        }
        h::adopt();
        count_dups(&conns);
        let p = Peer::new(rp, src, Opts { guid: 6, ..Default::default() }).await;
        let lib_addr;
        let victim: Sock;
        let vnode;
        if server_role {
            let p2 = p.clone();
            let j = sim::spawn_on(rp, async move { p2.serve_one(30 * SEC).await });
            let s = match connect_on(4, src, 30 * SEC).await {
                Some(Ok(s)) => Rc::new(s),
                _ => return h::no_connect("connect"),
            };
            let _ = j.await;
            lib_addr = client_addr(4, &s);
            victim = s;
            vnode = 4;
        } else {
            if p.connect(srv.addr, 20 * SEC).await.is_err() {
                return h::no_connect("connect");
            }
            lib_addr = srv.addr;
            victim = match srv.wait_for(src, 10 * SEC).await {
                Some(s) => s,
                None => return h::no_connect("accept"),
            };
            vnode = SERVER;
        }
        let h0 = heap();
        // the application keeps using the session
        let v = victim.clone();
        sim::spawn_on(vnode, async move { while v.recv().await.is_ok() {} });
        let v = victim.clone();
        sim::spawn_on(vnode, async move {
            for i in 0..60u32 {
                if v.send(&payload(11, i, 600), reliability(pick_rel(&[Rel::RO, Rel::R, Rel::U]))).await.is_err() {
                    return;
                }
                sleep(ms(50)).await;
            }
        });
        let style = rnd(5);
        // a number that jumps ahead as far as it can runs a 32-bit counter over in 512 steps
        let n = if style == 4 { pick(S::Fault, &[300, 700, 1400]) } else { n };
        let jump = pick(S::Fault, &[0x80_0000u32, 0x80_0000, 0x7f_ffff, 0x60_0000]);
        let jumps = rnd(3);
        let t0 = sim::now();
        for k in 0..n {
            let at = if style == 4 { t0 + k * 2 * MS } else { sim::now() + rnd(3000) * MS };
            let d = match style {
                4 => {
                    let x = (k as u32 + 1).wrapping_mul(jump).wrapping_sub(1) & 0xff_ffff;
                    let y = 100 + k as u32;
                    let f = match jumps {
                        0 => rel_frame(Rel::RS, y, x, 0, payload(12, 1, 50)),
                        1 => rel_frame(Rel::US, 0, x, 0, payload(12, 1, 50)),
                        _ => rel_frame(Rel::R, y, 0, 0, payload(12, 1, 50)),
                    };
                    wire::frames_pkt(0x84, if jumps == 2 { x } else { y }, &[f])
                }
                0 => nonsense(),
                1 => mutate(nonsense()),
                2 => {
                    // one theme, over and over: incomplete fragments
                    let mut f = rel_frame(Rel::RO, k as u32 + 50, 0, edge24(), payload(12, 1, 500));
                    f.frag = Some((pick(S::Fault, &[2u32, 100, 100_000, u32::MAX]), k as u16, edge32()));
                    wire::frames_pkt(0x84, 50 + k as u32, &[f])
                }
                _ => record_pkt(),
            };
            sim::call_at(at, move || net::inject(src, lib_addr, d));
        }
        sim::probe_n("abusive_datagrams", n);
        if !exchange(&conns, 15, &[Rel::RO, Rel::R], SETTLE, "P14", "bystander").await {
            return;
        }
        sleep(ms(3500)).await;
        let grow = heap() - h0;
        sim::trace(|| format!("heap grew by {}", grow));
        if grow > HEAP_LIMIT {
            h::viol("P14", "memory", format!("{} datagrams of an abusive peer made the heap grow by {} bytes", n, grow));
        }
        // its owner can still be rid of it
        let v = victim.clone();
        let r = sim::spawn_on(vnode, async move { timeout(Duration::from_secs(20), v.close()).await }).await.unwrap();
        if !matches!(r, Ok(Ok(()))) {
            h::viol("P14", "close", "close() of an abused session does not return".into());
        }
        if !server_role {
            let addr = srv.addr;
            match connect_on(3, addr, CONNECT_BOUND).await {
                Some(Ok(_)) => {}
                _ => h::viol("P14", "newcomer", "no new client can connect after an abusive session".into()),
            }
        }
        check_panics(&["P14"]);
        p.close();
        h::nontrivial();
    });
}

/// connect() and ping() against a host that answers anything.
pub fn p14_client(np: bool) {
    sched_plan(np);
    nodes(3);
    let rp = harness_node();
    sim::world().net.default = net::Link { base: pick(S::Plan, &[300u64, 10_000]) * 1000, ..Default::default() };
    let pinging = chance(S::Plan, 400_000);
    let style = choose(S::Plan, 3);
    drive(async move {
        let rip = net::node_ip(rp, false).unwrap();
        let sa = SocketAddr::new(rip, 4200);
        let p = Peer::new(rp, sa, Opts::default()).await;
        let h0 = heap();
        let sound = Rc::new(Cell::new(false));
        {
            let p = p.clone();
            let sound = sound.clone();
            sim::spawn_on(rp, async move {
                let mut buf = vec![0u8; 4096];
                let mut k = 0;
                loop {
                    let (n, from) = match p.sock.recv_from(&mut buf).await {
                        Ok(x) => x,
                        Err(_) => continue,
                    };
                    k += 1;
                    for _ in 0..1 + rnd(3) {
                        let d = match style {
                            0 => {
                                if pinging {
                                    damaged()
                                } else {
                                    mutate(offline())
                                }
                            }
                            1 => {
                                // the right kind of answer with odd values, or damaged
                                let d = match wire::parse(&buf[..n]) {
                                    Ok(wire::Wire::Req1 { .. }) => wire::reply1(edge64(), edge16()),
                                    Ok(wire::Wire::Req2 { .. }) => wire::reply2(edge64(), any_addr(), edge16()),
                                    Ok(wire::Wire::Ping { .. }) => {
                                        let m = junk(rnd(200) as usize);
                                        let mut d = wire::pong(edge64() as i64, 3, &m);
                                        if rnd(2) == 0 {
                                            d.truncate(rnd(30) as usize);
                                        } else {
                                            // the length field lies
                                            let l = d.len();
                                            d[l - m.len() - 2] = rnd(256) as u8;
                                        }
                                        d
                                    }
                                    _ => nonsense(),
                                };
                                if rnd(3) == 0 {
                                    mutate(d)
                                } else {
                                    d
                                }
                            }
                            _ => offline_noise(),
                        };
                        let _ = p.sock.send_to(&d, from).await;
                        sim::probe("hostile_answers");
                    }
                    if pinging && k >= 2 {
                        if let Ok(wire::Wire::Ping { time, .. }) = wire::parse(&buf[..n]) {
                            sound.set(true);
                            let _ = p.sock.send_to(&wire::pong(time, 3, b"MCPE;x;1;2;3;4;5;"), from).await;
                        }
                    }
                }
            });
        }
        let res: Rc<RefCell<String>> = Default::default();
        if pinging {
            let r = sim::spawn_on(2, async move { timeout(Duration::from_secs(100), RaknetSocket::ping(&sa)).await }).await;
            match r {
                Ok(Ok(x)) => *res.borrow_mut() = format!("{:?}", x.map(|_| ())),
                Ok(Err(_)) => {
                    if sound.get() {
                        h::viol("P14", "ping-stuck", "ping() never returns although proper pongs follow the damaged ones".into());
                    }
                }
                Err(_) => *res.borrow_mut() = "panicked".into(),
            }
        } else {
            let r = connect_on(2, sa, 60 * SEC).await;
            if let Some(Ok(s)) = r {
                sim::probe("connected_to_hostile");
                let s = Rc::new(s);
                let s2 = s.clone();
                let _ = sim::spawn_on(2, async move { timeout(Duration::from_secs(5), s2.send(&payload(1, 1, 5000), reliability(Rel::RO))).await }).await;
                sleep(ms(1000)).await;
                let s2 = s.clone();
                let _ = sim::spawn_on(2, async move { timeout(Duration::from_secs(5), s2.close()).await }).await;
                sim::as_node(2, move || drop(s));
            }
        }
        if heap() - h0 > HEAP_LIMIT {
            h::viol("P14", "memory", format!("heap grew by {} bytes", heap() - h0));
        }
        check_panics(&["P14"]);
        // the host as such is unharmed: a real server is reached
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        match connect_on(3, srv.addr, CONNECT_BOUND).await {
            Some(Ok(_)) => {}
            _ => h::no_connect("connect"),
        }
        check_panics(&["P14"]);
        h::nontrivial();
    });
}

// ---- P15 -------------------------------------------------------------------
/// What a third party sends to either end of a connection.
fn spoofed(server: SocketAddr) -> Vec<u8> {
    match rnd(12) {
        0 => vec![0x15],
        1 => wire::records_pkt(0xc0, &[(0, pick(S::Fault, &[5u32, 100, 5000, 0xfffffe]))]),
        2 => wire::records_pkt(0xa0, &[(0, pick(S::Fault, &[5u32, 100]))]),
        3 => wire::frames_pkt(0x84, edge24(), &[rel_frame(pick(S::Fault, &[Rel::RO, Rel::R, Rel::U, Rel::RS, Rel::US]), range(S::Fault, 0, 60) as u32, range(S::Fault, 0, 60) as u32, range(S::Fault, 0, 60) as u32, payload(0xEE11, 1, 60))]),
        4 => wire::frames_pkt(0x84, rnd(80) as u32, &[rel_frame(Rel::RO, rnd(80) as u32, 0, rnd(80) as u32, vec![0x15])]),
        5 => wire::reply1(edge64(), edge16()),
        6 => wire::reply2(edge64(), server, edge16()),
        7 => Wr::new(0x12).magic().u64(edge64()).0,
        8 => wire::incompatible(10, edge64()),
        9 => wire::frames_pkt(0x84, rnd(4) as u32, &[rel_frame(Rel::RO, rnd(3) as u32, 0, 0, wire::conn_accepted(any_addr(), 10, 1, 2))]),
        10 => wire::pong(1, 2, b"x"),
        _ => offline_noise(),
    }
}
pub fn p15(np: bool) {
    sched_plan(np);
    let n = 1 + choose(S::Plan, 3) as usize;
    nodes(1 + n);
    let rp = harness_node();
    let link = crate::life::open_conns_light();
    // low or high rate of forgeries
    let gap = pick(S::Plan, &[2u64, 15, 80]);
    let clean_connect = chance(S::Plan, 500_000);
    drive(async move {
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        if !clean_connect {
            sim::world().net.default = link;
        }
        h::adopt();
        let rip = net::node_ip(rp, false).unwrap();
        let addr = srv.addr;
        let stop = Rc::new(Cell::new(false));
        let conns_addrs: Rc<RefCell<Vec<SocketAddr>>> = Default::default();
        {
            let stop = stop.clone();
            let a2 = conns_addrs.clone();
            sim::spawn_on(0, async move {
                while !stop.get() {
                    // third parties: a stranger, the server host's other
                    // ports, the client host's other ports
                    let sp = rnd(3);
                    for k in 2..2 + n {
                        for a in net::ports_bound(k) {
                            if rnd(2) == 0 {
                                continue;
                            }
                            let src = match sp {
                                0 => SocketAddr::new(rip, 6000 + rnd(8) as u16),
                                1 => SocketAddr::new(ip(SERVER), PORT + 1 + rnd(3) as u16),
                                _ => SocketAddr::new(ip(k), a.port().wrapping_add(1 + rnd(5) as u16)),
                            };
                            let d = spoofed(addr);
                            net::inject(src, SocketAddr::new(ip(k), a.port()), d);
                            sim::probe("spoofed_to_client");
                        }
                    }
                    if rnd(2) == 0 {
                        let src = match sp {
                            0 => SocketAddr::new(rip, 6000 + rnd(8) as u16),
                            1 => SocketAddr::new(ip(2), 9 + rnd(5) as u16),
                            _ => {
                                // same port as a client, another host
                                let v = a2.borrow();
                                let port = v.first().map(|a| a.port()).unwrap_or(7);
                                SocketAddr::new(rip, port)
                            }
                        };
                        let d = spoofed(addr);
                        // strangers opening sessions of their own are P11's business
                        if d.first() != Some(&7) {
                            net::inject(src, addr, d);
                            sim::probe("spoofed_to_server");
                        }
                    }
                    sleep(ms(range(S::Fault, gap / 2 + 1, gap * 2))).await;
                }
            });
        }
        // handshakes under spoofing
        let conns = match connect_all(&srv, n, CONNECT_BOUND).await {
            Some(c) => c,
            None => {
                if link.loss > 0 && !clean_connect {
                    return h::inconclusive("connect");
                }
                h::viol("P15", "connect", format!("connect() does not succeed within {} s while third parties send datagrams", CONNECT_BOUND / SEC));
                return;
            }
        };
        for c in &conns {
            conns_addrs.borrow_mut().push(client_addr(c.c.node, &c.c.s()));
        }
        count_dups(&conns);
        sim::world().net.default = link;
        for c in &conns {
            c.c.spawn_reader();
            c.s.spawn_reader();
        }
        exchange(&conns, pick(S::Plan, &[15usize, 50]), &[Rel::RO, Rel::R, Rel::RS, Rel::US, Rel::U], SETTLE, "P15", "traffic").await;
        sleep(ms(range(S::Work, 0, 4000))).await;
        exchange(&conns, 5, &[Rel::RO, Rel::R], SETTLE, "P15", "traffic").await;
        stop.set(true);
        check_panics(&["P15"]);
        h::nontrivial();
    });
}
/// Third parties cannot keep a dead peer alive either.
pub fn p15_dead(np: bool) {
    sched_plan(np);
    nodes(2);
    let rp = harness_node();
    drive(async move {
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let conns = match connect_all(&srv, 1, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        let c = conns[0].clone();
        c.c.spawn_reader();
        c.s.spawn_reader();
        let server_dies = chance(S::Plan, 500_000);
        let rip = net::node_ip(rp, false).unwrap();
        let (v, to) = if server_dies { (c.c.clone(), client_addr(2, &c.c.s())) } else { (c.s.clone(), srv.addr) };
        sim::crash(if server_dies { SERVER } else { 2 });
        let t = sim::now();
        let every = pick(S::Plan, &[1u64, 9, 30]);
        while v.open() && sim::now() < t + 85 * SEC {
            let src = SocketAddr::new(rip, 6000 + rnd(3) as u16);
            let d = spoofed(srv.addr);
            if d.first() != Some(&7) {
                net::inject(src, to, d);
                sim::probe("spoofed_after_death");
            }
            sleep(ms(every * 1000)).await;
        }
        if v.open() {
            h::viol("P15", "kept-alive", "the peer died 85 s ago; datagrams of third parties keep the connection open".into());
        } else if sim::now() - t < 40 * SEC {
            h::viol("P15", "closed", format!("datagrams of third parties ended the connection after {} s", (sim::now() - t) / SEC));
        }
        check_panics(&["P15"]);
        h::nontrivial();
    });
}
