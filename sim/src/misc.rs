//! flush(), ping/motd, the built-in loss simulation.
use crate::h;
use crate::kit::*;
use crate::oracle::{self, *};
use crate::session::{connect_all, count_dups, SETTLE};
use crate::wire::{self, Rel, Wire};
use rust_raknet::RaknetSocket;
use std::cell::{Cell, RefCell};
use std::net::SocketAddr;
use std::rc::Rc;
use tokio::sim::{self, chance, choose, net, pick, range, MS, S, SEC};
use tokio::time::{sleep, timeout, Duration};

// ---- P06 -------------------------------------------------------------------
/// flush() returned Ok: from then on nothing that happens to the sender or the
/// network can take the messages away from the receiver.
pub fn p06(np: bool) {
    sched_plan(np);
    nodes(2);
    let mut link = link_plan(Hit::Full);
    link.rate = if link.rate > 0 { 2_000_000 } else { 0 };
    let io = io_plan();
    let side = chance(S::Plan, 500_000);
    let how = choose(S::Plan, 5);
    let outage = chance(S::Plan, 350_000);
    h::note(format!("how={} outage={}", how, outage));
    drive(async move {
        h::adopt();
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let conns = match connect_all(&srv, 1, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        count_dups(&conns);
        let c = conns[0].clone();
        let (me, other) = if side { (c.c.clone(), c.s.clone()) } else { (c.s.clone(), c.c.clone()) };
        if chance(S::Plan, 200_000) {
            other.think.set(pick(S::Plan, &[MS, 10 * MS]));
        }
        c.c.spawn_reader();
        c.s.spawn_reader();
        sim::world().net.default = link;
        if io.send_err > 0 || io.send_block > 0 || io.rx_cap > 0 {
            for k in all_nodes() {
                sim::world().net.io.insert(k, io);
            }
        }
        // traffic the other way and further senders, while it lasts
        let go = Rc::new(Cell::new(true));
        for (e, n) in [(&me, choose(S::Work, 3)), (&other, choose(S::Work, 2))] {
            for _ in 0..n {
                e.tx.0.borrow_mut().single_sender = false;
                let e = e.clone();
                let go = go.clone();
                let style = 1 + choose(S::Work, 2);
                sim::spawn_on(e.node, async move {
                    let mut left = 60;
                    while go.get() && left > 0 {
                        left -= 1;
                        let rel = pick_rel(&[Rel::RO, Rel::R, Rel::RS, Rel::U, Rel::US]);
                        if e.send(rel, range(S::Work, HDR as u64, 1300) as usize).await == Fate::Closed {
                            return;
                        }
                        think(style).await;
                        sleep(ms(20)).await;
                    }
                });
            }
        }
        me.tx.0.borrow_mut().single_sender = false;
        let rounds = 1 + choose(S::Work, 5);
        for r in 0..rounds {
            if outage && chance(S::Fault, 400_000) {
                let d = pick(S::Fault, &[200u64, 200, 1000, 1000, 4000, 4000, 15_000, 35_000, 52_000, 90_000]);
                let dir = choose(S::Fault, 3);
                let (a, b) = (me.node, other.node);
                let w = range(S::Fault, 0, 200);
                sim::spawn_on(0, async move {
                    sleep(ms(w)).await;
                    if sim::world().net.lossless {
                        return;
                    }
                    if dir != 1 {
                        net::cut(a, b);
                    }
                    if dir != 2 {
                        net::cut(b, a);
                    }
                    sleep(ms(d)).await;
                    net::heal(a, b);
                    net::heal(b, a);
                });
            }
            let n = range(S::Work, 1, 25);
            let style = choose(S::Work, 4);
            for _ in 0..n {
                let rel = pick_rel(&[Rel::RO, Rel::RO, Rel::R, Rel::RS, Rel::U]);
                if me.send(rel, msg_len(rel).max(HDR)).await == Fate::Closed {
                    return h::inconclusive("closed");
                }
                think(style).await;
            }
            // everything whose send() returned before this call
            let mark = oracle::op();
            let before = me.tx.len();
            // busy senders may keep the queue from ever being empty
            if r + 1 == rounds {
                go.set(false);
            }
            let s = me.s();
            let waiting = sim::spawn_on(me.node, async move {
                // some applications are patient
                let r = timeout(Duration::from_secs(pick(S::Work, &[5u64, 20, 120])), s.flush()).await;
                (r, sim::now())
            });
            let (res, at) = waiting.await.unwrap();
            match res {
                Err(_) => {
                    sim::probe("flush_gave_up");
                    continue;
                }
                Ok(Err(_)) => return h::inconclusive("closed"),
                Ok(Ok(())) => {}
            }
            let last = r + 1 == rounds;
            if last {
                match how {
                    0 => sim::crash(me.node),
                    1 => {
                        net::cut(me.node, other.node);
                        net::cut(other.node, me.node);
                    }
                    2 => {
                        let s = me.s();
                        sim::spawn_on(me.node, async move {
                            let _ = s.close().await;
                        });
                    }
                    3 => {
                        // the application lets go of the connection
                        me.let_go();
                        if !side {
                            srv.forget_all();
                        }
                    }
                    _ => {}
                }
            }
            let slack = 500 * MS + (other.think.get() * 3 + if other.think.get() > 0 { 5 * MS } else { 0 }) * (before as u64 + 100);
            let m2 = me.clone();
            wait_until(slack, || m2.tx.owed_before(mark).is_empty()).await;
            let o = me.tx.owed_before(mark);
            if !o.is_empty() {
                h::viol(
                    "P06",
                    "early-flush",
                    format!(
                        "flush() returned Ok, {} ms later ({}) the receiving application still lacks: {}",
                        (sim::now() - at) / MS,
                        ["the sender crashed", "the network failed", "the connection was closed", "the socket was dropped", "nothing happened"][if last { how as usize } else { 4 }],
                        me.tx.describe_owed(&o)
                    ),
                );
                return;
            }
            sim::probe("flush_ok");
            h::nontrivial();
            if last && how < 4 {
                sim::probe(["after_flush_crash", "after_flush_outage", "after_flush_close", "after_flush_drop"][how as usize]);
                return;
            }
        }
        go.set(false);
        quiesce();
        // with nothing new to send, flush returns
        if !c.c.open() || !c.s.open() {
            return h::inconclusive("closed");
        }
        wait_until(SETTLE, || me.tx.settled()).await;
        for e in [&c.c, &c.s] {
            let s = e.s();
            let r = sim::spawn_on(e.node, async move { timeout(Duration::from_secs(60), s.flush()).await }).await.unwrap();
            if r.is_err() && e.open() {
                h::viol("P06", "flush-stuck", format!("{}: flush() still waits after 60 s of a healthy network", e.tx.0.borrow().name));
            }
        }
        // and on a closed connection it does not claim success
        let s = me.s();
        let (dirty, r) = sim::spawn_on(me.node, async move {
            net::cut(1, 2);
            net::cut(2, 1);
            let d = s.send(&payload(99, 0, 40), reliability(Rel::RO)).await.is_ok();
            let _ = s.close().await;
            (d, timeout(Duration::from_secs(30), s.flush()).await)
        })
        .await
        .unwrap();
        match r {
            Ok(Err(_)) => {}
            Ok(Ok(())) if dirty => h::viol("P06", "flush-closed", "flush() on a closed connection with unacknowledged data returned Ok".into()),
            Ok(Ok(())) => {}
            Err(_) => h::viol("P06", "flush-closed", "flush() on a closed connection does not return".into()),
        }
        check_panics(&["P06"]);
    });
}

// ---- P17 -------------------------------------------------------------------
fn some_motd(k: usize) -> String {
    let n = match choose(S::Work, 6) {
        0 => 0,
        1 => range(S::Work, 600, 880) as usize,
        _ => range(S::Work, 1, 200) as usize,
    };
    let body: String = match choose(S::Work, 3) {
        0 => (0..n / 2).map(|i| if i % 2 == 0 { 'é' } else { '§' }).collect(),
        _ => (0..n).map(|i| (b'a' + ((i * 7 + k) % 26) as u8) as char).collect(),
    };
    // at most 900 bytes
    format!("MCPE;{};{}", k, body)
}
/// Offline discovery: ping() against a listener whose motd changes.
pub fn p17(np: bool) {
    sched_plan(np);
    let n = 1 + choose(S::Plan, 3) as usize;
    nodes(1 + n);
    let v6 = chance(S::Plan, 150_000);
    if v6 {
        crate::wirep::add_v6();
    }
    let rp = harness_node();
    if v6 {
        net::add_ip(rp, crate::wirep::ip6(rp));
    }
    let base = pick(S::Plan, &[0u64, 300_000, 5 * MS, 40 * MS, 250 * MS, 900 * MS, 2600 * MS, 3500 * MS]);
    let jitter = pick(S::Plan, &[0u64, 0, 20 * MS]);
    let loss = pick(S::Plan, &[0u32, 0, 150_000, 500_000]);
    let dup = pick(S::Plan, &[0u32, 0, 200_000]);
    let clocks = chance(S::Plan, 300_000);
    let late = pick(S::Plan, &[0u64, 0, 0, 3, 11]) * SEC;
    sim::world().net.default = net::Link { base, jitter, loss, dup, ..Default::default() };
    h::note(format!("n={} v6={} base={}ms loss={} dup={} clocks={} late={}", n, v6, base / MS, loss, dup, clocks, late / SEC));
    let mut strays = if chance(S::Plan, 300_000) { range(S::Plan, 1, 5) } else { 0 };
    let late_strays = strays * 7 * SEC;
    drive(async move {
        let addr = SocketAddr::new(if v6 { crate::wirep::ip6(SERVER) } else { ip(SERVER) }, PORT);
        // datagrams of that address that are no pong reach the caller of ping() as well
        sim::world().net.on_send = Some(Box::new(move |p| {
            if strays == 0 || p.src_node < 2 || p.src_node > 1 + n || p.dst != addr || !matches!(p.data[0], 1 | 2) {
                return;
            }
            if !chance(S::Fault, 400_000) {
                return;
            }
            strays -= 1;
            let mut d = wire::pong(pick(S::Fault, &[0, i64::MIN, i64::MAX, 12345]), 7, b"stray");
            match choose(S::Fault, 5) {
                0 => d[0] = pick(S::Fault, &[0x00, 0x06, 0x08, 0x12, 0x84, 0xc0, 0xfe, 0x1d]),
                1 => d[0] = pick(S::Fault, &[0x19, 0x01, 0x02, 0x1b]),
                2 => d.truncate(choose(S::Fault, d.len() as u64) as usize),
                3 => d = Vec::new(),
                _ => {
                    let k = d.len();
                    d[k - 6] = 0xff
                }
            }
            let at = sim::now() + choose(S::Fault, 60) * MS;
            let to = p.src;
            sim::probe("strays_at_ping");
            sim::call_at(at, move || net::inject(addr, to, d));
        }));
        // (value, from, until) of the motd
        let hist: Rc<RefCell<Vec<(String, u64, u64)>>> = Default::default();
        // motds received: (value, asked at, received at)
        let seen: Rc<RefCell<Vec<(String, u64, u64)>>> = Default::default();
        let guid: Rc<RefCell<Vec<u64>>> = Default::default();
        let stop = Rc::new(Cell::new(false));
        let h2 = hist.clone();
        let st = stop.clone();
        let server = sim::spawn_on(SERVER, async move {
            sleep(Duration::from_nanos(late)).await;
            let mut l = rust_raknet::RaknetListener::bind(&addr).await.expect("bind");
            if chance(S::Work, 300_000) {
                // before listen(): kept
                l.set_full_motd("MCPE;early".into()).unwrap();
            }
            l.listen().await;
            let m = l.get_motd().await;
            h2.borrow_mut().push((m, 0, u64::MAX));
            let mut k = 0;
            while !st.get() {
                let style = choose(S::Work, 4);
                if style > 0 {
                    k += 1;
                    let t0 = sim::now();
                    let want;
                    if style == 1 {
                        let name: String = some_motd(k).chars().take(400).collect();
                        l.set_motd(&name, 7 + k as u32, "486", "1.18.11", "Survival", 19132).await;
                        want = None;
                        let m = l.get_motd().await;
                        // documented fields
                        let f: Vec<&str> = m.split(';').collect();
                        if !m.starts_with("MCPE;") || !m.contains(&name) || f.iter().all(|x| *x != format!("{}", 7 + k)) {
                            h::viol("P17", "motd-fields", format!("set_motd({:?}, {}, ..) made the motd {:?}", name, 7 + k, m));
                        }
                    } else {
                        let m = some_motd(k);
                        l.set_full_motd(m.clone()).unwrap();
                        want = Some(m);
                    }
                    let got = l.get_motd().await;
                    if let Some(w) = want {
                        if got != w {
                            h::viol("P17", "get-motd", format!("set_full_motd({:?}); get_motd() is {:?}", w, got));
                        }
                    }
                    let mut h = h2.borrow_mut();
                    let i = h.len() - 1;
                    h[i].2 = sim::now();
                    h.push((got, t0, u64::MAX));
                }
                sleep(ms(range(S::Work, 10, 1500))).await;
            }
            l
        });
        if clocks {
            let nn = sim::world().nodes.len();
            let st = stop.clone();
            sim::spawn_on(0, async move {
                while !st.get() {
                    sleep(ms(range(S::Fault, 50, 2000))).await;
                    let a = range(S::Fault, 1, nn as u64 - 1) as usize;
                    let d = pick(S::Fault, &[50i64, 1000, 30_000, 3_600_000, 86_400_000]) * MS as i64;
                    sim::step_wall_clock(a, if chance(S::Fault, 500_000) { -d } else { d });
                }
            });
        }
        let live = Rc::new(Cell::new(0));
        for k in 0..n {
            let node = 2 + k;
            live.set(live.get() + 1);
            let live = live.clone();
            let seen = seen.clone();
            let rounds = range(S::Work, 1, 5);
            sim::spawn_on(node, async move {
                for _ in 0..rounds {
                    let t = sim::now();
                    let r = RaknetSocket::ping(&addr).await;
                    let el = sim::now() - t;
                    match r {
                        Err(e) => {
                            h::viol("P17", "ping-error", format!("ping() to a listener failed: {:?}", e));
                            break;
                        }
                        Ok((lat, motd)) => {
                            sim::probe("pings");
                            // also when the pong is so late that the ping has been repeated
                            let low = 2 * base / MS;
                            let el_ms = el.div_ceil(MS) as i64;
                            if lat < low as i64 - 1 || lat > el_ms + 1 {
                                h::viol("P17", "latency", format!("ping() took {} ms over a network with a round trip of {} ms and reports {} ms", el / MS, 2 * base / MS, lat));
                            }
                            seen.borrow_mut().push((motd, t, sim::now()));
                        }
                    }
                    sleep(ms(range(S::Work, 0, 800))).await;
                }
                live.set(live.get() - 1);
            });
        }
        // plain datagrams, to see what is in an answer
        let sock = sim::spawn_on(rp, async move {
            let a = if v6 { "[::]:5005" } else { "0.0.0.0:5005" };
            tokio::net::UdpSocket::bind(a).await.unwrap()
        })
        .await
        .unwrap();
        let g2 = guid.clone();
        let seen2 = seen.clone();
        let raw = sim::spawn_on(rp, async move {
            sleep(Duration::from_nanos(late + SEC)).await;
            let mut outstanding = std::collections::BTreeSet::new();
            let mut buf = vec![0u8; 2048];
            for i in 0..range(S::Work, 2, 10) {
                let id = 1 + (i % 2) as u8;
                let time = [i as i64, i64::MAX - i as i64, -1 - i as i64, sim::wall_ns() as i64 / 1_000_000][choose(S::Work, 4) as usize];
                outstanding.insert(time);
                let _ = sock.send_to(&wire::ping(id, time, 77), addr).await;
                let t = sim::now();
                while let Ok(Ok((n, from))) = timeout(ms(200), sock.recv_from(&mut buf)).await {
                    match wire::parse(&buf[..n]) {
                        Ok(Wire::Pong { time, guid, motd }) => {
                            if !outstanding.contains(&time) {
                                h::viol("P17", "echo", format!("a pong carries ping time {}, the pings sent were {:?}", time, outstanding));
                            }
                            if from != addr {
                                h::viol("P17", "pong-from", format!("a pong for {} comes from {}", addr, from));
                            }
                            g2.borrow_mut().push(guid);
                            let m = String::from_utf8_lossy(&motd).to_string();
                            seen2.borrow_mut().push((m, 0, sim::now()));
                        }
                        Ok(w) => h::viol("P17", "no-pong", format!("a ping was answered with {:?}", w)),
                        Err(e) => h::viol("P17", "no-pong", format!("a ping was answered with {}: {}", net::hex(&buf[..n]), e)),
                    }
                    if sim::now() - t > 2 * SEC {
                        break;
                    }
                }
            }
            sim::world().net.default.loss = 0;
            let time = 0x0102_0304_0506_0708;
            let _ = sock.send_to(&wire::ping(1, time, 78), addr).await;
            let t = sim::now();
            loop {
                if sim::now() - t > 10 * SEC {
                    h::viol("P17", "no-answer", "an unconnected ping was not answered within 10 s on a clean network".into());
                    break;
                }
                if let Ok(Ok((n, _))) = timeout(ms(500), sock.recv_from(&mut buf)).await {
                    if let Ok(Wire::Pong { time: t2, .. }) = wire::parse(&buf[..n]) {
                        if t2 == time {
                            break;
                        }
                    }
                }
            }
        });
        let _ = raw.await;
        sim::world().net.lossless = true;
        let lv = live.clone();
        // rounds of at most 5 + 2 s each for a lost ping and a stale answer
        if !wait_until(5 * (8 * SEC + 2 * SEC) + 10 * SEC + late_strays, || lv.get() == 0).await {
            h::viol("P17", "ping-stuck", "ping() does not return on a clean network with the listener up".into());
        }
        stop.set(true);
        let mut l = server.await.unwrap();
        // a last motd, asked for by several callers at a time
        sim::world().net.on_send = None;
        for round in 0..2 {
            let last = if round == 0 { l.get_motd().await } else { some_motd(100_000) };
            if round > 0 {
                l.set_full_motd(last.clone()).unwrap();
            }
            let open = Rc::new(Cell::new(0));
            let t = sim::now();
            for k in 0..range(S::Work, 1, 6) {
                open.set(open.get() + 1);
                let (open, last) = (open.clone(), last.clone());
                sim::spawn_on(2 + (k as usize) % n, async move {
                    match RaknetSocket::ping(&addr).await {
                        Ok((lat, m)) => {
                            let el = (sim::now() - t).div_ceil(MS) as i64;
                            if lat < (2 * base / MS) as i64 - 1 || lat > el + 1 {
                                h::viol("P17", "latency", format!("ping() took {} ms over a network with a round trip of {} ms and reports {} ms", el, 2 * base / MS, lat));
                            }
                            if m != last {
                                h::viol("P17", "motd", format!("ping() returned motd {:?}, it has been {:?} for all the call", m, last));
                            }
                        }
                        Err(e) => h::viol("P17", "ping-error", format!("ping() to a listener failed: {:?}", e)),
                    }
                    open.set(open.get() - 1);
                });
            }
            let o = open.clone();
            if !wait_until(2 * (base + jitter) + 8 * SEC, || o.get() == 0).await {
                h::viol("P17", "ping-stuck", format!("{} of several ping() at a time do not return on a clean network, the motd has {} bytes", open.get(), last.len()));
            }
        }
        let hi = hist.borrow();
        for (m, t, at) in seen.borrow().iter() {
            if !hi.iter().any(|x| x.0 == *m && x.1 <= *at && x.2 >= *t) {
                let known = hi.iter().any(|x| x.0 == *m);
                h::viol("P17", "motd", format!("ping from {} ms to {} ms returned motd {:?}, which was {}", t / MS, at / MS, m, if known { "the motd at another time" } else { "never set" }));
                break;
            }
        }
        let g = guid.borrow();
        if g.windows(2).any(|w| w[0] != w[1]) {
            h::viol("P17", "guid", format!("pongs of one listener carry different server ids: {:?}", *g));
        }
        check_panics(&["P17"]);
        drop(l);
        h::nontrivial();
    });
}

// ---- P24 -------------------------------------------------------------------
/// set_loss_rate(): the delivery guarantees hold under the built-in loss
/// simulation, and it loses about what it says.
/// At low stages a dozen datagrams in a row are lost now and then, and a
/// connection of which one end heard nothing for a minute rightly ends.
fn chance_explains(stage: u8, silent_since: &Cell<u64>, longest: &Cell<(u64, u64)>, cn: &Conn) -> bool {
    let (t, asked) = longest.get();
    let now = sim::now() - silent_since.get();
    let ended = !cn.c.open() || !cn.s.open();
    stage <= 7 && ended && asked <= 18 && t.max(now) > 40 * SEC
}

pub fn p24(np: bool) {
    sched_plan(np);
    nodes(2);
    let precise = chance(S::Plan, 200_000);
    let kinds = chance(S::Plan, 150_000);
    let stage = pick(S::Plan, &[10u8, 10, 9, 8, 8, 7, 6, 5, 5]);
    let side = chance(S::Plan, 500_000);
    let base = pick(S::Plan, &[0u64, 500_000, 20 * MS]);
    sim::world().net.default = net::Link { base, ..Default::default() };
    h::note(format!("stage={} side={}", stage, side));
    drive(async move {
        h::adopt();
        let srv = Server::start(SERVER, PORT).await;
        let accepted: Rc<RefCell<Option<RaknetSocket>>> = Default::default();
        let a2 = accepted.clone();
        let l = srv.l.clone();
        let acc = sim::spawn_on(SERVER, async move {
            let mut g = l.lock().await;
            *a2.borrow_mut() = g.as_mut().unwrap().accept().await.ok();
        });
        let mut c = match connect_on(2, srv.addr, 30 * SEC).await {
            Some(Ok(c)) => c,
            _ => return h::no_connect("connect"),
        };
        let _ = timeout(Duration::from_secs(10), acc).await;
        let mut s = match accepted.borrow_mut().take() {
            Some(s) => s,
            None => return h::no_connect("accept"),
        };
        // what leaves the lossy side
        let (src, far) = if side { (2, SERVER) } else { (SERVER, 2) };
        let count = Rc::new(Cell::new(0u64));
        // packet numbers seen, acknowledgement datagrams and what they cover
        let numbers: Rc<RefCell<std::collections::BTreeSet<u32>>> = Default::default();
        let acks = Rc::new(Cell::new(0u64));
        let acked: Rc<RefCell<std::collections::BTreeSet<u32>>> = Default::default();
        // since it was last heard
        let silent_since = Rc::new(Cell::new(sim::now()));
        let asked = Rc::new(Cell::new(0u64));
        let longest = Rc::new(Cell::new((0u64, 0u64)));
        // from this many datagrams on it hears nothing
        let armed = Rc::new(Cell::new(u64::MAX));
        let deaf = Rc::new(Cell::new(false));
        let (armed2, deaf2) = (armed.clone(), deaf.clone());
        let (c2, n2, a2, k2, s2, q2, l2) = (count.clone(), numbers.clone(), acks.clone(), acked.clone(), silent_since.clone(), asked.clone(), longest.clone());
        sim::world().net.on_send = Some(Box::new(move |p| {
            if p.src_node != src {
                return;
            }
            let t = sim::now() - s2.get();
            if t > l2.get().0 {
                l2.set((t, q2.get()));
            }
            s2.set(sim::now());
            q2.set(0);
            match wire::parse(&p.data) {
                Ok(Wire::Frames { seq, .. }) => {
                    c2.set(c2.get() + 1);
                    n2.borrow_mut().insert(seq);
                    if c2.get() > armed2.get() {
                        deaf2.set(true);
                    }
                }
                Ok(Wire::Ack(r)) => {
                    a2.set(a2.get() + 1);
                    for (x, y) in r {
                        k2.borrow_mut().extend(x..=y.min(x + 5000));
                    }
                }
                _ => {}
            }
        }));
        let q2 = asked.clone();
        sim::world().net.on_deliver = Some(Box::new(move |p| {
            if p.src_node == far {
                q2.set(q2.get() + 1);
            }
        }));
        if side {
            c.set_loss_rate(stage);
        } else {
            s.set_loss_rate(stage);
        }
        let (up, down) = flows(0);
        let cn = Conn { k: 0, c: Ep::new(2, Some(Rc::new(c)), up.clone(), down.clone()), s: Ep::new(SERVER, Some(Rc::new(s)), down, up) };
        cn.c.spawn_reader();
        cn.s.spawn_reader();
        let me = if side { cn.c.clone() } else { cn.s.clone() };
        // nothing else is on the wire while unreliable messages are counted
        let so = me.s();
        let _ = sim::spawn_on(me.node, async move { timeout(Duration::from_secs(60), so.flush()).await }).await;
        sleep(ms(800)).await;
        let before = count.get();
        let n = if precise { 1500u64 } else { 250 };
        for _ in 0..n {
            me.send(Rel::U, 40).await;
        }
        sleep(ms(600)).await;
        let seen = count.get() - before;
        // stage of 10 get through (give or take), plus stray keep-alive traffic
        let (p, q) = ((stage as f64 + 1.0) / 11.0, stage as f64 / 10.0);
        let noise = 6.0 * (0.5 * 0.5 / n as f64).sqrt() + 0.01;
        if (seen as f64) < n as f64 * (p.min(q) - noise) || seen as f64 > n as f64 * (p.max(q) + noise) + 10.0 {
            h::viol("P24", "rate", format!("{} of {} datagrams sent at loss stage {}", seen, n, stage));
        }
        if stage >= 10 && seen < n {
            h::viol("P24", "rate", format!("{} of {} datagrams sent at stage 10, which loses nothing", seen, n));
        }
        sim::probe_n("loss_sampled", n);
        // acknowledgements are lost as well
        let other = if side { cn.s.clone() } else { cn.c.clone() };
        if kinds {
            let (a0, k0) = (acks.get(), acked.borrow().len());
            for _ in 0..300 {
                other.send(Rel::U, 40).await;
            }
            sleep(ms(600)).await;
            let (a, k) = (acks.get() - a0, acked.borrow().len() - k0);
            if stage <= 7 && a >= 150 && k >= 300 {
                h::viol("P24", "kinds", format!("at loss stage {} none of {} acknowledgements was lost", stage, a));
            }
        }
        for _ in 0..2 {
            let (s2, l2, c2) = (silent_since.clone(), longest.clone(), cn.clone());
            if !exchange_unless(&[cn.clone()], range(S::Work, 3, 15) as usize, &[Rel::RO, Rel::R, Rel::RO], 300 * SEC, "P24", "undelivered", move || chance_explains(stage, &s2, &l2, &c2)).await {
                return;
            }
        }
        if kinds {
            // and what is sent again: every transmission has a number of its own
            let so = me.s();
            let _ = sim::spawn_on(me.node, async move { timeout(Duration::from_secs(60), so.flush()).await }).await;
            let deaf2 = deaf.clone();
            sim::world().net.filter = Some(Box::new(move |p| if p.src_node == far && deaf2.get() { net::Action::Drop } else { net::Action::Pass }));
            armed.set(count.get() + 12);
            for _ in 0..80 {
                let me = me.clone();
                sim::spawn_on(me.node, async move {
                    me.send(Rel::R, 40).await;
                });
            }
            sleep(ms(1500)).await;
            let first = numbers.borrow().last().copied().unwrap_or(0);
            let before = count.get();
            sleep(ms(5000)).await;
            let sent = count.get() - before;
            let last = numbers.borrow().last().copied().unwrap_or(0);
            armed.set(u64::MAX);
            deaf.set(false);
            sim::world().net.filter = None;
            if stage <= 7 && sent >= 100 && (last - first) as u64 == sent {
                h::viol("P24", "kinds", format!("at loss stage {} none of {} repeated transmissions was lost", stage, sent));
            }
            sim::probe("loss_of_acks_and_repeats");
        }
        check_panics(&["P24"]);
        h::nontrivial();
    });
}
