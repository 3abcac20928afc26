//! Data transfer between real library endpoints.
use crate::h;
use crate::kit::*;
use crate::oracle::*;
use crate::wire::Rel;
use crate::wiremon::WireMon;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::rc::Rc;
use tokio::sim::{self, chance, choose, net, pick, range, MS, S, SEC};
use tokio::time::{sleep, Duration};

pub struct Sess {
    pub hit: Hit,
    pub mix: &'static [Rel],
    pub max_clients: u64,
    pub senders: u64,
    pub msgs: (u64, u64),
    pub faults: bool,
    pub slow: bool,
    pub monitor: bool,
    pub io: bool,
    pub clock: bool,
    /// all messages large, sent without pause
    pub big: bool,
}
impl Default for Sess {
    fn default() -> Sess {
        Sess {
            hit: Hit::Full,
            mix: &[Rel::RO],
            max_clients: 3,
            senders: 3,
            msgs: (10, 80),
            faults: true,
            slow: true,
            monitor: false,
            io: true,
            clock: true,
            big: false,
        }
    }
}

/// Time after the last fault within which everything owed must be there.
pub const SETTLE: u64 = 45 * SEC;

/// Connect `n` clients on nodes 2..; None when one did not get through (which
/// is another property's business).
pub async fn connect_all(srv: &Server, n: usize, within: u64) -> Option<Vec<Conn>> {
    let mut hs = Vec::new();
    for k in 0..n {
        let node = 2 + k;
        let addr = srv.addr;
        hs.push(sim::spawn_on(0, async move { connect_on(node, addr, within).await }));
    }
    let mut out = Vec::new();
    for (k, j) in hs.into_iter().enumerate() {
        let node = 2 + k;
        let c = match j.await {
            Ok(Some(Ok(c))) => c,
            _ => return None,
        };
        let a = client_addr(node, &c);
        let s = srv.wait_for(a, 5 * SEC).await?;
        let (up, down) = flows(k);
        out.push(Conn {
            k,
            c: Ep::new(node, Some(Rc::new(c)), up.clone(), down.clone()),
            s: Ep::new(srv.node, Some(s), down, up),
        });
    }
    Some(out)
}

/// Count network-made copies per direction for the unreliable rule.
pub fn count_dups(conns: &[Conn]) {
    let mut m: BTreeMap<(usize, usize), Flow> = BTreeMap::new();
    for c in conns {
        m.insert((c.c.node, c.s.node), c.c.tx.clone());
        m.insert((c.s.node, c.c.node), c.s.tx.clone());
    }
    let prev = sim::world().net.on_deliver.take();
    let mut prev = prev;
    sim::world().net.on_deliver = Some(Box::new(move |p| {
        if let Some(f) = prev.as_mut() {
            f(p);
        }
        if p.dup {
            if let Some(f) = m.get(&(p.src_node, p.dst_node)) {
                f.0.borrow_mut().dups += 1;
            }
        }
    }));
}

pub fn spawn_senders(ep: &Ep, p: &Sess, live: &Rc<Cell<usize>>) {
    let k = 1 + choose(S::Work, p.senders);
    if k > 1 {
        ep.tx.0.borrow_mut().single_sender = false;
    }
    for _ in 0..k {
        let n = range(S::Work, p.msgs.0, p.msgs.1) / k;
        let style = if p.big { 3 } else { choose(S::Work, 4) };
        let big = p.big;
        let me = ep.clone();
        let live = live.clone();
        let mix = p.mix;
        let flusher = chance(S::Work, 250_000);
        let bad = chance(S::Work, 300_000);
        live.set(live.get() + 1);
        sim::spawn_on(ep.node, async move {
            for i in 0..n {
                let rel = pick_rel(mix);
                let mut len = if big && rel == Rel::RO { range(S::Work, 1341, 6000) as usize } else { msg_len(rel) };
                if len < HDR && (k > 1 || rel != Rel::RO) {
                    len += HDR;
                }
                match me.send(rel, len).await {
                    Fate::Closed => break,
                    Fate::Refused => h::viol("P04", "wrongly-refused", format!("send() refused a {:?} message of {} bytes that begins with 0xfe", rel, len)),
                    _ => {}
                }
                if bad && chance(S::Work, 150_000) && !bad_send(&me).await {
                    break;
                }
                think(style).await;
                if flusher && i % 8 == 7 {
                    let s = me.s();
                    let _ = s.flush().await;
                }
            }
            live.set(live.get() - 1);
        });
    }
}

/// A send() that has to be refused; nothing of it may show up at the peer.
/// False when the connection is closed.
async fn bad_send(me: &Ep) -> bool {
    let max = 1340usize;
    let rel = pick_rel(&[Rel::RO, Rel::R, Rel::RS, Rel::US, Rel::U]);
    let (d, want): (Vec<u8>, &[&str]) = match choose(S::Work, 4) {
        0 => (vec![], &["PacketHeaderError"]),
        1 | 2 => {
            let mut d = payload(99, choose(S::Work, 1000) as u32, pick(S::Work, &[1usize, 2, 40, 700]));
            d[0] = match choose(S::Work, 3) {
                0 => choose(S::Work, 0x20) as u8,
                1 => 0x80 + choose(S::Work, 0x50) as u8,
                _ => choose(S::Work, 0xfe) as u8,
            };
            if d[0] == 0xfe {
                d[0] = 0xff;
            }
            (d, &["PacketHeaderError"])
        }
        _ => {
            let rel = if rel == Rel::RO { Rel::R } else { rel };
            let n = match choose(S::Work, 3) {
                0 => max + 1,
                1 => range(S::Work, max as u64 + 1, 1500) as usize,
                _ => range(S::Work, 1500, 70_000) as usize,
            };
            let r = me.s().send(&payload(99, choose(S::Work, 1000) as u32, n), reliability(rel)).await;
            return refused(me, r, &["PacketSizeExceedMTU"], format!("{:?} of {} bytes", rel, n));
        }
    };
    let r = me.s().send(&d, reliability(rel)).await;
    refused(me, r, want, format!("{:?} of {} bytes with first byte {:02x?}", rel, d.len(), d.first()))
}
fn refused(me: &Ep, r: Result<(), rust_raknet::error::RaknetError>, want: &[&str], what: String) -> bool {
    sim::probe("refused_sends");
    let got = format!("{:?}", r);
    if got.contains("ConnectionClosed") {
        return false;
    }
    if !want.iter().any(|w| got.contains(w)) {
        h::viol("P04", "not-refused", format!("{}: send({}) returned {}, expected {:?}", me.tx.0.borrow().name, what, got, want));
    }
    true
}

pub fn run(no_preempt: bool, mut p: Sess) {
    sched_plan(no_preempt);
    if p.mix.contains(&Rel::RO) && chance(S::Plan, 120_000) {
        p.big = true;
        h::note("big".into());
    }
    let n = 1 + choose(S::Plan, p.max_clients) as usize;
    nodes(1 + n);
    let link = link_plan(p.hit);
    let io = if p.io { io_plan() } else { net::IoFaults::default() };
    // faults from the first packet on in some runs, after connecting in others
    let early = p.hit != Hit::None && chance(S::Plan, 250_000);
    if early {
        sim::world().net.default = link;
    }
    drive(async move {
        let mon = if p.monitor {
            let m = WireMon::attach(&all_nodes().collect::<Vec<_>>());
            Some(m)
        } else {
            None
        };
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        let conns = match connect_all(&srv, n, 60 * SEC).await {
            Some(c) => c,
            None => {
                h::no_connect("connect");
                return;
            }
        };
        count_dups(&conns);
        sim::world().net.default = link;
        for k in all_nodes() {
            if io.send_err > 0 || io.send_block > 0 || io.rx_cap > 0 {
                sim::world().net.io.insert(k, io);
            }
        }
        let live = Rc::new(Cell::new(0));
        for c in &conns {
            for e in [&c.c, &c.s] {
                if p.slow && chance(S::Plan, 200_000) {
                    e.think.set(pick(S::Plan, &[MS, 10 * MS, 50 * MS]));
                }
                if p.slow && chance(S::Plan, 150_000) {
                    e.pause_until.set(sim::now() + pick(S::Plan, &[200u64, 2_000, 9_000]) * MS);
                }
                e.spawn_reader();
                spawn_senders(e, &p, &live);
            }
        }
        let dur = pick(S::Plan, &[4u64, 10, 20]) * SEC;
        let until = sim::now() + dur;
        let fd = if p.faults {
            Some(sim::spawn_on(
                0,
                fault_driver(FaultOpts { partitions: true, stalls: true, clock: p.clock, budget: 14 * SEC }, until),
            ))
        } else {
            None
        };
        // the faulty phase ends when the time is up or the work is done
        loop {
            let done = live.get() == 0 && conns.iter().all(|c| c.c.tx.settled() && c.s.tx.settled());
            if done || sim::now() >= until {
                break;
            }
            sleep(ms(20)).await;
        }
        if let Some(f) = fd {
            f.abort();
        }
        quiesce();
        let t_quiet = sim::now();
        // senders still have their own pace; they must all return, then settle
        let mut slack = 0;
        for c in &conns {
            for e in [&c.c, &c.s] {
                slack = slack.max(e.pause_until.get().saturating_sub(sim::now()));
                slack = slack.max(e.think.get() * 400);
            }
        }
        judge(&conns, &live, t_quiet, SETTLE + slack + 25 * SEC).await;
        if let Some(m) = &mon {
            sleep(ms(400)).await;
            let g = m.0.borrow();
            sim::probe_n("wire_datagrams", g.datagrams);
            sim::probe_n("wire_acks", g.acks);
            sim::probe_n("wire_nacks", g.nacks);
            sim::probe_n("wire_resends", g.resends);
        }
        if conns.iter().any(|c| c.c.tx.delivered() + c.s.tx.delivered() > 0) {
            h::nontrivial();
        }
        for c in &conns {
            sim::probe_n("messages_delivered", (c.c.tx.delivered() + c.s.tx.delivered()) as u64);
            sim::probe_n("messages_sent", (c.c.tx.len() + c.s.tx.len()) as u64);
        }
    });
}

/// The network is whole: everything owed must arrive, all calls return, every
/// connection is still there.
async fn judge(conns: &[Conn], live: &Rc<Cell<usize>>, t_quiet: u64, within: u64) {
    let cs = conns.to_vec();
    // longest sender plan: 80 messages at <= 250 ms
    let ok = wait_until(within, || live.get() == 0 && cs.iter().all(|c| c.c.tx.settled() && c.s.tx.settled())).await;
    let took = sim::now() - t_quiet;
    let mut quiet_ok = ok;
    for c in conns {
        for (e, o) in [(&c.c, &c.s), (&c.s, &c.c)] {
            if !e.open() {
                quiet_ok = false;
                let m = format!(
                    "connection {} was closed under the application ({:?}) although both ends kept talking",
                    e.rx.0.borrow().name,
                    e.recv_err.borrow()
                );
                h::viol("P05", "spurious-close", m.clone());
                h::viol("P10", "spurious-close", m);
                continue;
            }
            let _ = o;
            let owed = e.tx.owed();
            if !owed.is_empty() {
                let d = format!("{} s after faults stopped, {}: {}", took / SEC, e.tx.0.borrow().name, e.tx.describe_owed(&owed));
                h::viol("P05", "stuck", d.clone());
                for (r, q) in [(Rel::RO, "P01"), (Rel::R, "P02"), (Rel::RS, "P03")] {
                    if owed.iter().any(|x| x.1 == r) {
                        h::viol(q, "lost", d.clone());
                    }
                }
            }
        }
    }
    if live.get() > 0 && !conns.iter().any(|c| !c.c.open() || !c.s.open()) {
        h::viol("P05", "send-stuck", format!("{} send() calls still pending {} s after faults stopped", live.get(), took / SEC));
    }
    // flush must now return Ok everywhere
    if quiet_ok {
        for c in conns {
            for e in [&c.c, &c.s] {
                let s = e.s();
                let r = sim::spawn_on(e.node, async move { tokio::time::timeout(Duration::from_secs(45), s.flush()).await }).await;
                match r {
                    Ok(Ok(Ok(()))) => {}
                    Ok(Ok(Err(x))) => h::viol("P05", "flush-error", format!("{}: flush on a healthy connection failed: {:?}", e.tx.0.borrow().name, x)),
                    _ => h::viol("P05", "flush-stuck", format!("{}: flush did not return although everything was delivered", e.tx.0.borrow().name)),
                }
            }
        }
    }
    check_panics(&["P05"]);
    for c in conns {
        h::note(format!("{} {}", c.c.tx.brief(), c.s.tx.brief()));
    }
}

/// One long outage, otherwise a clean network: whatever was sent before, during
/// and after it arrives, the connection survives it.
pub fn outage(np: bool, mix: &'static [Rel]) {
    sched_plan(np);
    nodes(2);
    let base = pick(S::Plan, &[200_000u64, 3 * MS, 20 * MS, 60 * MS]);
    let len = pick(S::Plan, &[3u64, 8, 12, 15, 18, 21, 24, 27, 30]) * SEC;
    let mode = choose(S::Plan, 3);
    h::note(format!("outage={}s mode={} base={}us", len / SEC, mode, base / 1000));
    drive(async move {
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        sim::world().net.default.base = base;
        let conns = match connect_all(&srv, 1, 60 * SEC).await {
            Some(c) => c,
            None => {
                h::no_connect("connect");
                return;
            }
        };
        let live = Rc::new(Cell::new(0));
        let c = conns[0].clone();
        c.c.spawn_reader();
        c.s.spawn_reader();
        let start = sim::now() + range(S::Plan, 200, 1500) * MS;
        let sides = 1 + choose(S::Plan, 3);
        for (i, e) in [&c.c, &c.s].into_iter().enumerate() {
            if sides & (1 << i) == 0 {
                continue;
            }
            // when each message is sent, relative to the start of the outage
            let n = range(S::Work, 1, 12);
            let mut at: Vec<i64> = (0..n)
                .map(|_| match choose(S::Work, 5) {
                    0 => -(range(S::Work, 0, 150) as i64),
                    1 => range(S::Work, 0, 60) as i64,
                    2 => range(S::Work, 0, len / MS) as i64,
                    3 => (len / MS) as i64 + range(S::Work, 0, 200) as i64,
                    _ => -(range(S::Work, 0, 20) as i64),
                })
                .collect();
            at.sort();
            let me = e.clone();
            let l2 = live.clone();
            live.set(live.get() + 1);
            sim::spawn_on(e.node, async move {
                for t in at {
                    let t = (start as i64 + t * MS as i64).max(0) as u64;
                    if t > sim::now() {
                        sleep(Duration::from_nanos(t - sim::now())).await;
                    }
                    let rel = pick_rel(mix);
                    let len = msg_len(rel).max(HDR);
                    if me.send(rel, len).await == Fate::Closed {
                        break;
                    }
                }
                l2.set(l2.get() - 1);
            });
        }
        sleep(Duration::from_nanos(start - sim::now())).await;
        if mode != 1 {
            net::cut(c.c.node, c.s.node);
        }
        if mode != 2 {
            net::cut(c.s.node, c.c.node);
        }
        sleep(Duration::from_nanos(len)).await;
        quiesce();
        let t = sim::now();
        judge(&conns, &live, t, 40 * SEC).await;
        h::note(format!("{} {}", c.c.tx.brief(), c.s.tx.brief()));
        if c.c.tx.delivered() + c.s.tx.delivered() > 0 {
            h::nontrivial();
        }
        sim::probe_n("messages_delivered", (c.c.tx.delivered() + c.s.tx.delivered()) as u64);
        sim::probe_n("messages_sent", (c.c.tx.len() + c.s.tx.len()) as u64);
    });
}

/// Hundreds of messages get through while a few are stuck behind a hole in the
/// network, and copies of old datagrams arrive long afterwards.
pub fn backlog(np: bool, mix: &'static [Rel]) {
    sched_plan(np);
    nodes(2);
    let base = pick(S::Plan, &[200_000u64, 3 * MS, 15 * MS]);
    let big = if mix.contains(&Rel::RO) { pick(S::Plan, &[0u64, 0, 10, 90]) } else { 0 };
    let total = if big > 50 { range(S::Plan, 270, 420) } else { range(S::Plan, 270, 1500) };
    let both = chance(S::Plan, 200_000);
    let stuck = pick(S::Plan, &[1u64, 1, 3, 12]);
    let times = range(S::Plan, 2, 9);
    let copies = pick(S::Plan, &[0u32, 3_000, 20_000]);
    let burst = pick(S::Plan, &[2000u64, 400, 40]);
    h::note(format!("base={}us total={} big={} both={} stuck={}x{} copies={} burst={}", base / 1000, total, big, both, stuck, times, copies, burst));
    sim::world().cfg.max_polls = 60_000_000;
    drive(async move {
        h::adopt();
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        sim::world().net.default.base = base;
        let conns = match connect_all(&srv, 1, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        let wide = || {
            for k in all_nodes() {
                sim::world().net.io.insert(k, net::IoFaults { rx_cap: 100_000, ..Default::default() });
            }
        };
        wide();
        let c = conns[0].clone();
        c.c.spawn_reader();
        c.s.spawn_reader();
        let first = chance(S::Plan, 500_000);
        // (tag, number) -> transmissions still to be lost
        let mut hole: BTreeMap<(u32, u32), u64> = BTreeMap::new();
        for (i, e) in [&c.c, &c.s].into_iter().enumerate() {
            if both || (i == 0) == first {
                for _ in 0..stuck {
                    hole.insert((e.tx.tag(), e.tx.len() as u32 + pick(S::Plan, &[0, 0, 1, 5, range(S::Plan, 0, total - 1)]) as u32), times);
                }
            }
        }
        sim::world().net.filter = Some(Box::new(move |p| {
            if hole.is_empty() {
                return net::Action::Pass;
            }
            let mut drop = false;
            for id in crate::wirep::ids_of(&p.data) {
                if let Some(n) = hole.get_mut(&id) {
                    *n -= 1;
                    drop = true;
                    if *n == 0 {
                        hole.remove(&id);
                    }
                }
            }
            if drop {
                sim::probe("held_back");
                return net::Action::Drop;
            }
            net::Action::Pass
        }));
        if copies > 0 {
            let mut m: BTreeMap<usize, Flow> = BTreeMap::new();
            m.insert(c.c.node, c.c.tx.clone());
            m.insert(c.s.node, c.s.tx.clone());
            sim::world().net.on_send = Some(Box::new(move |p| {
                if (0x80..0x90).contains(&p.data[0]) && chance(S::Fault, copies) {
                    if let Some(f) = m.get(&p.src_node) {
                        f.0.borrow_mut().dups += 1;
                        sim::probe("late_copies");
                        let at = sim::now() + pick(S::Fault, &[200u64, 1_000, 4_000, 15_000]) * MS;
                        let (src, dst, d) = (p.src, p.dst, p.data.clone());
                        sim::call_at(at, move || net::inject(src, dst, d));
                    }
                }
            }));
        }
        let live = Rc::new(Cell::new(0));
        for (i, e) in [&c.c, &c.s].into_iter().enumerate() {
            if !both && (i == 0) != first {
                continue;
            }
            live.set(live.get() + 1);
            let (me, live) = (e.clone(), live.clone());
            sim::spawn_on(e.node, async move {
                for k in 0..total {
                    let rel = pick_rel(mix);
                    let len = if rel == Rel::RO && choose(S::Work, 100) < big { range(S::Work, 1341, 2800) as usize } else { range(S::Work, HDR as u64, 60) as usize };
                    if me.send(rel, len).await == Fate::Closed {
                        break;
                    }
                    if k % burst == burst - 1 {
                        sleep(ms(60)).await;
                    }
                }
                live.set(live.get() - 1);
            });
        }
        sleep(ms(range(S::Plan, 2_000, 6_000))).await;
        quiesce();
        wide();
        let t = sim::now();
        judge(&conns, &live, t, 60 * SEC).await;
        // what was copied late comes after everything else
        sleep(ms(16_000)).await;
        check_panics(&["P05"]);
        if c.c.tx.delivered() + c.s.tx.delivered() > 0 {
            h::nontrivial();
        }
        sim::probe_n("messages_delivered", (c.c.tx.delivered() + c.s.tx.delivered()) as u64);
        sim::probe_n("messages_sent", (c.c.tx.len() + c.s.tx.len()) as u64);
    });
}

/// Messages of hundreds and thousands of datagrams.
pub fn huge(np: bool) {
    sched_plan(np);
    nodes(2);
    let base = pick(S::Plan, &[200_000u64, 3 * MS, 15 * MS]);
    let loss = pick(S::Plan, &[0u32, 0, 5_000, 50_000]);
    let both = chance(S::Plan, 200_000);
    h::note(format!("base={}us loss={} both={}", base / 1000, loss, both));
    sim::world().cfg.max_polls = 60_000_000;
    drive(async move {
        roomy();
        let srv = Server::start(SERVER, PORT).await;
        srv.spawn_accept();
        sim::world().net.default.base = base;
        let conns = match connect_all(&srv, 1, 60 * SEC).await {
            Some(c) => c,
            None => return h::no_connect("connect"),
        };
        sim::world().net.default.loss = loss;
        let c = conns[0].clone();
        c.c.spawn_reader();
        c.s.spawn_reader();
        let first = chance(S::Plan, 500_000);
        let live = Rc::new(Cell::new(0));
        for (i, e) in [&c.c, &c.s].into_iter().enumerate() {
            if !both && (i == 0) != first {
                continue;
            }
            live.set(live.get() + 1);
            let (me, live) = (e.clone(), live.clone());
            sim::spawn_on(e.node, async move {
                let n = range(S::Work, 1, 6);
                let at = choose(S::Work, n);
                for k in 0..n {
                    let len = if k == at {
                        match choose(S::Work, 8) {
                            0..=3 => range(S::Work, 60_000, 400_000),
                            4..=6 => range(S::Work, 400_000, 1_800_000),
                            _ => range(S::Work, 1_800_000, 4_000_000),
                        }
                    } else {
                        range(S::Work, HDR as u64, 3000)
                    };
                    if me.send(Rel::RO, len as usize).await == Fate::Closed {
                        break;
                    }
                    if chance(S::Work, 300_000) {
                        sleep(ms(range(S::Work, 1, 100))).await;
                    }
                }
                live.set(live.get() - 1);
            });
        }
        sleep(ms(range(S::Plan, 500, 4_000))).await;
        quiesce();
        roomy();
        let t = sim::now();
        judge(&conns, &live, t, 60 * SEC).await;
        check_panics(&["P05"]);
        if c.c.tx.delivered() + c.s.tx.delivered() > 0 {
            h::nontrivial();
        }
    });
}
