//! Shared pieces of the scenarios: plans, nodes, fault driver, library wrappers.
use crate::h;
use crate::oracle::*;
use crate::wire::Rel;
use rust_raknet::{error::RaknetError, RaknetListener, RaknetSocket};
use std::cell::{Cell, RefCell};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::rc::Rc;
use tokio::sim::{self, chance, choose, net, pick, range, MS, S, SEC};
use tokio::time::{sleep, timeout, Duration};

pub const PORT: u16 = 19132;
pub const SERVER: usize = 1;

pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
pub fn now_ms() -> u64 {
    (sim::now() - 1000 * SEC) / MS
}

// ---- plans -----------------------------------------------------------------
pub fn sched_plan(no_preempt: bool) {
    let c = &mut sim::world().cfg;
    c.policy = pick(S::Plan, &[sim::Policy::Mixed, sim::Policy::Uniform, sim::Policy::Lifo, sim::Policy::Prio]);
    let p = pick(S::Plan, &[0u32, 2_000, 10_000, 40_000]);
    let y = pick(S::Plan, &[0u32, 0, 2_000, 20_000]);
    let c = &mut sim::world().cfg;
    c.preempt_ppm = if no_preempt { 0 } else { p };
    c.yield_ppm = y;
    c.poll_cost = pick(S::Plan, &[2_000u64, 500, 20_000, 60_000]);
    c.timer_slack = pick(S::Plan, &[0u64, MS, 4 * MS, 15 * MS]);
    h::note(format!("sched={:?}/{}/{}/{}us", c.policy, c.preempt_ppm, c.yield_ppm, c.poll_cost / 1000));
}
pub fn calm_sched() {
    let c = &mut sim::world().cfg;
    c.preempt_ppm = 0;
    c.yield_ppm = 0;
    c.poll_cost = 2_000;
    c.timer_slack = 0;
}

/// How hard the network may be hit.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Hit {
    None,
    Light,
    Full,
}
pub fn link_plan(hit: Hit) -> net::Link {
    let base = pick(S::Plan, &[500u64, 200, 2_000, 10_000, 30_000, 80_000]) * 1000;
    let mut l = net::Link { base, ..net::Link::default() };
    if hit == Hit::None {
        return l;
    }
    l.jitter = pick(S::Plan, &[0, 0, base / 2, base * 2]);
    l.loss = pick(S::Plan, &[0u32, 10_000, 50_000, 100_000, 200_000]);
    l.dup = pick(S::Plan, &[0u32, 0, 20_000, 100_000, 300_000]);
    l.reorder = pick(S::Plan, &[0u32, 0, 30_000, 150_000]);
    l.reorder_by = pick(S::Plan, &[5u64, 40, 150, 600]) * MS;
    l.burst = pick(S::Plan, &[0u32, 0, 0, 5_000]);
    l.burst_len = pick(S::Plan, &[3u32, 10, 30]);
    if hit == Hit::Full {
        l.loss = pick(S::Plan, &[l.loss, l.loss, 350_000]);
        l.rate = pick(S::Plan, &[0u64, 0, 0, 2_000_000, 300_000]);
    }
    h::note(format!(
        "link={}us+{} loss={} dup={} re={}x{}ms burst={} rate={}",
        l.base / 1000,
        l.jitter / 1000,
        l.loss,
        l.dup,
        l.reorder,
        l.reorder_by / MS,
        l.burst,
        l.rate
    ));
    l
}
/// Receive buffers that no burst overflows: the end of a connection is told in
/// a few datagrams at once, and a full buffer is a network that loses all.
pub fn roomy() {
    for k in all_nodes() {
        sim::world().net.io.insert(k, net::IoFaults { rx_cap: 100_000, ..Default::default() });
    }
}
pub fn io_plan() -> net::IoFaults {
    let f = net::IoFaults {
        send_err: pick(S::Plan, &[0u32, 0, 0, 10_000, 60_000]),
        recv_err: 0,
        send_block: pick(S::Plan, &[0u32, 0, 0, 10_000, 50_000]),
        send_block_for: pick(S::Plan, &[5u64, 40, 300]) * MS,
        rx_cap: pick(S::Plan, &[0usize, 0, 0, 64, 12]),
    };
    if f.send_err > 0 || f.send_block > 0 || f.rx_cap > 0 {
        h::note(format!("io={}/{}/{}", f.send_err, f.send_block, f.rx_cap));
    }
    f
}

// ---- nodes -----------------------------------------------------------------
pub fn ip(n: usize) -> IpAddr {
    IpAddr::V4(Ipv4Addr::new(10, 0, (n >> 8) as u8, n as u8))
}
/// Node 0 is the harness; creates nodes 1..=n with addresses 10.0.0.k.
pub fn nodes(n: usize) {
    while sim::world().nodes.len() <= n {
        let k = sim::add_node(&format!("n{}", sim::world().nodes.len()));
        net::add_ip(k, ip(k));
    }
}
pub fn harness_node() -> usize {
    let k = sim::add_node("peer");
    net::add_ip(k, ip(k));
    sim::world().nodes[k].harness = true;
    k
}
pub fn server_addr() -> SocketAddr {
    SocketAddr::new(ip(SERVER), PORT)
}
pub fn all_nodes() -> std::ops::Range<usize> {
    1..sim::world().nodes.len()
}

// ---- faults ----------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct FaultOpts {
    pub partitions: bool,
    pub stalls: bool,
    pub clock: bool,
    /// total time the driver may keep paths cut or nodes stalled
    pub budget: u64,
}
/// Inject node-level faults until `until`; returns when all are over.
pub async fn fault_driver(o: FaultOpts, until: u64) {
    let n = sim::world().nodes.len();
    let p = chance(S::Plan, 400_000) && o.partitions;
    let s = chance(S::Plan, 350_000) && o.stalls;
    let c = chance(S::Plan, 250_000) && o.clock;
    if !(p || s || c) || n < 3 {
        return;
    }
    let gap = pick(S::Plan, &[300u64, 1000, 4000]);
    let mut spent = 0;
    loop {
        let w = range(S::Fault, gap / 2, gap * 2) * MS;
        if sim::now() + w >= until {
            return;
        }
        sleep(Duration::from_nanos(w)).await;
        let kinds: Vec<u8> = [(p, 0u8), (s, 1), (c, 2)].iter().filter(|x| x.0).map(|x| x.1).collect();
        match kinds[choose(S::Fault, kinds.len() as u64) as usize] {
            0 => {
                let d = pick(S::Fault, &[100u64, 400, 1500, 5000, 9000]) * MS;
                if spent + d > o.budget || sim::now() + d > until {
                    continue;
                }
                spent += d;
                let a = range(S::Fault, 1, n as u64 - 1) as usize;
                let b = if a == SERVER { range(S::Fault, 2, n as u64 - 1) as usize } else { SERVER };
                let mode = choose(S::Fault, 3);
                if mode != 1 {
                    net::cut(a, b);
                }
                if mode != 2 {
                    net::cut(b, a);
                }
                sleep(Duration::from_nanos(d)).await;
                net::heal(a, b);
                net::heal(b, a);
            }
            1 => {
                let d = pick(S::Fault, &[60u64, 250, 900, 3000]) * MS;
                if spent + d > o.budget || sim::now() + d > until {
                    continue;
                }
                spent += d;
                let a = range(S::Fault, 1, n as u64 - 1) as usize;
                sim::stall(a, d);
                sleep(Duration::from_nanos(d)).await;
            }
            _ => {
                let a = range(S::Fault, 1, n as u64 - 1) as usize;
                let d = pick(S::Fault, &[50i64, 1_000, 30_000, 61_000, 3_600_000, 86_400_000]);
                let d = if chance(S::Fault, 500_000) { -d } else { d };
                sim::step_wall_clock(a, d * MS as i64);
            }
        }
    }
}
/// Faults stop: clean, fast links everywhere.
pub fn quiesce() {
    let n = &mut sim::world().net;
    n.lossless = true;
    n.cut.clear();
    n.filter = None;
    n.io.clear();
    n.links.clear();
    let mut d = n.default;
    d.rate = 0;
    d.jitter = 0;
    n.default = d;
    for x in sim::world().nodes.iter_mut() {
        x.stalled_until = x.stalled_until.min(sim::now());
    }
    sim::trace(|| "faults stop".into());
}

/// The network delivers again, except where a path is cut or a host dead.
pub fn quiesce_links() {
    let n = &mut sim::world().net;
    n.lossless = true;
    n.default.loss = 0;
    n.default.burst = 0;
}

// ---- library wrappers ------------------------------------------------------
pub type Sock = Rc<RaknetSocket>;

pub fn fate(r: &Result<(), RaknetError>) -> Fate {
    match r {
        Ok(()) => Fate::Ok,
        Err(RaknetError::PacketHeaderError) | Err(RaknetError::PacketSizeExceedMTU) => Fate::Refused,
        Err(_) => Fate::Closed,
    }
}

/// One end of a connection as the application uses it.
#[derive(Clone)]
pub struct Ep {
    pub node: usize,
    pub sock: Rc<RefCell<Option<Sock>>>,
    pub tx: Flow,
    pub rx: Flow,
    pub closed_at: Rc<Cell<u64>>,
    pub recv_err: Rc<RefCell<Option<String>>>,
    /// consumer is paused while now < this
    pub pause_until: Rc<Cell<u64>>,
    pub think: Rc<Cell<u64>>,
}
impl Ep {
    pub fn new(node: usize, sock: Option<Sock>, tx: Flow, rx: Flow) -> Ep {
        Ep {
            node,
            sock: Rc::new(RefCell::new(sock)),
            tx,
            rx,
            closed_at: Rc::new(Cell::new(0)),
            recv_err: Rc::new(RefCell::new(None)),
            pause_until: Rc::new(Cell::new(0)),
            think: Rc::new(Cell::new(0)),
        }
    }
    pub fn s(&self) -> Sock {
        self.sock.borrow().as_ref().expect("socket").clone()
    }
    pub async fn send(&self, rel: Rel, len: usize) -> Fate {
        let (id, p) = self.tx.begin(rel, len);
        sim::trace(|| format!("app {} send #{} {:?} {}B", self.tx.0.borrow().name, id, rel, len));
        let s = self.s();
        let r = s.send(&p, reliability(rel)).await;
        let f = fate(&r);
        self.tx.end(id, f);
        if f != Fate::Ok {
            sim::trace(|| format!("app {} send #{} failed: {:?}", self.tx.0.borrow().name, id, r));
        }
        f
    }
    /// Application read loop, until the connection ends.
    pub fn spawn_reader(&self) -> tokio::task::JoinHandle<()> {
        let me = self.clone();
        sim::spawn_on(self.node, async move {
            loop {
                let s = match me.sock.borrow().as_ref() {
                    Some(s) => s.clone(),
                    None => return,
                };
                let r = s.recv().await;
                drop(s);
                match r {
                    Ok(d) => me.rx.received(&d),
                    Err(e) => {
                        me.closed_at.set(sim::now());
                        *me.recv_err.borrow_mut() = Some(format!("{:?}", e));
                        sim::trace(|| format!("app {} recv ended: {:?}", me.rx.0.borrow().name, e));
                        return;
                    }
                }
                let t = me.think.get();
                if t > 0 {
                    sleep(Duration::from_nanos(t)).await;
                }
                while sim::now() < me.pause_until.get() {
                    sleep(Duration::from_nanos(me.pause_until.get() - sim::now())).await;
                }
            }
        })
    }
    /// The application drops its handle, outside any borrow (see Server::forget).
    pub fn let_go(&self) {
        let s = self.sock.borrow_mut().take();
        drop(s);
    }
    pub fn open(&self) -> bool {
        self.closed_at.get() == 0
    }
}

/// A pair of flows and endpoints for one connection.
#[derive(Clone)]
pub struct Conn {
    pub k: usize,
    pub c: Ep,
    pub s: Ep,
}
pub fn flows(k: usize) -> (Flow, Flow) {
    (Flow::new(&format!("c{}>s", k)), Flow::new(&format!("s>c{}", k)))
}

/// Server application: listener plus accepted sockets by peer address.
#[derive(Clone)]
pub struct Server {
    pub node: usize,
    pub l: Rc<tokio::sync::Mutex<Option<RaknetListener>>>,
    pub got: Rc<RefCell<Vec<(SocketAddr, Sock, u64)>>>,
    pub accepting: Rc<Cell<bool>>,
    pub accept_err: Rc<RefCell<Option<String>>>,
    /// clients whose sockets the application drops as soon as it gets them, and when it last did
    pub turn_away: Rc<RefCell<std::collections::BTreeMap<IpAddr, u64>>>,
    pub addr: SocketAddr,
}
impl Server {
    pub async fn start(node: usize, port: u16) -> Server {
        let addr = SocketAddr::new(ip(node), port);
        let l = sim::spawn_on(node, async move {
            let mut l = RaknetListener::bind(&addr).await.expect("bind listener");
            l.listen().await;
            l
        })
        .await
        .expect("listener task");
        Server::wrap(node, addr, l)
    }
    /// Like `start`, but bound to the wildcard address and/or from a std socket.
    pub async fn start_how(node: usize, port: u16, any: bool, std: bool) -> Server {
        let addr = SocketAddr::new(ip(node), port);
        let b = if any { SocketAddr::new(IpAddr::V4(Ipv4Addr::UNSPECIFIED), port) } else { addr };
        let l = sim::spawn_on(node, async move {
            let mut l = if std {
                use std::os::fd::AsRawFd;
                let s = std::net::UdpSocket::bind("127.0.0.1:0").expect("real placeholder socket");
                net::register_std_fd(s.as_raw_fd(), b);
                RaknetListener::from_std(s).await.expect("from_std")
            } else {
                RaknetListener::bind(&b).await.expect("bind listener")
            };
            l.listen().await;
            l
        })
        .await
        .expect("listener task");
        Server::wrap(node, addr, l)
    }
    pub fn wrap(node: usize, addr: SocketAddr, l: RaknetListener) -> Server {
        Server {
            node,
            l: Rc::new(tokio::sync::Mutex::new(Some(l))),
            got: Rc::new(RefCell::new(Vec::new())),
            accepting: Rc::new(Cell::new(true)),
            accept_err: Rc::new(RefCell::new(None)),
            turn_away: Default::default(),
            addr,
        }
    }
    /// Accept loop. It gives the listener up between accepts.
    pub fn spawn_accept(&self) {
        let me = self.clone();
        sim::spawn_on(self.node, async move {
            loop {
                if !me.accepting.get() {
                    sleep(ms(20)).await;
                    continue;
                }
                let mut g = me.l.lock().await;
                let l = match g.as_mut() {
                    Some(l) => l,
                    None => return,
                };
                let r = timeout(ms(200), l.accept()).await;
                drop(g);
                match r {
                    Err(_) => {}
                    Ok(Ok(s)) => {
                        let a = s.peer_addr().unwrap();
                        sim::trace(|| format!("app accepted {}", a));
                        if me.turn_away.borrow().contains_key(&a.ip()) {
                            match choose(S::Work, 4) {
                                0 => {
                                    let _ = s.close().await;
                                }
                                1 => tokio::task::yield_now().await,
                                _ => {}
                            }
                            drop(s);
                            me.turn_away.borrow_mut().insert(a.ip(), sim::now());
                            sim::probe("turned_away");
                            continue;
                        }
                        me.got.borrow_mut().push((a, Rc::new(s), sim::now()));
                    }
                    Ok(Err(e)) => {
                        *me.accept_err.borrow_mut() = Some(format!("{:?}", e));
                        return;
                    }
                }
                tokio::task::yield_now().await;
            }
        });
    }
    /// The application drops its socket of this peer. (Dropping runs library
    /// code, which may be preempted: not while the list is borrowed.)
    pub fn forget(&self, a: SocketAddr) {
        let all = std::mem::take(&mut *self.got.borrow_mut());
        let (gone, keep): (Vec<_>, Vec<_>) = all.into_iter().partition(|x| x.0 == a);
        self.got.borrow_mut().extend(keep);
        drop(gone);
    }
    pub fn forget_all(&self) {
        let gone = std::mem::take(&mut *self.got.borrow_mut());
        drop(gone);
    }
    pub fn find(&self, a: SocketAddr) -> Vec<Sock> {
        self.got.borrow().iter().filter(|x| x.0 == a).map(|x| x.1.clone()).collect()
    }
    pub async fn wait_for(&self, a: SocketAddr, within: u64) -> Option<Sock> {
        let until = sim::now() + within;
        loop {
            if let Some(s) = self.find(a).pop() {
                return Some(s);
            }
            if sim::now() >= until {
                return None;
            }
            sleep(ms(5)).await;
        }
    }
}

/// The address under which the server sees this client.
pub fn client_addr(node: usize, s: &RaknetSocket) -> SocketAddr {
    let l = s.local_addr().unwrap();
    SocketAddr::new(ip(node), l.port())
}

pub async fn connect_ver(node: usize, addr: SocketAddr, v: u8, within: u64) -> Option<Result<RaknetSocket, RaknetError>> {
    let h = sim::spawn_on(node, async move {
        timeout(Duration::from_nanos(within), RaknetSocket::connect_with_version(&addr, v)).await
    });
    match h.await {
        Ok(Ok(r)) => Some(r),
        _ => None,
    }
}
pub async fn connect_on(node: usize, addr: SocketAddr, within: u64) -> Option<Result<RaknetSocket, RaknetError>> {
    let h = sim::spawn_on(node, async move { timeout(Duration::from_nanos(within), RaknetSocket::connect(&addr)).await });
    match h.await {
        Ok(Ok(r)) => Some(r),
        _ => None,
    }
}

/// Healthy two-way traffic over an open connection: everything must arrive.
/// Readers are already running. Returns false (and reports) when it does not.
pub async fn exchange(cs: &[Conn], n: usize, mix: &'static [Rel], within: u64, prop: &str, class: &str) -> bool {
    exchange_unless(cs, n, mix, within, prop, class, || false).await
}

/// The same where chance alone may explain a failure: `chance` tells when it
/// does, the run then says nothing.
pub async fn exchange_unless(cs: &[Conn], n: usize, mix: &'static [Rel], within: u64, prop: &str, class: &str, chance: impl Fn() -> bool) -> bool {
    let live = Rc::new(Cell::new(0usize));
    for c in cs {
        for e in [&c.c, &c.s] {
            if !e.open() {
                continue;
            }
            let me = e.clone();
            let live = live.clone();
            live.set(live.get() + 1);
            sim::spawn_on(e.node, async move {
                for _ in 0..n {
                    let rel = pick_rel(mix);
                    let len = msg_len(rel).max(HDR);
                    if me.send(rel, len).await == Fate::Closed {
                        break;
                    }
                }
                live.set(live.get() - 1);
            });
        }
    }
    let ok = wait_until(within, || {
        live.get() == 0 && cs.iter().all(|c| c.c.tx.settled() && c.s.tx.settled())
    })
    .await;
    let mut good = ok;
    if (!ok || cs.iter().any(|c| !c.c.open() || !c.s.open())) && chance() {
        h::inconclusive("chance");
        return false;
    }
    for c in cs {
        for e in [&c.c, &c.s] {
            let owed = e.tx.owed();
            if !owed.is_empty() {
                good = false;
                h::viol(prop, class, format!("{}: {} s of a healthy network: {}", e.tx.0.borrow().name, within / SEC, e.tx.describe_owed(&owed)));
            }
            if !e.open() {
                good = false;
                h::viol(prop, class, format!("{}: connection ended ({:?}) while it was in use", e.rx.0.borrow().name, e.recv_err.borrow()));
            }
        }
    }
    if !ok && good {
        good = false;
        h::viol(prop, class, format!("send() did not return within {} s on a healthy network", within / SEC));
    }
    good
}

/// Wait for a condition, polling every few milliseconds of simulated time.
pub async fn wait_until(within: u64, mut f: impl FnMut() -> bool) -> bool {
    let until = sim::now() + within;
    loop {
        if f() {
            return true;
        }
        if sim::now() >= until {
            return false;
        }
        sleep(ms(5)).await;
    }
}

/// When the last datagram from one host reached another.
#[derive(Clone, Default)]
pub struct Heard(Rc<RefCell<std::collections::BTreeMap<(usize, usize), Vec<u64>>>>);
impl Heard {
    pub fn attach() -> Heard {
        let me = Heard::default();
        let h2 = me.clone();
        let mut prev = sim::world().net.on_deliver.take();
        sim::world().net.on_deliver = Some(Box::new(move |p| {
            if let Some(f) = prev.as_mut() {
                f(p);
            }
            let mut m = h2.0.borrow_mut();
            let v = m.entry((p.src_node, p.dst_node)).or_default();
            // one entry per 100 ms is enough
            if v.last().map(|x| sim::now() - x > 100 * MS).unwrap_or(true) {
                v.push(sim::now());
            }
        }));
        me
    }
    /// How long `node` had heard nothing of `peer` at time `t`.
    pub fn silence(&self, peer: usize, node: usize, t: u64) -> u64 {
        let m = self.0.borrow();
        let last = m.get(&(peer, node)).and_then(|v| v.iter().rev().find(|x| **x <= t).copied());
        t.saturating_sub(last.unwrap_or(0))
    }
    /// Whether one end of a connection ended although both heard each other.
    pub fn wrongly_ended(&self, c: &Conn) -> Option<String> {
        let e = [&c.c, &c.s].into_iter().filter(|e| !e.open()).min_by_key(|e| e.closed_at.get())?;
        let t = e.closed_at.get();
        let (a, b) = (self.silence(c.s.node, c.c.node, t), self.silence(c.c.node, c.s.node, t));
        if a.max(b) < 45 * SEC {
            return Some(format!(
                "{} ended ({:?}) although the last datagrams of the peers arrived {} s and {} s before",
                e.rx.0.borrow().name,
                e.recv_err.borrow(),
                a / SEC,
                b / SEC
            ));
        }
        sim::probe("ended_by_silence");
        None
    }
}

pub fn lib_panics() -> Vec<String> {
    sim::world()
        .panics
        .iter()
        .filter(|p| !crate::runner::is_harness_file(&p.file))
        .map(|p| format!("{} at {}:{}", p.msg, p.file, p.line))
        .collect()
}
pub fn check_panics(props: &[&str]) {
    for p in lib_panics().into_iter().take(2) {
        let class = format!("panic {}", p.rsplit(" at ").next().unwrap_or(""));
        for q in props {
            if h::has(q, &class) {
                continue;
            }
            h::viol(q, &class, format!("library code panicked: {}", p));
        }
    }
}

/// Run the scenario body and record how it ended.
pub fn drive<F: std::future::Future<Output = ()> + 'static>(f: F) {
    let e = sim::run(async move {
        h::started();
        f.await
    });
    h::end(format!("{:?}", e));
    let wd = sim::world();
    if !wd.faults.is_empty() || wd.probes.contains_key("preempted") {
        // marked by the scenario itself when the phase under test completed
    }
    if e == sim::End::PollCap {
        sim::trace(|| format!("busiest: {:?}", sim::busiest()));
        if let Some(c) = crate::props::abnormal_class(&h::prop()) {
            h::viol(&h::prop(), &format!("{}-livelock", c), format!("no end after {} polls; busiest {:?}", sim::polls(), sim::busiest()));
        }
    }
    if e == sim::End::Idle {
        // nothing can ever happen again and the scenario is not done
        if let Some(c) = crate::props::abnormal_class(&h::prop()) {
            h::viol(&h::prop(), &format!("{}-deadlock", c), "nothing left to run and the workload has not finished".into());
        }
    }
}

// ---- workload --------------------------------------------------------------
pub fn msg_len(rel: Rel) -> usize {
    let k = choose(S::Work, 12);
    match rel {
        Rel::RO => match k {
            0..=3 => range(S::Work, HDR as u64, 120) as usize,
            4 => range(S::Work, 1, 8) as usize,
            5 => range(S::Work, 1335, 1345) as usize,
            6 => 1340 * range(S::Work, 1, 4) as usize + range(S::Work, 0, 2) as usize - 1,
            7 => range(S::Work, 1341, 9000) as usize,
            8 => pick(S::Work, &[200usize, 13_400, 30_000]),
            _ => range(S::Work, HDR as u64, 1300) as usize,
        },
        _ => match k {
            0..=5 => range(S::Work, HDR as u64, 120) as usize,
            6 => range(S::Work, 1330, 1340) as usize,
            _ => range(S::Work, HDR as u64, 1300) as usize,
        },
    }
}
pub fn pick_rel(mix: &[Rel]) -> Rel {
    mix[choose(S::Work, mix.len() as u64) as usize]
}
/// Gap between sends: bursts, steady, sparse.
pub async fn think(style: u64) {
    let d = match style {
        0 => {
            if choose(S::Work, 10) == 1 {
                range(S::Work, 1, 60) * MS
            } else {
                0
            }
        }
        1 => range(S::Work, 0, 30) * MS,
        2 => range(S::Work, 20, 250) * MS,
        _ => 0,
    };
    if d > 0 {
        sleep(Duration::from_nanos(d)).await;
    }
}
