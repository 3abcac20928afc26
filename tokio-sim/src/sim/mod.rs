//! The simulator: executor, event queue, clock, network, faults, log.
pub mod choice;
pub mod net;

pub use choice::S;
use choice::*;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::future::Future;
use std::panic::Location;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type NodeId = usize;
pub type TaskId = usize;
pub type TimerId = usize;
pub const NONE: usize = usize::MAX;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

type LocalFut = Pin<Box<dyn Future<Output = ()>>>;

struct Task {
    fut: Option<LocalFut>,
    node: NodeId,
    inc: u32,
    loc: &'static Location<'static>,
    queued: bool,
    polling: bool,
    woken: bool,
    aborted: bool,
    prio: u64,
    polls: u64,
    /// One for its whole life, so that `will_wake` recognises it.
    waker: Waker,
}

pub struct Node {
    pub alive: bool,
    pub inc: u32,
    pub stalled_until: u64,
    /// CLOCK_REALTIME minus simulated time, nanoseconds.
    pub wall_offset: i64,
    pub tasks: usize,
    pub sockets: usize,
    /// Node belongs to the harness: no preemption, no faults.
    pub harness: bool,
    pub name: String,
}

struct Timer {
    deadline: u64,
    waker: Option<Waker>,
    fired: bool,
    armed: bool,
}

pub enum Ev {
    Timer(TimerId),
    Deliver(Box<net::Packet>),
    Wake(Waker),
    Call(Box<dyn FnOnce()>),
    Stall(NodeId),
}
struct Event {
    at: u64,
    seq: u64,
    ev: Ev,
}
impl PartialEq for Event {
    fn eq(&self, o: &Event) -> bool {
        self.at == o.at && self.seq == o.seq
    }
}
impl Eq for Event {}
impl PartialOrd for Event {
    fn partial_cmp(&self, o: &Event) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Event {
    fn cmp(&self, o: &Event) -> std::cmp::Ordering {
        (self.at, self.seq).cmp(&(o.at, o.seq))
    }
}

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub at: u64,
    pub node: NodeId,
    pub msg: String,
    pub file: String,
    pub line: u32,
    pub task: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    Uniform,
    Mixed,
    Lifo,
    Prio,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub policy: Policy,
    pub preempt_ppm: u32,
    pub yield_ppm: u32,
    pub max_polls: u64,
    pub max_time: u64,
    /// mean cost of a poll, ns
    pub poll_cost: u64,
    /// upper bound of timer lateness, ns
    pub timer_slack: u64,
    pub trace: bool,
    /// write the trace to stderr as it goes (debugging)
    pub live: bool,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            seed: 0,
            policy: Policy::Uniform,
            preempt_ppm: 0,
            yield_ppm: 0,
            max_polls: 3_000_000,
            max_time: 7200 * SEC,
            poll_cost: 2_000,
            timer_slack: MS,
            trace: false,
            live: false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Done,
    PollCap,
    TimeCap,
    Idle,
}

pub struct World {
    pub cfg: Cfg,
    now: u64,
    seq: u64,
    streams: Vec<Stream>,
    tasks: Vec<Option<Box<Task>>>,
    ready: Vec<TaskId>,
    events: BinaryHeap<Reverse<Event>>,
    timers: Vec<Timer>,
    free_timers: Vec<TimerId>,
    pub nodes: Vec<Node>,
    pub net: net::Net,
    cur: TaskId,
    cur_node: NodeId,
    depth: usize,
    quiet: u32,
    polls: u64,
    preempt_left: u64,
    yield_left: u64,
    root_done: bool,
    running: bool,
    digest: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub panics: Vec<PanicRec>,
    pub trace: Vec<String>,
    blocked: u32,
}

static mut WORLD: *mut World = std::ptr::null_mut();

#[allow(clippy::mut_from_ref)]
pub(crate) fn w() -> &'static mut World {
    unsafe {
        assert!(!WORLD.is_null(), "no simulation is running");
        &mut *WORLD
    }
}
pub fn active() -> bool {
    unsafe { !WORLD.is_null() }
}
pub fn in_task() -> bool {
    active() && w().cur != NONE
}
pub fn world() -> &'static mut World {
    w()
}

pub fn init(cfg: Cfg, replay: Option<Vec<Vec<u64>>>) {
    tokio_real::simhook::install(tokio_real::simhook::Hooks { rng_n, preempt, forced_yield });
    let mut streams = Vec::new();
    for i in 0..NSTREAMS {
        streams.push(Stream::new(cfg.seed, i, replay.as_ref().map(|r| r.get(i).cloned().unwrap_or_default())));
    }
    let world = World {
        cfg,
        now: 1000 * SEC,
        seq: 0,
        streams,
        tasks: Vec::new(),
        ready: Vec::new(),
        events: BinaryHeap::new(),
        timers: Vec::new(),
        free_timers: Vec::new(),
        nodes: Vec::new(),
        net: net::Net::new(),
        cur: NONE,
        cur_node: 0,
        depth: 0,
        quiet: 0,
        polls: 0,
        preempt_left: 0,
        yield_left: 0,
        root_done: false,
        running: false,
        digest: 0xcbf2_9ce4_8422_2325,
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        panics: Vec::new(),
        trace: Vec::new(),
        blocked: 0,
    };
    unsafe {
        WORLD = Box::into_raw(Box::new(world));
    }
    let n = add_node("harness");
    w().nodes[n].harness = true;
}

// ---- choices -------------------------------------------------------------
pub fn choose(s: S, n: u64) -> u64 {
    w().streams[s as usize].choose(n)
}
pub fn chance(s: S, ppm: u32) -> bool {
    w().streams[s as usize].chance(ppm)
}
pub fn word(s: S) -> u64 {
    w().streams[s as usize].word()
}
/// lo..=hi
pub fn range(s: S, lo: u64, hi: u64) -> u64 {
    lo + choose(s, hi - lo + 1)
}
pub fn pick<T: Copy>(s: S, xs: &[T]) -> T {
    xs[choose(s, xs.len() as u64) as usize]
}
/// Heap held by the simulator's own ever-growing records.
pub fn own_heap() -> usize {
    use std::mem::size_of;
    let x = w();
    x.streams.iter().map(|s| s.rec.capacity() * 8).sum::<usize>()
        + x.tasks.capacity() * size_of::<Option<Box<Task>>>()
        + x.ready.capacity() * size_of::<TaskId>()
        + x.events.capacity() * size_of::<Reverse<Event>>()
        + x.timers.capacity() * size_of::<Timer>()
        + x.free_timers.capacity() * size_of::<TimerId>()
        + x.trace.capacity() * size_of::<String>()
        + x.trace.iter().map(|t| t.capacity()).sum::<usize>()
}
pub fn recorded() -> Vec<Vec<u64>> {
    w().streams
        .iter()
        .map(|s| {
            let mut v = s.rec.clone();
            while v.last() == Some(&0) {
                v.pop();
            }
            v
        })
        .collect()
}
fn rng_n(n: u32) -> u32 {
    if !active() || n == 0 {
        return 0;
    }
    let wd = w();
    if wd.cur_node < wd.nodes.len() && wd.nodes[wd.cur_node].harness {
        return 0;
    }
    choose(S::Select, n as u64) as u32
}
pub fn fill_random(buf: &mut [u8]) {
    for c in buf.chunks_mut(8) {
        let v = word(S::Rand).to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
}

// ---- log -----------------------------------------------------------------
pub fn mix(v: u64) {
    let d = &mut w().digest;
    *d = (*d ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23);
}
pub fn mix_bytes(b: &[u8]) {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    }
    mix(h ^ b.len() as u64);
}
pub fn digest() -> u64 {
    w().digest
}
pub fn fault(name: &str) {
    *w().faults.entry(name.to_string()).or_insert(0) += 1;
}
pub fn probe(name: &str) {
    probe_n(name, 1)
}
pub fn probe_n(name: &str, n: u64) {
    *w().probes.entry(name.to_string()).or_insert(0) += n;
}
pub fn trace_on() -> bool {
    w().cfg.trace
}
pub fn trace(f: impl FnOnce() -> String) {
    let wd = w();
    if wd.cfg.trace {
        let t = wd.now - 1000 * SEC;
        let n = wd.cur_node;
        let s = format!("{:>12.6} n{} {}", t as f64 / 1e9, n, f());
        if wd.cfg.live {
            eprintln!("{}", s);
        }
        wd.trace.push(s);
    }
}

// ---- clock ---------------------------------------------------------------
pub fn now() -> u64 {
    w().now
}
/// Nanoseconds of CLOCK_REALTIME as the current node sees it.
pub fn wall_ns() -> u64 {
    let wd = w();
    let off = wd.nodes.get(wd.cur_node).map(|n| n.wall_offset).unwrap_or(0);
    (wd.now as i128 + 1_700_000_000i128 * SEC as i128 + off as i128) as u64
}
pub fn cur_node() -> NodeId {
    w().cur_node
}
pub fn polls() -> u64 {
    w().polls
}

// ---- nodes ---------------------------------------------------------------
pub fn add_node(name: &str) -> NodeId {
    let wd = w();
    wd.nodes.push(Node {
        alive: true,
        inc: 0,
        stalled_until: 0,
        wall_offset: 0,
        tasks: 0,
        sockets: 0,
        harness: false,
        name: name.to_string(),
    });
    wd.nodes.len() - 1
}
pub fn node_tasks(n: NodeId) -> usize {
    w().nodes[n].tasks
}
pub fn node_sockets(n: NodeId) -> usize {
    w().nodes[n].sockets
}
pub fn node_task_list(n: NodeId) -> Vec<String> {
    let mut m: BTreeMap<String, usize> = BTreeMap::new();
    for t in w().tasks.iter().flatten() {
        if t.node == n {
            *m.entry(format!("{}:{}", t.loc.file(), t.loc.line())).or_insert(0) += 1;
        }
    }
    m.into_iter().map(|(k, v)| format!("{} x{}", k, v)).collect()
}
/// kill -9: tasks vanish, sockets close, nothing more is sent.
pub fn crash(n: NodeId) {
    fault("node_crash");
    trace(|| format!("FAULT crash of node {}", n));
    let wd = w();
    wd.nodes[n].alive = false;
    wd.nodes[n].inc += 1;
    net::drop_node(n);
    wd.quiet += 1;
    let save = wd.cur_node;
    wd.cur_node = n;
    for id in 0..w().tasks.len() {
        let kill = matches!(&w().tasks[id], Some(t) if t.node == n && !t.polling);
        if kill {
            remove_task(id);
        }
    }
    let wd = w();
    wd.cur_node = save;
    wd.quiet -= 1;
}
pub fn restart(n: NodeId) {
    fault("node_restart");
    trace(|| format!("FAULT restart of node {}", n));
    w().nodes[n].alive = true;
}
pub fn stall(n: NodeId, dur: u64) {
    fault("node_stall");
    trace(|| format!("FAULT stall node {} for {} ms", n, dur / MS));
    let wd = w();
    let u = wd.now + dur;
    if u > wd.nodes[n].stalled_until {
        wd.nodes[n].stalled_until = u;
        schedule(u, Ev::Stall(n));
    }
}
pub fn step_wall_clock(n: NodeId, delta_ns: i64) {
    fault(if delta_ns < 0 { "clock_step_back" } else { "clock_step_forward" });
    trace(|| format!("FAULT wall clock of node {} steps by {} ms", n, delta_ns / MS as i64));
    w().nodes[n].wall_offset += delta_ns;
}

// ---- events and timers ---------------------------------------------------
pub fn schedule(at: u64, ev: Ev) {
    let wd = w();
    wd.seq += 1;
    let seq = wd.seq;
    wd.events.push(Reverse(Event { at, seq, ev }));
}
pub fn call_at(at: u64, f: impl FnOnce() + 'static) {
    schedule(at, Ev::Call(Box::new(f)))
}
pub(crate) fn timer_new(deadline: u64) -> TimerId {
    let wd = w();
    let slack = wd.cfg.timer_slack;
    let harness = wd.nodes[wd.cur_node].harness;
    // tokio's wheel fires on the first millisecond boundary not before the
    // deadline; a loaded worker fires later still.
    let mut at = deadline;
    if !harness {
        at = at.div_ceil(MS) * MS;
        if slack > 0 {
            at += choose(S::Time, 4) * slack / 4;
        }
    }
    let t = Timer { deadline: at, waker: None, fired: false, armed: true };
    let id = match wd.free_timers.pop() {
        Some(i) => {
            wd.timers[i] = t;
            i
        }
        None => {
            wd.timers.push(t);
            wd.timers.len() - 1
        }
    };
    schedule(at, Ev::Timer(id));
    id
}
pub(crate) fn timer_poll(id: TimerId, wk: &Waker) -> bool {
    let t = &mut w().timers[id];
    if t.fired {
        return true;
    }
    t.waker = Some(wk.clone());
    false
}
pub(crate) fn timer_fired(id: TimerId) -> bool {
    w().timers[id].fired
}
pub(crate) fn timer_cancel(id: TimerId) {
    if !active() {
        return;
    }
    let t = &mut w().timers[id];
    if t.fired {
        w().free_timers.push(id);
    } else {
        // freed when its event comes up
        t.armed = false;
        t.waker = None;
    }
}
fn fire(ev: Ev) {
    match ev {
        Ev::Timer(id) => {
            let t = &mut w().timers[id];
            if !t.armed {
                w().free_timers.push(id);
                return;
            }
            debug_assert!(t.deadline <= w().now);
            t.fired = true;
            if let Some(k) = t.waker.take() {
                k.wake();
            }
        }
        Ev::Deliver(p) => net::deliver(*p),
        Ev::Wake(k) => k.wake(),
        Ev::Call(f) => {
            let wd = w();
            let (c, n) = (wd.cur, wd.cur_node);
            wd.cur = NONE;
            wd.cur_node = 0;
            f();
            let wd = w();
            wd.cur = c;
            wd.cur_node = n;
        }
        Ev::Stall(_) => {}
    }
}
fn fire_due() {
    loop {
        let wd = w();
        match wd.events.peek() {
            Some(Reverse(e)) if e.at <= wd.now => {}
            _ => return,
        }
        let e = wd.events.pop().unwrap().0;
        fire(e.ev);
    }
}

// ---- tasks ---------------------------------------------------------------
struct TaskWaker(TaskId);
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        wake_task(self.0)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        wake_task(self.0)
    }
}
fn wake_task(id: TaskId) {
    if !active() {
        return;
    }
    let wd = w();
    if let Some(Some(t)) = wd.tasks.get_mut(id) {
        if t.polling {
            t.woken = true;
        } else if !t.queued {
            t.queued = true;
            wd.ready.push(id);
        }
    }
}
pub(crate) fn add_task(node: Option<NodeId>, fut: LocalFut, loc: &'static Location<'static>) -> TaskId {
    let wd = w();
    let node = node.unwrap_or(wd.cur_node);
    let id = wd.tasks.len();
    if !wd.nodes[node].alive {
        // spawned by a destructor of a dying process
        wd.tasks.push(None);
        wd.quiet += 1;
        drop(fut);
        w().quiet -= 1;
        return id;
    }
    let prio = if wd.cfg.policy == Policy::Prio && !wd.nodes[node].harness {
        wd.streams[S::Sched as usize].choose(1 << 16)
    } else {
        0
    };
    wd.tasks.push(Some(Box::new(Task {
        fut: Some(fut),
        node,
        inc: wd.nodes[node].inc,
        loc,
        queued: true,
        polling: false,
        woken: false,
        aborted: false,
        prio,
        polls: 0,
        waker: Waker::from(Arc::new(TaskWaker(id))),
    })));
    wd.nodes[node].tasks += 1;
    wd.ready.push(id);
    id
}
pub(crate) fn abort(id: TaskId) {
    let wd = w();
    if let Some(Some(t)) = wd.tasks.get_mut(id) {
        t.aborted = true;
    }
    wake_task(id);
}
pub fn task_alive(id: TaskId) -> bool {
    matches!(w().tasks.get(id), Some(Some(_)))
}
fn remove_task(id: TaskId) {
    let wd = w();
    if let Some(t) = wd.tasks[id].take() {
        wd.nodes[t.node].tasks -= 1;
        drop(t);
    }
}

/// Spawn harness or application code on a node.
#[track_caller]
pub fn spawn_on<F>(node: NodeId, f: F) -> crate::task::JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    crate::task::spawn_inner(Some(node), f)
}

fn pick_ready() -> Option<TaskId> {
    let wd = w();
    let now = wd.now;
    // positions of eligible tasks
    let any_stall = wd.nodes.iter().any(|n| n.stalled_until > now);
    let n = wd.ready.len();
    if n == 0 {
        return None;
    }
    let pos = if !any_stall {
        if n == 1 {
            0
        } else {
            pick_pos(n, |i| i)
        }
    } else {
        let el: Vec<usize> = (0..n)
            .filter(|&i| match &wd.tasks[wd.ready[i]] {
                Some(t) => wd.nodes[t.node].stalled_until <= now,
                None => true,
            })
            .collect();
        if el.is_empty() {
            return None;
        }
        pick_pos(el.len(), |i| el[i])
    };
    Some(w().ready.remove(pos))
}
fn pick_pos(n: usize, at: impl Fn(usize) -> usize) -> usize {
    if n == 1 {
        return at(0);
    }
    let wd = w();
    match wd.cfg.policy {
        Policy::Uniform => at(choose(S::Sched, n as u64) as usize),
        Policy::Mixed => {
            if chance(S::Sched, 100_000) {
                at(choose(S::Sched, n as u64) as usize)
            } else {
                at(0)
            }
        }
        Policy::Lifo => {
            if chance(S::Sched, 200_000) {
                at(0)
            } else {
                at(n - 1)
            }
        }
        Policy::Prio => {
            let mut best = 0;
            let mut bp = 0;
            for i in 0..n {
                let p = match &wd.tasks[wd.ready[at(i)]] {
                    Some(t) => t.prio,
                    None => u64::MAX,
                };
                if p > bp {
                    bp = p;
                    best = i;
                }
            }
            let id = wd.ready[at(best)];
            // priority change points keep low-priority tasks from starving
            if chance(S::Sched, 60_000) {
                let np = choose(S::Sched, 1 << 16);
                if let Some(t) = &mut w().tasks[id] {
                    t.prio = np;
                }
            }
            at(best)
        }
    }
}

fn poll_task(id: TaskId) {
    let wd = w();
    let (node, inc) = match &mut wd.tasks[id] {
        Some(t) => {
            t.queued = false;
            (t.node, t.inc)
        }
        None => return,
    };
    let save = (wd.cur, wd.cur_node);
    wd.cur = id;
    wd.cur_node = node;
    let t = wd.tasks[id].as_mut().unwrap();
    if t.aborted {
        remove_task(id);
        let wd = w();
        wd.cur = save.0;
        wd.cur_node = save.1;
        return;
    }
    t.polling = true;
    t.woken = false;
    t.polls += 1;
    let mut fut = t.fut.take().unwrap();
    wd.polls += 1;
    let cost = wd.cfg.poll_cost;
    wd.now += cost;
    mix(0x7000_0000_0000 ^ ((id as u64) << 8));
    let waker = wd.tasks[id].as_ref().unwrap().waker.clone();
    let mut cx = Context::from_waker(&waker);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
    let wd = w();
    let alive = wd.nodes[node].inc == inc;
    let done = match r {
        Ok(Poll::Pending) => false,
        Ok(Poll::Ready(())) => true,
        Err(_) => true,
    };
    if done || !alive {
        if !alive {
            wd.quiet += 1;
        }
        drop(fut);
        remove_task(id);
        if !alive {
            w().quiet -= 1;
        }
    } else {
        let t = wd.tasks[id].as_mut().unwrap();
        t.fut = Some(fut);
        t.polling = false;
        if t.woken || t.aborted {
            t.woken = false;
            t.queued = true;
            wd.ready.push(id);
        }
    }
    let wd = w();
    wd.cur = save.0;
    wd.cur_node = save.1;
}

const MAX_DEPTH: usize = 3;

/// A point at which another worker thread might get in: possibly poll other
/// ready tasks (or let time and the network move) before continuing.
pub fn preempt() {
    if !active() {
        return;
    }
    let wd = w();
    if wd.cfg.preempt_ppm == 0
        || wd.cur == NONE
        || wd.quiet > 0
        || wd.depth >= MAX_DEPTH
        || std::thread::panicking()
        || wd.nodes[wd.cur_node].harness
    {
        return;
    }
    if wd.preempt_left == 0 {
        return; // never again in this (replayed) run
    }
    wd.preempt_left -= 1;
    if wd.preempt_left > 0 {
        return;
    }
    let p = wd.cfg.preempt_ppm;
    wd.preempt_left = wd.streams[S::Preempt as usize].gap(p);
    let n = 1 + choose(S::Preempt, 6);
    let adv = choose(S::Preempt, 8);
    trace(|| format!("preempt: {} polls, advance {}", n, adv));
    probe("preempted");
    w().depth += 1;
    if adv == 7 {
        // descheduled for a while
        let d = choose(S::Preempt, 4) * 700_000;
        w().now += d;
        fire_due();
    }
    for _ in 0..n {
        match pick_ready() {
            Some(id) => poll_task(id),
            None => break,
        }
        fire_due();
    }
    w().depth -= 1;
}

pub fn forced_yield() -> bool {
    if !active() {
        return false;
    }
    let wd = w();
    if wd.cfg.yield_ppm == 0 || wd.cur == NONE || wd.quiet > 0 || wd.nodes[wd.cur_node].harness {
        return false;
    }
    if wd.yield_left == 0 {
        return false;
    }
    wd.yield_left -= 1;
    if wd.yield_left > 0 {
        return false;
    }
    let p = wd.cfg.yield_ppm;
    wd.yield_left = wd.streams[S::Preempt as usize].gap(p);
    probe("budget_yield");
    true
}

/// thread::sleep and friends: this task's thread blocks, the others run on.
pub fn block_for(ns: u64) {
    let wd = w();
    let until = wd.now + ns;
    wd.blocked += 1;
    if wd.blocked > 4 || wd.cur == NONE {
        wd.now = until.max(wd.now);
        wd.blocked -= 1;
        return;
    }
    probe("thread_blocked");
    let d = wd.depth;
    wd.depth = MAX_DEPTH;
    while w().now < until {
        if !step(Some(until)) {
            break;
        }
    }
    let wd = w();
    wd.depth = d;
    wd.now = wd.now.max(until);
    wd.blocked -= 1;
}

fn step(limit: Option<u64>) -> bool {
    fire_due();
    if let Some(id) = pick_ready() {
        poll_task(id);
        return true;
    }
    let wd = w();
    match wd.events.peek() {
        Some(Reverse(e)) => {
            let at = e.at;
            if let Some(l) = limit {
                if at > l {
                    wd.now = l;
                    return true;
                }
            }
            wd.now = wd.now.max(at);
            true
        }
        None => false,
    }
}

pub fn polls_cap_hit() -> bool {
    let wd = w();
    wd.polls >= wd.cfg.max_polls
}

/// Run `root` on the harness node until it completes.
#[track_caller]
pub fn run<F: Future<Output = ()> + 'static>(root: F) -> End {
    let wd = w();
    let p = wd.cfg.preempt_ppm;
    wd.preempt_left = wd.streams[S::Preempt as usize].gap(p);
    let y = wd.cfg.yield_ppm;
    wd.yield_left = wd.streams[S::Preempt as usize].gap(y);
    let h = add_task(
        Some(0),
        Box::pin(async move {
            root.await;
            w().root_done = true;
        }),
        Location::caller(),
    );
    wd.running = true;
    let start = wd.now;
    let end = loop {
        if w().root_done {
            break End::Done;
        }
        if !task_alive(h) {
            break End::Done;
        }
        let wd = w();
        if wd.polls >= wd.cfg.max_polls {
            break End::PollCap;
        }
        if wd.now - start > wd.cfg.max_time {
            break End::TimeCap;
        }
        if !step(None) {
            break End::Idle;
        }
    };
    w().running = false;
    end
}
/// Busiest tasks, for diagnosing a livelock.
pub fn busiest() -> Vec<String> {
    let mut v: Vec<(u64, String)> = w()
        .tasks
        .iter()
        .flatten()
        .map(|t| (t.polls, format!("{}:{} node {} polls {}", t.loc.file(), t.loc.line(), t.node, t.polls)))
        .collect();
    v.sort_by(|a, b| b.0.cmp(&a.0));
    v.truncate(4);
    v.into_iter().map(|x| x.1).collect()
}
pub fn record_panic(msg: String, file: String, line: u32) {
    if !active() {
        return;
    }
    let wd = w();
    let task = match wd.tasks.get(wd.cur) {
        Some(Some(t)) => format!("{}:{}", t.loc.file(), t.loc.line()),
        _ => "?".into(),
    };
    trace(|| format!("PANIC {} at {}:{}", msg, file, line));
    let (at, node) = (wd.now, wd.cur_node);
    w().panics.push(PanicRec { at, node, msg, file, line, task });
}
/// Run a piece of harness code without preemption.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    w().quiet += 1;
    let r = f();
    w().quiet -= 1;
    r
}
/// Run `f` as if on `node` (clock, socket ownership).
pub fn as_node<R>(node: NodeId, f: impl FnOnce() -> R) -> R {
    let wd = w();
    let s = wd.cur_node;
    wd.cur_node = node;
    let r = f();
    w().cur_node = s;
    r
}
