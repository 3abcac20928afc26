//! The simulated UDP network.
use super::*;
use std::collections::VecDeque;
use std::io;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

pub type SockId = usize;

#[derive(Clone, Debug)]
pub struct Packet {
    pub id: u64,
    pub src: SocketAddr,
    pub dst: SocketAddr,
    pub data: Vec<u8>,
    pub src_node: NodeId,
    pub dst_node: NodeId,
    pub sent_at: u64,
    pub dup: bool,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Link {
    /// one-way base latency
    pub base: u64,
    pub jitter: u64,
    pub loss: u32,
    pub dup: u32,
    /// chance of an extra delay of up to `reorder_by`
    pub reorder: u32,
    pub reorder_by: u64,
    /// chance that a burst loss starts, and its length in packets
    pub burst: u32,
    pub burst_len: u32,
    /// bytes per second, 0 = unlimited
    pub rate: u64,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct IoFaults {
    pub send_err: u32,
    pub recv_err: u32,
    /// chance that a send finds the socket buffer full for a while
    pub send_block: u32,
    pub send_block_for: u64,
    /// datagrams the receive buffer holds; 0 = default
    pub rx_cap: usize,
}

pub(crate) struct Socket {
    pub node: NodeId,
    pub inc: u32,
    pub local: SocketAddr,
    pub peer: Option<SocketAddr>,
    pub rx: VecDeque<(Vec<u8>, SocketAddr)>,
    pub wakers: Vec<Waker>,
    pub err: Option<io::Error>,
    pub blocked_until: u64,
    pub blocked_by: u64,
}

pub enum Action {
    Pass,
    Drop,
    Delay(u64),
    Dup(u64),
}

pub struct Net {
    pub(crate) socks: Vec<Option<Socket>>,
    pub ips: Vec<(IpAddr, NodeId)>,
    pub default: Link,
    pub links: BTreeMap<(NodeId, NodeId), Link>,
    pub cut: BTreeMap<(NodeId, NodeId), ()>,
    burst_left: BTreeMap<(NodeId, NodeId), (u32, u64)>,
    busy_until: BTreeMap<(NodeId, NodeId), u64>,
    pub io: BTreeMap<NodeId, IoFaults>,
    next_id: u64,
    next_port: BTreeMap<NodeId, u16>,
    pub port_pool: u16,
    /// Observers of every datagram a real socket emits.
    pub on_send: Option<Box<dyn FnMut(&Packet)>>,
    pub on_deliver: Option<Box<dyn FnMut(&Packet)>>,
    pub filter: Option<Box<dyn FnMut(&Packet) -> Action>>,
    pub sent: u64,
    pub delivered: u64,
    pub lossless: bool,
    std_fds: BTreeMap<i32, SocketAddr>,
}

impl Net {
    pub(crate) fn new() -> Net {
        Net {
            socks: Vec::new(),
            ips: Vec::new(),
            default: Link { base: 500_000, ..Link::default() },
            links: BTreeMap::new(),
            cut: BTreeMap::new(),
            burst_left: BTreeMap::new(),
            busy_until: BTreeMap::new(),
            io: BTreeMap::new(),
            next_id: 0,
            next_port: BTreeMap::new(),
            port_pool: 20000,
            on_send: None,
            on_deliver: None,
            filter: None,
            sent: 0,
            delivered: 0,
            lossless: false,
            std_fds: BTreeMap::new(),
        }
    }
}

pub fn add_ip(node: NodeId, ip: IpAddr) {
    w().net.ips.push((ip, node));
}
pub fn node_ip(node: NodeId, v6: bool) -> Option<IpAddr> {
    w().net.ips.iter().find(|(ip, n)| *n == node && ip.is_ipv6() == v6).map(|x| x.0)
}
fn node_of(ip: &IpAddr) -> Option<NodeId> {
    w().net.ips.iter().find(|(i, _)| i == ip).map(|x| x.1)
}
/// Cut the directed path a -> b.
pub fn cut(a: NodeId, b: NodeId) {
    fault("partition");
    trace(|| format!("FAULT cut {}->{}", a, b));
    w().net.cut.insert((a, b), ());
}
pub fn heal(a: NodeId, b: NodeId) {
    trace(|| format!("heal {}->{}", a, b));
    w().net.cut.remove(&(a, b));
}
pub fn is_cut(a: NodeId, b: NodeId) -> bool {
    w().net.cut.contains_key(&(a, b))
}

fn err(kind: io::ErrorKind, raw: i32) -> io::Error {
    let _ = kind;
    io::Error::from_raw_os_error(raw)
}
const EADDRINUSE: i32 = 98;
const EADDRNOTAVAIL: i32 = 99;
const EAFNOSUPPORT: i32 = 97;
const ENETUNREACH: i32 = 101;
const ENOBUFS: i32 = 105;
const EPERM: i32 = 1;
const EMSGSIZE: i32 = 90;
const EDESTADDRREQ: i32 = 89;
const ECONNRESET: i32 = 104;
const ENOMEM: i32 = 12;
const EBADF: i32 = 9;

pub(crate) fn bind(addr: SocketAddr) -> io::Result<SockId> {
    let wd = w();
    let node = wd.cur_node;
    if !wd.nodes[node].alive {
        return Err(err(io::ErrorKind::Other, EBADF));
    }
    let ip = addr.ip();
    if !ip.is_unspecified() && !ip.is_loopback() && node_of(&ip) != Some(node) {
        return Err(err(io::ErrorKind::AddrNotAvailable, EADDRNOTAVAIL));
    }
    let mut local = addr;
    let clash = |p: u16| {
        w().net.socks.iter().flatten().any(|s| {
            s.node == node
                && s.local.port() == p
                && s.local.is_ipv4() == addr.is_ipv4()
                && (s.local.ip() == ip || s.local.ip().is_unspecified() || ip.is_unspecified())
        })
    };
    if addr.port() == 0 {
        let base = wd.net.port_pool;
        let p0 = *wd.net.next_port.entry(node).or_insert(0);
        let mut found = None;
        for k in 0..20000u16 {
            let p = base + (p0.wrapping_add(k)) % 20000;
            if !clash(p) {
                found = Some((p, p0.wrapping_add(k).wrapping_add(1)));
                break;
            }
        }
        match found {
            Some((p, n)) => {
                w().net.next_port.insert(node, n);
                local.set_port(p);
            }
            None => return Err(err(io::ErrorKind::AddrInUse, EADDRINUSE)),
        }
    } else if clash(addr.port()) {
        return Err(err(io::ErrorKind::AddrInUse, EADDRINUSE));
    }
    let wd = w();
    let inc = wd.nodes[node].inc;
    let s = Socket {
        node,
        inc,
        local,
        peer: None,
        rx: VecDeque::new(),
        wakers: Vec::new(),
        err: None,
        blocked_until: 0,
        blocked_by: 0,
    };
    wd.nodes[node].sockets += 1;
    wd.net.socks.push(Some(s));
    let id = wd.net.socks.len() - 1;
    trace(|| format!("bind {} as socket {}", local, id));
    Ok(id)
}
/// Make the next ephemeral bind on `node` reuse the lowest free port.
pub fn reuse_ports(node: NodeId) {
    w().net.next_port.insert(node, 0);
}
pub fn register_std_fd(fd: i32, addr: SocketAddr) {
    w().net.std_fds.insert(fd, addr);
}
pub(crate) fn std_addr(fd: i32) -> Option<SocketAddr> {
    w().net.std_fds.get(&fd).copied()
}

pub(crate) fn close(id: SockId) {
    if !active() {
        return;
    }
    let wd = w();
    if let Some(s) = wd.net.socks[id].take() {
        wd.nodes[s.node].sockets -= 1;
        trace(|| format!("close socket {} {}", id, s.local));
        for k in s.wakers {
            k.wake();
        }
    }
}
pub(crate) fn drop_node(n: NodeId) {
    for id in 0..w().net.socks.len() {
        let mine = matches!(&w().net.socks[id], Some(s) if s.node == n);
        if mine {
            close(id);
        }
    }
}
pub(crate) fn local(id: SockId) -> io::Result<SocketAddr> {
    match &w().net.socks[id] {
        Some(s) => Ok(s.local),
        None => Err(err(io::ErrorKind::Other, EBADF)),
    }
}
pub(crate) fn peer(id: SockId) -> Option<SocketAddr> {
    w().net.socks[id].as_ref().and_then(|s| s.peer)
}
pub(crate) fn connect(id: SockId, a: SocketAddr) -> io::Result<()> {
    match &mut w().net.socks[id] {
        Some(s) => {
            if s.local.is_ipv4() != a.is_ipv4() {
                return Err(err(io::ErrorKind::Other, EAFNOSUPPORT));
            }
            s.peer = Some(a);
            Ok(())
        }
        None => Err(err(io::ErrorKind::Other, EBADF)),
    }
}
/// Ready(true) when the send buffer has room.
pub(crate) fn poll_writable(id: SockId, cx: &mut Context<'_>) -> Poll<()> {
    let wd = w();
    let now = wd.now;
    let node = match &wd.net.socks[id] {
        Some(s) => s.node,
        None => return Poll::Ready(()),
    };
    let f = wd.net.io.get(&node).copied().unwrap_or_default();
    let s = wd.net.socks[id].as_mut().unwrap();
    if s.blocked_until > now {
        let at = s.blocked_until;
        schedule(at, Ev::Wake(cx.waker().clone()));
        return Poll::Pending;
    }
    // one roll per send, not per poll: remember that we already waited
    if s.blocked_by == 0 && f.send_block > 0 && chance(S::Io, f.send_block) {
        let d = 1 + choose(S::Io, f.send_block_for.max(2));
        let s = w().net.socks[id].as_mut().unwrap();
        s.blocked_until = now + d;
        s.blocked_by = d;
        fault("send_buffer_full");
        trace(|| format!("FAULT socket {} not writable for {} ms", id, d / MS));
        schedule(now + d, Ev::Wake(cx.waker().clone()));
        return Poll::Pending;
    }
    w().net.socks[id].as_mut().unwrap().blocked_by = 0;
    Poll::Ready(())
}

fn source_for(s: &Socket, dst: &SocketAddr) -> Option<SocketAddr> {
    if !s.local.ip().is_unspecified() {
        return Some(s.local);
    }
    if dst.ip().is_loopback() {
        let ip: IpAddr =
            if dst.is_ipv4() { Ipv4Addr::LOCALHOST.into() } else { Ipv6Addr::LOCALHOST.into() };
        return Some(SocketAddr::new(ip, s.local.port()));
    }
    node_ip(s.node, dst.is_ipv6()).map(|ip| SocketAddr::new(ip, s.local.port()))
}

pub(crate) fn send(id: SockId, data: &[u8], dst: Option<SocketAddr>) -> io::Result<usize> {
    let wd = w();
    let s = match &wd.net.socks[id] {
        Some(s) => s,
        None => return Err(err(io::ErrorKind::Other, EBADF)),
    };
    let node = s.node;
    if wd.nodes[node].inc != s.inc || !wd.nodes[node].alive {
        return Err(err(io::ErrorKind::Other, EBADF));
    }
    let dst = match dst.or(s.peer) {
        Some(d) => d,
        None => return Err(err(io::ErrorKind::Other, EDESTADDRREQ)),
    };
    if s.local.is_ipv4() && dst.is_ipv6() {
        return Err(err(io::ErrorKind::Other, EAFNOSUPPORT));
    }
    if data.len() > 65507 {
        return Err(err(io::ErrorKind::Other, EMSGSIZE));
    }
    let dst = if dst.ip().is_unspecified() {
        let ip: IpAddr =
            if dst.is_ipv4() { Ipv4Addr::LOCALHOST.into() } else { Ipv6Addr::LOCALHOST.into() };
        SocketAddr::new(ip, dst.port())
    } else {
        dst
    };
    let src = match source_for(s, &dst) {
        Some(a) => a,
        None => return Err(err(io::ErrorKind::Other, ENETUNREACH)),
    };
    let dst_node = if dst.ip().is_loopback() { Some(node) } else { node_of(&dst.ip()) };
    let f = wd.net.io.get(&node).copied().unwrap_or_default();
    if f.send_err > 0 && chance(S::Io, f.send_err) {
        fault("send_error");
        let e = pick(S::Io, &[ENOBUFS, EPERM, ENETUNREACH, ENOMEM]);
        trace(|| format!("FAULT send error {} on socket {}", e, id));
        mix(0xE44);
        return Err(io::Error::from_raw_os_error(e));
    }
    emit(node, src, dst, dst_node, data.to_vec());
    Ok(data.len())
}

/// Put a datagram on the wire with an arbitrary source address.
pub fn inject(src: SocketAddr, dst: SocketAddr, data: Vec<u8>) {
    let wd = w();
    let dn = node_of(&dst.ip());
    let sn = node_of(&src.ip()).unwrap_or(0);
    wd.net.next_id += 1;
    let p = Packet {
        id: wd.net.next_id,
        src,
        dst,
        data,
        src_node: sn,
        dst_node: dn.unwrap_or(NONE),
        sent_at: wd.now,
        dup: false,
    };
    mix(0x1A1);
    mix_bytes(&p.data);
    trace(|| format!("inject {} -> {} {}", src, dst, hex(&p.data)));
    fault("injected_datagram");
    let at = wd.now + wd.net.default.base;
    schedule(at, Ev::Deliver(Box::new(p)));
}

pub fn hex(d: &[u8]) -> String {
    let mut s = String::new();
    for b in d.iter().take(24) {
        s.push_str(&format!("{:02x}", b));
    }
    format!("[{}]{}{}", d.len(), s, if d.len() > 24 { ".." } else { "" })
}

fn emit(node: NodeId, src: SocketAddr, dst: SocketAddr, dst_node: Option<NodeId>, data: Vec<u8>) {
    let wd = w();
    wd.net.next_id += 1;
    wd.net.sent += 1;
    let p = Packet {
        id: wd.net.next_id,
        src,
        dst,
        data,
        src_node: node,
        dst_node: dst_node.unwrap_or(NONE),
        sent_at: wd.now,
        dup: false,
    };
    mix(0x5E4D ^ wd.now);
    mix_bytes(&p.data);
    trace(|| format!("send #{} {} -> {} {}", p.id, src, dst, hex(&p.data)));
    if let Some(mut f) = w().net.on_send.take() {
        f(&p);
        let wd = w();
        if wd.net.on_send.is_none() {
            wd.net.on_send = Some(f);
        }
    }
    let dn = match dst_node {
        Some(d) => d,
        None => return,
    };
    let key = (node, dn);
    let wd = w();
    if wd.net.cut.contains_key(&key) {
        fault("partition_drop");
        trace(|| format!("drop #{} (partition)", p.id));
        return;
    }
    let mut extra = 0;
    let mut dup = None;
    if let Some(mut f) = wd.net.filter.take() {
        let a = f(&p);
        let wd = w();
        if wd.net.filter.is_none() {
            wd.net.filter = Some(f);
        }
        match a {
            Action::Pass => {}
            Action::Drop => {
                fault("targeted_drop");
                trace(|| format!("drop #{} (targeted)", p.id));
                return;
            }
            Action::Delay(d) => {
                fault("targeted_delay");
                extra = d
            }
            Action::Dup(d) => {
                fault("targeted_dup");
                dup = Some(d)
            }
        }
    }
    let wd = w();
    let l = wd.net.links.get(&key).copied().unwrap_or(wd.net.default);
    let mut at = wd.now + l.base + extra;
    if l.rate > 0 {
        let b = wd.net.busy_until.entry(key).or_insert(0);
        let st = (*b).max(wd.now);
        let en = st + p.data.len() as u64 * SEC / l.rate;
        *b = en;
        at += en - wd.now;
        if en - wd.now > 400 * MS {
            fault("queue_overflow_drop");
            trace(|| format!("drop #{} (queue full)", p.id));
            return;
        }
    }
    if !wd.net.lossless {
        let left = wd.net.burst_left.entry(key).or_insert((0, 0));
        if left.0 > 0 && wd.now < left.1 {
            left.0 -= 1;
            fault("burst_loss");
            trace(|| format!("drop #{} (burst)", p.id));
            return;
        }
        if l.burst > 0 && chance(S::Net, l.burst) {
            let n = 1 + choose(S::Net, l.burst_len.max(1) as u64) as u32;
            // at most 25 ms a packet: a quiet path recovers
            let until = w().now + n as u64 * 25 * super::MS;
            w().net.burst_left.insert(key, (n - 1, until));
            fault("burst_loss");
            trace(|| format!("drop #{} (burst start)", p.id));
            return;
        }
        if l.loss > 0 && chance(S::Net, l.loss) {
            fault("loss");
            trace(|| format!("drop #{} (loss)", p.id));
            return;
        }
        if l.dup > 0 && chance(S::Net, l.dup) {
            dup = Some(1 + choose(S::Net, (l.jitter + l.reorder_by + 2 * MS).max(2)));
            fault("duplicate");
        }
        if l.jitter > 0 {
            at += choose(S::Net, l.jitter);
        }
        if l.reorder > 0 && chance(S::Net, l.reorder) {
            at += 1 + choose(S::Net, l.reorder_by.max(2));
            fault("reorder_delay");
        }
    }
    if let Some(d) = dup {
        let mut q = p.clone();
        q.dup = true;
        schedule(at + d, Ev::Deliver(Box::new(q)));
    }
    schedule(at, Ev::Deliver(Box::new(p)));
}

pub(crate) fn deliver(p: Packet) {
    let wd = w();
    if p.dst_node == NONE {
        return;
    }
    if wd.net.cut.contains_key(&(p.src_node, p.dst_node)) && p.src_node != 0 {
        fault("partition_drop");
        trace(|| format!("drop #{} in flight (partition)", p.id));
        return;
    }
    let t = wd.net.socks.iter().position(|s| match s {
        Some(s) => {
            s.node == p.dst_node
                && s.local.port() == p.dst.port()
                && s.local.is_ipv4() == p.dst.is_ipv4()
                && (s.local.ip() == p.dst.ip() || s.local.ip().is_unspecified())
                && s.peer.map(|a| a == p.src).unwrap_or(true)
        }
        None => false,
    });
    let id = match t {
        Some(i) => i,
        None => {
            probe("datagram_to_closed_port");
            trace(|| format!("no socket for #{} to {}", p.id, p.dst));
            return;
        }
    };
    let f = wd.net.io.get(&p.dst_node).copied().unwrap_or_default();
    let cap = if f.rx_cap > 0 { f.rx_cap } else { 256 };
    let s = wd.net.socks[id].as_mut().unwrap();
    if s.rx.len() >= cap {
        fault("rx_overflow_drop");
        trace(|| format!("drop #{} (receive buffer full)", p.id));
        return;
    }
    wd.net.delivered += 1;
    mix(0xDE11 ^ (p.id << 16));
    trace(|| format!("deliver #{} {} -> {}{}", p.id, p.src, p.dst, if p.dup { " (dup)" } else { "" }));
    if f.recv_err > 0 && chance(S::Io, f.recv_err) {
        let e = pick(S::Io, &[ECONNRESET, ENOMEM, ENOBUFS]);
        fault("recv_error");
        trace(|| format!("FAULT recv error {} on socket {}", e, id));
        w().net.socks[id].as_mut().unwrap().err = Some(io::Error::from_raw_os_error(e));
    }
    let s = w().net.socks[id].as_mut().unwrap();
    s.rx.push_back((p.data.clone(), p.src));
    let ws = std::mem::take(&mut s.wakers);
    if let Some(mut f) = w().net.on_deliver.take() {
        f(&p);
        let wd = w();
        if wd.net.on_deliver.is_none() {
            wd.net.on_deliver = Some(f);
        }
    }
    for k in ws {
        k.wake();
    }
}
/// Queue an error for the next receive on the socket bound to `port` of `node`.
pub fn inject_recv_error(node: NodeId, port: u16, raw: i32) {
    for s in w().net.socks.iter_mut().flatten() {
        if s.node == node && s.local.port() == port {
            fault("recv_error");
            s.err = Some(io::Error::from_raw_os_error(raw));
            for k in std::mem::take(&mut s.wakers) {
                k.wake();
            }
        }
    }
}

pub(crate) enum Rx {
    Got(Vec<u8>, SocketAddr),
    Err(io::Error),
    Empty,
}
pub(crate) fn recv(id: SockId, pop: bool) -> Rx {
    let s = match &mut w().net.socks[id] {
        Some(s) => s,
        // the host crashed under a task that is still on the stack: it sees nothing any more
        None => return Rx::Empty,
    };
    if pop {
        if let Some(e) = s.err.take() {
            return Rx::Err(e);
        }
    } else if let Some(e) = &s.err {
        return Rx::Err(io::Error::from_raw_os_error(e.raw_os_error().unwrap_or(EBADF)));
    }
    if pop {
        match s.rx.pop_front() {
            Some((d, a)) => Rx::Got(d, a),
            None => Rx::Empty,
        }
    } else {
        match s.rx.front() {
            Some((d, a)) => Rx::Got(d.clone(), *a),
            None => Rx::Empty,
        }
    }
}
pub(crate) fn add_reader(id: SockId, k: &Waker) {
    if let Some(s) = &mut w().net.socks[id] {
        if !s.wakers.iter().any(|x| x.will_wake(k)) {
            s.wakers.push(k.clone());
        }
    }
}
pub fn ports_bound(node: NodeId) -> Vec<SocketAddr> {
    w().net.socks.iter().flatten().filter(|s| s.node == node).map(|s| s.local).collect()
}
