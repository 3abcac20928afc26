//! An independent RakNet peer (client and server role) for interop runs.
use crate::wire::{self, *};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::net::SocketAddr;
use std::rc::Rc;
use tokio::net::UdpSocket;
use tokio::sim::{self, MS};
use tokio::time::{sleep, timeout, Duration};

#[derive(Clone, Debug)]
pub struct Opts {
    pub proto: u8,
    /// total size of the first request datagram (client role)
    pub req1_len: usize,
    /// MTU to put in request 2 (client) or reply 1 (server)
    pub mtu: u16,
    pub ack_delay: u64,
    /// pack several frames in one datagram up to this many bytes
    pub pack: usize,
    /// fragments that fill the MTU
    pub tight: bool,
    pub resend: u64,
    pub internal_addrs: usize,
    pub guid: u64,
    /// drop acks (never acknowledge) until told otherwise
    pub mute_acks: bool,
    pub ping_every: u64,
    pub datagram_id: u8,
}
impl Default for Opts {
    fn default() -> Opts {
        Opts {
            proto: 10,
            req1_len: 1400 - 28,
            mtu: 1400,
            ack_delay: 0,
            pack: 0,
            tight: false,
            resend: 150 * MS,
            internal_addrs: 10,
            guid: 77,
            mute_acks: false,
            ping_every: 0,
            datagram_id: 0x84,
        }
    }
}

#[derive(Default)]
pub struct St {
    /// fill datagrams up to the MTU
    pub tight: bool,
    pub remote: Option<SocketAddr>,
    pub mtu: u16,
    next_seq: u32,
    next_rel: u32,
    next_ord: u32,
    next_sqd: u32,
    next_comp: u16,
    queue: VecDeque<Frame>,
    unacked: BTreeMap<u32, (Vec<Frame>, u64)>,
    acks: Vec<u32>,
    ack_due: u64,
    seen: BTreeSet<u32>,
    seen_rel: BTreeSet<u32>,
    ord_next: u32,
    ord_buf: BTreeMap<u32, (Rel, Vec<u8>)>,
    sqd_next: u32,
    frag: BTreeMap<u16, BTreeMap<u32, Frame>>,
    /// user payloads in delivery order
    pub inbox: Vec<(u64, Rel, Vec<u8>)>,
    pub ctl: Vec<(u64, Ctl)>,
    pub errors: Vec<String>,
    pub got_disconnect: Option<u64>,
    pub closed: bool,
    pub replies2: u32,
    pub already: u32,
    pub last_rx: u64,
    pub mute_acks: bool,
    pub drop_unacked: bool,
    pub acked_msgs: u64,
    pub nacks_rx: u64,
}

impl St {
    fn fresh() -> St {
        let n = wire::first();
        St { next_seq: n, next_rel: n, next_ord: n, next_sqd: n, next_comp: n as u16, ord_next: n, sqd_next: n, ..St::default() }
    }
}

#[derive(Clone)]
pub struct Peer {
    pub sock: Rc<UdpSocket>,
    pub st: Rc<RefCell<St>>,
    pub o: Opts,
    pub node: usize,
}

fn wall_ms() -> i64 {
    (sim::wall_ns() / MS) as i64
}

impl Peer {
    pub async fn new(node: usize, bind: SocketAddr, o: Opts) -> Peer {
        let sock = sim::spawn_on(node, async move { UdpSocket::bind(bind).await.expect("bind reference peer") })
            .await
            .unwrap();
        let st = St { mtu: o.mtu, mute_acks: o.mute_acks, tight: o.tight, ..St::fresh() };
        Peer { sock: Rc::new(sock), st: Rc::new(RefCell::new(st)), o, node }
    }
    pub fn with_socket(&self, o: Opts) -> Peer {
        let st = St { mtu: o.mtu, mute_acks: o.mute_acks, tight: o.tight, ..St::fresh() };
        Peer { sock: self.sock.clone(), st: Rc::new(RefCell::new(st)), o, node: self.node }
    }

    /// Offline handshake as a client. Err(reason) after `tries` unanswered attempts.
    pub async fn handshake(&self, server: SocketAddr, tries: usize) -> Result<(), String> {
        let mut buf = vec![0u8; 4096];
        let mut mtu = None;
        'a: for _ in 0..tries {
            let _ = self.sock.send_to(&wire::req1(self.o.proto, self.o.req1_len), server).await;
            let until = sim::now() + 500 * MS;
            while sim::now() < until {
                let left = Duration::from_nanos(until - sim::now());
                if let Ok(Ok((n, from))) = timeout(left, self.sock.recv_from(&mut buf)).await {
                    if from != server {
                        continue;
                    }
                    match wire::parse(&buf[..n]) {
                        Ok(Wire::Reply1 { mtu: m, .. }) => {
                            mtu = Some(m);
                            break 'a;
                        }
                        Ok(Wire::Incompatible { proto, .. }) => return Err(format!("incompatible {}", proto)),
                        Ok(_) => {}
                        Err(e) => self.st.borrow_mut().errors.push(e),
                    }
                }
            }
        }
        let m = match mtu {
            Some(m) => m.min(self.o.mtu),
            None => return Err("no reply 1".into()),
        };
        for _ in 0..tries {
            let _ = self.sock.send_to(&wire::req2(server, m, self.o.guid), server).await;
            let until = sim::now() + 500 * MS;
            while sim::now() < until {
                let left = Duration::from_nanos(until - sim::now());
                if let Ok(Ok((n, from))) = timeout(left, self.sock.recv_from(&mut buf)).await {
                    if from != server {
                        continue;
                    }
                    match wire::parse(&buf[..n]) {
                        Ok(Wire::Reply2 { mtu, .. }) => {
                            let mut s = self.st.borrow_mut();
                            s.remote = Some(server);
                            if mtu > m {
                                s.errors.push(format!("open connection reply 2 gives an MTU of {} to a request for {}", mtu, m));
                            }
                            s.mtu = mtu.min(m);
                            s.replies2 += 1;
                            return Ok(());
                        }
                        Ok(Wire::Already { .. }) => self.st.borrow_mut().already += 1,
                        Ok(_) => {}
                        Err(e) => self.st.borrow_mut().errors.push(e),
                    }
                }
            }
        }
        Err("no reply 2".into())
    }

    /// Client role: offline handshake, connection request, new incoming connection.
    pub async fn connect(&self, server: SocketAddr, wait: u64) -> Result<(), String> {
        let tries = (wait / (500 * MS)).max(1) as usize;
        self.handshake(server, tries).await?;
        self.start();
        self.push(Rel::R, wire::conn_request(self.o.guid, wall_ms()));
        let until = sim::now() + wait;
        while sim::now() < until {
            sleep(Duration::from_millis(5)).await;
            let acc = self.st.borrow().ctl.iter().any(|c| matches!(c.1, Ctl::ConnAcc { .. }));
            if acc {
                self.push(Rel::RO, wire::new_incoming(server, wall_ms(), wall_ms()));
                self.push(Rel::U, Wr::new(0).u64(wall_ms() as u64).0);
                return Ok(());
            }
        }
        Err("no connection request accepted".into())
    }

    /// Server role: answer one client's handshake, then serve it.
    pub async fn serve_one(&self, wait: u64) -> Result<SocketAddr, String> {
        let mut buf = vec![0u8; 4096];
        let until = sim::now() + wait;
        let mut client = None;
        let mut mtu = self.o.mtu;
        while sim::now() < until {
            let left = Duration::from_nanos(until - sim::now());
            let (n, from) = match timeout(left, self.sock.recv_from(&mut buf)).await {
                Ok(Ok(x)) => x,
                Ok(Err(_)) => continue,
                Err(_) => break,
            };
            match wire::parse(&buf[..n]) {
                Ok(Wire::Req1 { proto, .. }) => {
                    if proto != self.o.proto {
                        let _ = self.sock.send_to(&wire::incompatible(self.o.proto, self.o.guid), from).await;
                    } else {
                        let _ = self.sock.send_to(&wire::reply1(self.o.guid, self.o.mtu), from).await;
                    }
                }
                Ok(Wire::Req2 { mtu: m, .. }) => {
                    mtu = mtu.min(m);
                    client = Some(from);
                    self.st.borrow_mut().mtu = mtu;
                    let _ = self.sock.send_to(&wire::reply2(self.o.guid, from, mtu), from).await;
                }
                Ok(Wire::Frames { .. }) if client == Some(from) => {
                    self.st.borrow_mut().remote = client;
                    let d = buf[..n].to_vec();
                    self.datagram(&d);
                    self.start();
                    return Ok(from);
                }
                Ok(_) => {}
                Err(e) => self.st.borrow_mut().errors.push(e),
            }
        }
        Err("no client".into())
    }

    pub fn start(&self) {
        let me = self.clone();
        self.st.borrow_mut().last_rx = sim::now();
        sim::spawn_on(self.node, async move { me.main().await });
    }

    async fn main(&self) {
        let mut buf = vec![0u8; 4096];
        let mut next_ping = sim::now();
        loop {
            if self.st.borrow().closed {
                return;
            }
            match timeout(Duration::from_millis(10), self.sock.recv_from(&mut buf)).await {
                Ok(Ok((n, from))) => {
                    if Some(from) == self.st.borrow().remote {
                        let d = buf[..n].to_vec();
                        self.datagram(&d);
                    }
                }
                Ok(Err(_)) => {}
                Err(_) => {}
            }
            if self.st.borrow().closed {
                return;
            }
            if self.o.ping_every > 0 && sim::now() >= next_ping {
                next_ping = sim::now() + self.o.ping_every;
                self.push(Rel::U, Wr::new(0).u64(wall_ms() as u64).0);
            }
            self.pump().await;
        }
    }

    fn datagram(&self, d: &[u8]) {
        let now = sim::now();
        let o = &self.o;
        let mut s = self.st.borrow_mut();
        s.last_rx = now;
        match wire::parse(d) {
            Err(e) => s.errors.push(format!("{} in {}", e, sim::net::hex(d))),
            Ok(Wire::Ack(rs)) => {
                for (a, b) in rs {
                    for q in a..=b.min(a + 100_000) {
                        if s.unacked.remove(&q).is_some() {
                            s.acked_msgs += 1;
                        }
                    }
                }
            }
            Ok(Wire::Nack(rs)) => {
                s.nacks_rx += 1;
                for (a, b) in rs {
                    for q in a..=b.min(a + 100_000) {
                        if let Some(x) = s.unacked.get_mut(&q) {
                            x.1 = 0;
                        }
                    }
                }
            }
            Ok(Wire::Disconnect) => {
                if s.got_disconnect.is_none() {
                    s.got_disconnect = Some(now);
                }
            }
            Ok(Wire::Reply2 { .. }) => s.replies2 += 1,
            Ok(Wire::Already { .. }) => s.already += 1,
            Ok(Wire::Req2 { .. }) => {
                // the client did not see our reply 2
                let (g, m) = (o.guid, s.mtu);
                if let Some(r) = s.remote {
                    let _ = self.sock.try_send_to(&wire::reply2(g, r, m), r);
                }
            }
            Ok(Wire::Frames { seq, frames, .. }) => {
                if s.acks.is_empty() {
                    s.ack_due = now + o.ack_delay;
                }
                s.acks.push(seq);
                if !s.seen.insert(seq) {
                    return;
                }
                for f in frames {
                    if f.rel.reliable() && !s.seen_rel.insert(f.rel_idx) {
                        continue;
                    }
                    self.frame(&mut s, f, now);
                }
            }
            Ok(_) => {}
        }
    }
    fn frame(&self, s: &mut St, f: Frame, now: u64) {
        let f = match f.frag {
            None => f,
            Some((n, c, i)) => {
                let m = s.frag.entry(c).or_default();
                m.insert(i, f.clone());
                if m.len() < n as usize {
                    return;
                }
                let m = s.frag.remove(&c).unwrap();
                let mut data = Vec::new();
                for (_, p) in m {
                    data.extend_from_slice(&p.data);
                }
                Frame { data, frag: None, ..f }
            }
        };
        match f.rel {
            Rel::RO => {
                if f.ord_idx < s.ord_next {
                    return;
                }
                s.ord_buf.insert(f.ord_idx, (f.rel, f.data));
                loop {
                    let k = s.ord_next;
                    match s.ord_buf.remove(&k) {
                        Some((r, d)) => {
                            s.ord_next += 1;
                            self.up(s, r, d, now);
                        }
                        None => break,
                    }
                }
            }
            Rel::US | Rel::RS => {
                if f.seq_idx >= s.sqd_next {
                    s.sqd_next = f.seq_idx + 1;
                    self.up(s, f.rel, f.data, now);
                }
            }
            _ => self.up(s, f.rel, f.data, now),
        }
    }
    fn up(&self, s: &mut St, rel: Rel, d: Vec<u8>, now: u64) {
        match wire::parse_ctl(&d) {
            Err(e) => s.errors.push(format!("{} in payload {}", e, sim::net::hex(&d))),
            Ok(Ctl::User) => s.inbox.push((now, rel, d)),
            Ok(c) => {
                match &c {
                    Ctl::Ping { time } => {
                        let p = Wr::new(3).u64(*time as u64).u64(wall_ms() as u64).0;
                        Self::enqueue(s, Rel::U, p);
                    }
                    Ctl::ConnReq { time, .. } => {
                        let r = s.remote.unwrap();
                        let p = wire::conn_accepted(r, self.o.internal_addrs, *time, wall_ms());
                        Self::enqueue(s, Rel::RO, p);
                    }
                    Ctl::Disconnect => {
                        if s.got_disconnect.is_none() {
                            s.got_disconnect = Some(now);
                        }
                    }
                    _ => {}
                }
                s.ctl.push((now, c));
            }
        }
    }

    fn enqueue(s: &mut St, rel: Rel, data: Vec<u8>) {
        // UDP and IP, datagram, frame, order and fragment headers
        let max = s.mtu as usize - if s.tight { 28 + 4 + 6 + 4 + 10 } else { 60 };
        if data.len() <= max || rel != Rel::RO {
            let mut f = Frame { rel, rel_idx: 0, seq_idx: 0, ord_idx: 0, chan: 0, frag: None, data };
            if rel.reliable() {
                f.rel_idx = s.next_rel;
                s.next_rel += 1;
            }
            if rel.has_order() {
                f.ord_idx = s.next_ord;
            }
            if rel.sequenced() {
                f.seq_idx = s.next_sqd;
                s.next_sqd += 1;
            }
            if rel == Rel::RO {
                s.next_ord += 1;
            }
            s.queue.push_back(f);
            return;
        }
        let parts: Vec<Vec<u8>> = data.chunks(max).map(|c| c.to_vec()).collect();
        let n = parts.len() as u32;
        let c = s.next_comp;
        s.next_comp = s.next_comp.wrapping_add(1);
        for (i, p) in parts.into_iter().enumerate() {
            let f = Frame {
                rel,
                rel_idx: s.next_rel,
                seq_idx: 0,
                ord_idx: s.next_ord,
                chan: 0,
                frag: Some((n, c, i as u32)),
                data: p,
            };
            s.next_rel += 1;
            s.queue.push_back(f);
        }
        s.next_ord += 1;
    }
    pub fn push(&self, rel: Rel, data: Vec<u8>) {
        Self::enqueue(&mut self.st.borrow_mut(), rel, data)
    }
    pub fn idle(&self) -> bool {
        let s = self.st.borrow();
        s.queue.is_empty() && s.unacked.is_empty()
    }
    pub fn close(&self) {
        self.st.borrow_mut().closed = true;
    }
    pub async fn send_raw(&self, d: &[u8]) {
        let r = self.st.borrow().remote;
        if let Some(r) = r {
            let _ = self.sock.send_to(d, r).await;
        }
    }

    pub async fn pump(&self) {
        let now = sim::now();
        let mut out: Vec<Vec<u8>> = Vec::new();
        let remote;
        {
            let mut s = self.st.borrow_mut();
            remote = match s.remote {
                Some(r) => r,
                None => return,
            };
            if !s.acks.is_empty() && now >= s.ack_due && !s.mute_acks {
                let mut a = std::mem::take(&mut s.acks);
                a.sort_unstable();
                a.dedup();
                let mut rs: Vec<(u32, u32)> = Vec::new();
                for q in a {
                    match rs.last_mut() {
                        Some(l) if l.1 + 1 == q => l.1 = q,
                        _ => rs.push((q, q)),
                    }
                }
                for c in rs.chunks(150) {
                    out.push(wire::records_pkt(0xc0, c));
                }
            }
            // resend
            let due: Vec<u32> =
                s.unacked.iter().filter(|(_, v)| now >= v.1 + self.o.resend).map(|(k, _)| *k).collect();
            for q in due.into_iter().take(64) {
                let (fs, _) = s.unacked.remove(&q).unwrap();
                if self.o.pack > 0 {
                    // frames, not datagrams, are sent again: in the company of others, new ones too
                    if q % 3 == 0 {
                        s.queue.extend(fs);
                    } else {
                        for f in fs.into_iter().rev() {
                            s.queue.push_front(f);
                        }
                    }
                    continue;
                }
                let n = s.next_seq;
                s.next_seq += 1;
                out.push(wire::frames_pkt(self.o.datagram_id, n, &fs));
                s.unacked.insert(n, (fs, now));
            }
            let mut budget = 64;
            while !s.queue.is_empty() && s.unacked.len() < 256 && budget > 0 {
                budget -= 1;
                let mut fs = vec![s.queue.pop_front().unwrap()];
                let mut len = 4 + wire::frame_len(&fs[0]);
                while self.o.pack > 0 && !s.queue.is_empty() {
                    let l = wire::frame_len(s.queue.front().unwrap());
                    if len + l > self.o.pack.min(s.mtu as usize - 28) {
                        break;
                    }
                    len += l;
                    fs.push(s.queue.pop_front().unwrap());
                }
                let n = s.next_seq;
                s.next_seq += 1;
                out.push(wire::frames_pkt(self.o.datagram_id, n, &fs));
                let keep: Vec<Frame> = fs.into_iter().filter(|f| f.rel.reliable()).collect();
                if !keep.is_empty() {
                    s.unacked.insert(n, (keep, now));
                }
            }
        }
        for d in out {
            let _ = self.sock.send_to(&d, remote).await;
        }
    }
}
