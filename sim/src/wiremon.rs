//! Watches every datagram library code emits or is handed, through the
//! independent codec: format, MTU, acknowledgement honesty, numbering.
use crate::h;
use crate::wire::{self, *};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::rc::Rc;
use tokio::sim::{self, net, MS, SEC};

#[derive(Default)]
struct Dir {
    /// MTU this sender was told
    mtu: u16,
    /// sequence -> reliable indices it carried
    sent: BTreeMap<u32, Vec<u32>>,
    content: BTreeMap<u32, u64>,
    /// reliable index -> time an acknowledgement of it reached the sender
    acked: BTreeMap<u32, u64>,
    /// sequences delivered to the receiver of this direction
    delivered: BTreeSet<u32>,
    first_delivered: BTreeMap<u32, u64>,
    max_delivered: u32,
    /// those that were newer than all before when they arrived
    in_order: BTreeSet<u32>,
    acks_emitted: BTreeSet<u32>,
    /// numbers a newer one overtook, with the time that one arrived; until the receiver asks for them
    gaps: Vec<(u32, u32, u64)>,
    gone: bool,
    frames: u64,
    resent: u64,
    ord_content: BTreeMap<(u32, u32), u64>,
    fresh_ord: u32,
}
#[derive(Default)]
pub struct Mon {
    dirs: BTreeMap<(SocketAddr, SocketAddr), Dir>,
    lib: BTreeSet<usize>,
    pub datagrams: u64,
    pub acks: u64,
    pub nacks: u64,
    pub resends: u64,
    pub max_len: usize,
    reported: u32,
    /// judge retransmission after acknowledgement (nodes never stalled)
    pub strict_resend: bool,
}
#[derive(Clone)]
pub struct WireMon(pub Rc<RefCell<Mon>>);

fn hash(f: &Frame) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut add = |x: u64| h = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    add(f.rel as u64);
    add(f.seq_idx as u64 | (f.ord_idx as u64) << 32);
    if let Some((a, b, c)) = f.frag {
        add(a as u64 | (b as u64) << 32);
        add(c as u64 + 1);
    }
    for c in f.data.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        add(u64::from_le_bytes(x));
    }
    add(f.data.len() as u64);
    h
}

impl Mon {
    fn v(&mut self, p: &str, class: &str, msg: String) {
        self.reported += 1;
        if self.reported < 10 {
            h::viol(p, class, msg);
        }
    }
    fn sent(&mut self, p: &net::Packet) {
        if !self.lib.contains(&p.src_node) {
            return;
        }
        self.datagrams += 1;
        self.max_len = self.max_len.max(p.data.len());
        let w = match wire::parse(&p.data) {
            Ok(w) => w,
            Err(e) => {
                let m = format!("{} sent a malformed datagram to {}: {} in {}", p.src, p.dst, e, net::hex(&p.data));
                self.v("P18", "malformed", m);
                return;
            }
        };
        let now = sim::now();
        match &w {
            Wire::Reply2 { mtu, .. } | Wire::Req2 { mtu, .. } => self.told((p.src, p.dst), *mtu, false),
            _ => {}
        }
        let fwd = (p.src, p.dst);
        let mtu = {
            let d = self.dirs.entry(fwd).or_default();
            if d.mtu == 0 {
                1400
            } else {
                d.mtu
            }
        } as usize;
        if p.data.len() + 28 > mtu {
            let m = format!("{} sent {} bytes of UDP payload to {}; the connection's MTU is {}", p.src, p.data.len(), p.dst, mtu);
            self.v("P16", "over-mtu", m);
        }
        match w {
            Wire::Ack(rs) => {
                self.acks += 1;
                for (a, b) in rs {
                    for q in a..=b {
                        let ok = {
                            let d = self.dirs.entry((p.dst, p.src)).or_default();
                            d.acks_emitted.insert(q);
                            d.delivered.contains(&q)
                        };
                        if !ok {
                            let m = format!("{} acknowledged datagram {} of {}, which never reached it", p.src, q, p.dst);
                            self.v("P18", "false-ack", m);
                            return;
                        }
                    }
                }
            }
            Wire::Nack(rs) => {
                self.nacks += 1;
                for (a, b) in rs {
                    let early = self.dirs.entry((p.dst, p.src)).or_default().in_order.range(a..=b).next().copied();
                    if let Some(q) = early {
                        let m = format!("{} asked {} for datagram {}, which had arrived before any newer one", p.src, p.dst, q);
                        self.v("P18", "bad-nack", m);
                    }
                    let d = self.dirs.entry((p.dst, p.src)).or_default();
                    for g in std::mem::take(&mut d.gaps) {
                        // what remains of the gap on either side
                        if b < g.0 || a > g.1 {
                            d.gaps.push(g);
                            continue;
                        }
                        if g.0 < a {
                            d.gaps.push((g.0, a - 1, g.2));
                        }
                        if g.1 > b {
                            d.gaps.push((b + 1, g.1, g.2));
                        }
                    }
                    let max = d.max_delivered;
                    if b >= max {
                        let m = format!("{} asked {} for datagram {}, the newest it has seen is {}", p.src, p.dst, b, max);
                        self.v("P18", "bad-nack", m);
                    }
                }
            }
            Wire::Frames { seq, frames, .. } => {
                let strict = self.strict_resend;
                let mut bad = Vec::new();
                let d = self.dirs.entry(fwd).or_default();
                d.frames += 1;
                let rels: Vec<u32> = frames.iter().filter(|f| f.rel.reliable()).map(|f| f.rel_idx).collect();
                if d.sent.insert(seq, rels).is_some() {
                    bad.push(("seq-reused", format!("{} used datagram number {} twice towards {}", p.src, seq, p.dst)));
                }
                let mut res = 0;
                for f in frames.iter().filter(|f| f.rel.reliable()) {
                    let hh = hash(f);
                    match d.content.get(&f.rel_idx) {
                        None => {
                            d.content.insert(f.rel_idx, hh);
                        }
                        Some(x) if *x != hh => bad.push((
                            "index-reused",
                            format!("{} used reliable number {} for two different frames towards {}", p.src, f.rel_idx, p.dst),
                        )),
                        _ => {
                            res += 1;
                            d.resent += 1;
                            if let Some(t) = d.acked.get(&f.rel_idx) {
                                if strict && now > t + 2 * SEC {
                                    bad.push((
                                        "resend-after-ack",
                                        format!(
                                            "{} sent reliable frame {} again {} ms after its acknowledgement arrived",
                                            p.src,
                                            f.rel_idx,
                                            (now - t) / MS
                                        ),
                                    ));
                                }
                            }
                        }
                    }
                }
                self.resends += res;
                for (c, m) in bad {
                    self.v("P18", c, m);
                }
            }
            _ => {}
        }
    }
    /// `who` learnt the MTU of the connection it is setting up.
    fn told(&mut self, who: (SocketAddr, SocketAddr), mtu: u16, fresh: bool) {
        let d = self.dirs.entry(who).or_default();
        if d.frames == 0 {
            d.mtu = if fresh || d.mtu == 0 { mtu } else { d.mtu.min(mtu) };
        }
    }
    fn delivered(&mut self, p: &net::Packet) {
        let w = match wire::parse(&p.data) {
            Ok(w) => w,
            Err(_) => return,
        };
        match w {
            // the answering side sends no more than it was asked for, the
            // asking side no more than it was offered
            Wire::Req2 { mtu, .. } | Wire::Reply1 { mtu, .. } => self.told((p.dst, p.src), mtu, true),
            Wire::Frames { seq, .. } => {
                let d = self.dirs.entry((p.src, p.dst)).or_default();
                if d.delivered.is_empty() {
                    d.in_order.insert(seq);
                    d.max_delivered = seq;
                } else if seq > d.max_delivered {
                    d.in_order.insert(seq);
                    if seq > d.max_delivered + 1 {
                        d.gaps.push((d.max_delivered + 1, seq - 1, sim::now()));
                    }
                    d.max_delivered = seq;
                }
                d.delivered.insert(seq);
                d.first_delivered.entry(seq).or_insert(sim::now());
            }
            Wire::Ack(rs) => {
                let d = self.dirs.entry((p.dst, p.src)).or_default();
                let now = sim::now();
                for (a, b) in rs {
                    for q in a..=b {
                        if let Some(v) = d.sent.get(&q) {
                            for i in v.clone() {
                                d.acked.entry(i).or_insert(now);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    pub fn mtu(&self, from: SocketAddr, to: SocketAddr) -> u16 {
        self.dirs.get(&(from, to)).map(|d| d.mtu).unwrap_or(0)
    }
    /// Datagrams with frames the library nodes have sent.
    pub fn frames(&self) -> u64 {
        self.dirs.values().map(|d| d.frames).sum()
    }
    /// Gaps noticed longer than `grace` ago that were never asked for.
    pub fn unasked(&self, from: SocketAddr, to: SocketAddr, grace: u64) -> Vec<(u32, u32)> {
        match self.dirs.get(&(from, to)) {
            None => vec![],
            Some(d) => d.gaps.iter().filter(|g| sim::now() > g.2 + grace).map(|g| (g.0, g.1)).collect(),
        }
    }
    /// Datagrams delivered for longer than `grace` that were never acknowledged.
    pub fn unacked(&self, from: SocketAddr, to: SocketAddr, grace: u64) -> Vec<u32> {
        match self.dirs.get(&(from, to)) {
            None => vec![],
            Some(d) => d
                .first_delivered
                .iter()
                .filter(|(q, t)| sim::now() > **t + grace && !d.acks_emitted.contains(q))
                .map(|x| *x.0)
                .collect(),
        }
    }
}

impl WireMon {
    /// Watch the datagrams of the given (library) nodes.
    pub fn attach(lib: &[usize]) -> WireMon {
        let m = WireMon(Rc::new(RefCell::new(Mon::default())));
        m.0.borrow_mut().lib = lib.iter().copied().collect();
        let a = m.clone();
        sim::world().net.on_send = Some(Box::new(move |p| a.0.borrow_mut().sent(p)));
        let b = m.clone();
        sim::world().net.on_deliver = Some(Box::new(move |p| b.0.borrow_mut().delivered(p)));
        m
    }
}
