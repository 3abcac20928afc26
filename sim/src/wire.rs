//! An independent RakNet codec: strict parser and builder used by the oracles
//! and by the reference peer. Shares no code with the library.
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

static FIRST: AtomicU32 = AtomicU32::new(0);
/// All connections of this run number their packets and frames from here.
pub fn set_first(n: u32) {
    FIRST.store(n, Relaxed);
    rust_raknet::FIRST_NUMBER.store(n, Relaxed);
}
pub fn first() -> u32 {
    FIRST.load(Relaxed)
}
/// The number near the first one that these 24 bits stand for.
fn unwrap24(n: u32) -> u32 {
    let near = first();
    let ahead = n.wrapping_sub(near) & 0xff_ffff;
    if ahead < 0x80_0000 {
        near + ahead
    } else {
        near.checked_sub(0x100_0000 - ahead).unwrap_or(n)
    }
}

pub const MAGIC: [u8; 16] = [
    0x00, 0xff, 0xff, 0x00, 0xfe, 0xfe, 0xfe, 0xfe, 0xfd, 0xfd, 0xfd, 0xfd, 0x12, 0x34, 0x56, 0x78,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Rel {
    U = 0,
    US = 1,
    R = 2,
    RO = 3,
    RS = 4,
}
impl Rel {
    pub fn from(b: u8) -> Option<Rel> {
        Some(match b {
            0 => Rel::U,
            1 => Rel::US,
            2 => Rel::R,
            3 => Rel::RO,
            4 => Rel::RS,
            _ => return None,
        })
    }
    pub fn reliable(self) -> bool {
        matches!(self, Rel::R | Rel::RO | Rel::RS)
    }
    pub fn sequenced(self) -> bool {
        matches!(self, Rel::US | Rel::RS)
    }
    pub fn has_order(self) -> bool {
        matches!(self, Rel::US | Rel::RO | Rel::RS)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Frame {
    pub rel: Rel,
    pub rel_idx: u32,
    pub seq_idx: u32,
    pub ord_idx: u32,
    pub chan: u8,
    /// (count, compound id, index)
    pub frag: Option<(u32, u16, u32)>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum Wire {
    Ping { id: u8, time: i64, guid: u64 },
    Pong { time: i64, guid: u64, motd: Vec<u8> },
    Req1 { proto: u8, len: usize },
    Reply1 { guid: u64, sec: u8, mtu: u16 },
    Req2 { addr: SocketAddr, mtu: u16, guid: u64 },
    Reply2 { guid: u64, addr: SocketAddr, mtu: u16, sec: u8 },
    Already { guid: u64 },
    Incompatible { proto: u8, guid: u64 },
    Disconnect,
    Ack(Vec<(u32, u32)>),
    Nack(Vec<(u32, u32)>),
    Frames { id: u8, seq: u32, frames: Vec<Frame> },
}

pub struct Rd<'a>(pub &'a [u8], pub usize);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.1 + n > self.0.len() {
            return Err(format!("short datagram: want {} bytes at {}, have {}", n, self.1, self.0.len()));
        }
        let s = &self.0[self.1..self.1 + n];
        self.1 += n;
        Ok(s)
    }
    pub fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Result<u16, String> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    pub fn u24le(&mut self) -> Result<u32, String> {
        let b = self.take(3)?;
        Ok(unwrap24(b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16))
    }
    pub fn u32(&mut self) -> Result<u32, String> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    pub fn u64(&mut self) -> Result<u64, String> {
        let b = self.take(8)?;
        Ok(u64::from_be_bytes(b.try_into().unwrap()))
    }
    fn magic(&mut self) -> Result<(), String> {
        if self.take(16)? != MAGIC {
            return Err("bad magic".into());
        }
        Ok(())
    }
    pub fn addr(&mut self) -> Result<SocketAddr, String> {
        match self.u8()? {
            4 => {
                let b = self.take(4)?;
                let ip = Ipv4Addr::new(!b[0], !b[1], !b[2], !b[3]);
                Ok(SocketAddr::new(IpAddr::V4(ip), self.u16()?))
            }
            6 => {
                let fam = self.take(2)?;
                if fam[0] != 23 && fam[0] != 10 {
                    return Err(format!("bad address family {:?}", fam));
                }
                let port = self.u16()?;
                self.u32()?;
                let b: [u8; 16] = self.take(16)?.try_into().unwrap();
                self.u32()?;
                Ok(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(b)), port))
            }
            v => Err(format!("bad address version {}", v)),
        }
    }
    fn rest(&self) -> usize {
        self.0.len() - self.1
    }
    fn end(&self, what: &str) -> Result<(), String> {
        if self.rest() != 0 {
            return Err(format!("{} bytes after {}", self.rest(), what));
        }
        Ok(())
    }
}

fn records(r: &mut Rd) -> Result<Vec<(u32, u32)>, String> {
    let n = r.u16()?;
    let mut v = Vec::new();
    for _ in 0..n {
        match r.u8()? {
            1 => {
                let a = r.u24le()?;
                v.push((a, a));
            }
            0 => {
                let a = r.u24le()?;
                let b = r.u24le()?;
                if b < a {
                    return Err(format!("record range {}..{} is backwards", a, b));
                }
                v.push((a, b));
            }
            x => return Err(format!("bad record type {}", x)),
        }
    }
    Ok(v)
}

pub fn parse(d: &[u8]) -> Result<Wire, String> {
    let mut r = Rd(d, 0);
    let id = r.u8()?;
    let w = match id {
        0x01 | 0x02 => {
            let time = r.u64()? as i64;
            r.magic()?;
            Wire::Ping { id, time, guid: r.u64()? }
        }
        0x1c => {
            let time = r.u64()? as i64;
            let guid = r.u64()?;
            r.magic()?;
            let n = r.u16()? as usize;
            Wire::Pong { time, guid, motd: r.take(n)?.to_vec() }
        }
        0x05 => {
            r.magic()?;
            let proto = r.u8()?;
            if d[r.1..].iter().any(|b| *b != 0) {
                return Err("request 1 padding is not zero".into());
            }
            r.1 = d.len();
            Wire::Req1 { proto, len: d.len() }
        }
        0x06 => {
            r.magic()?;
            Wire::Reply1 { guid: r.u64()?, sec: r.u8()?, mtu: r.u16()? }
        }
        0x07 => {
            r.magic()?;
            Wire::Req2 { addr: r.addr()?, mtu: r.u16()?, guid: r.u64()? }
        }
        0x08 => {
            r.magic()?;
            Wire::Reply2 { guid: r.u64()?, addr: r.addr()?, mtu: r.u16()?, sec: r.u8()? }
        }
        0x12 => {
            r.magic()?;
            Wire::Already { guid: r.u64()? }
        }
        0x19 => {
            let proto = r.u8()?;
            r.magic()?;
            Wire::Incompatible { proto, guid: r.u64()? }
        }
        0x15 => Wire::Disconnect,
        0xc0 => Wire::Ack(records(&mut r)?),
        0xa0 => Wire::Nack(records(&mut r)?),
        0x80..=0x8f => {
            let seq = r.u24le()?;
            let mut frames = Vec::new();
            while r.rest() > 0 {
                frames.push(frame(&mut r)?);
            }
            if frames.is_empty() {
                return Err("frame set without frames".into());
            }
            Wire::Frames { id, seq, frames }
        }
        _ => return Err(format!("unknown packet id {:#x}", id)),
    };
    r.end("packet")?;
    Ok(w)
}

fn frame(r: &mut Rd) -> Result<Frame, String> {
    let fl = r.u8()?;
    let rel = Rel::from(fl >> 5).ok_or_else(|| format!("bad reliability in flags {:#x}", fl))?;
    if fl & 0x0f != 0 {
        return Err(format!("reserved frame flag bits set: {:#x}", fl));
    }
    let bits = r.u16()? as usize;
    if bits % 8 != 0 || bits == 0 {
        return Err(format!("frame length {} bits", bits));
    }
    let rel_idx = if rel.reliable() { r.u24le()? } else { 0 };
    let seq_idx = if rel.sequenced() { r.u24le()? } else { 0 };
    let (ord_idx, chan) = if rel.has_order() { (r.u24le()?, r.u8()?) } else { (0, 0) };
    let frag = if fl & 0x10 != 0 {
        let n = r.u32()?;
        let c = r.u16()?;
        let i = r.u32()?;
        if n == 0 || i >= n {
            return Err(format!("fragment {} of {}", i, n));
        }
        Some((n, c, i))
    } else {
        None
    };
    let data = r.take(bits / 8)?.to_vec();
    Ok(Frame { rel, rel_idx, seq_idx, ord_idx, chan, frag, data })
}

// ---- builder ---------------------------------------------------------------
pub struct Wr(pub Vec<u8>);
impl Wr {
    pub fn new(id: u8) -> Wr {
        Wr(vec![id])
    }
    pub fn u8(mut self, v: u8) -> Wr {
        self.0.push(v);
        self
    }
    pub fn u16(mut self, v: u16) -> Wr {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn u24(mut self, v: u32) -> Wr {
        self.0.extend_from_slice(&v.to_le_bytes()[..3]);
        self
    }
    pub fn u32(mut self, v: u32) -> Wr {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> Wr {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn magic(mut self) -> Wr {
        self.0.extend_from_slice(&MAGIC);
        self
    }
    pub fn bytes(mut self, b: &[u8]) -> Wr {
        self.0.extend_from_slice(b);
        self
    }
    pub fn addr(mut self, a: SocketAddr) -> Wr {
        match a.ip() {
            IpAddr::V4(ip) => {
                self.0.push(4);
                for o in ip.octets() {
                    self.0.push(!o);
                }
                self.u16(a.port())
            }
            IpAddr::V6(ip) => {
                self.0.push(6);
                self.0.extend_from_slice(&[23, 0]);
                self.u16(a.port()).u32(0).bytes(&ip.octets()).u32(0)
            }
        }
    }
}
pub fn ping(id: u8, time: i64, guid: u64) -> Vec<u8> {
    Wr::new(id).u64(time as u64).magic().u64(guid).0
}
pub fn pong(time: i64, guid: u64, motd: &[u8]) -> Vec<u8> {
    Wr::new(0x1c).u64(time as u64).u64(guid).magic().u16(motd.len() as u16).bytes(motd).0
}
pub fn req1(proto: u8, total: usize) -> Vec<u8> {
    let mut v = Wr::new(5).magic().u8(proto).0;
    v.resize(total.max(18), 0);
    v
}
pub fn reply1(guid: u64, mtu: u16) -> Vec<u8> {
    Wr::new(6).magic().u64(guid).u8(0).u16(mtu).0
}
pub fn req2(addr: SocketAddr, mtu: u16, guid: u64) -> Vec<u8> {
    Wr::new(7).magic().addr(addr).u16(mtu).u64(guid).0
}
pub fn reply2(guid: u64, addr: SocketAddr, mtu: u16) -> Vec<u8> {
    Wr::new(8).magic().u64(guid).addr(addr).u16(mtu).u8(0).0
}
pub fn incompatible(proto: u8, guid: u64) -> Vec<u8> {
    Wr::new(0x19).u8(proto).magic().u64(guid).0
}
pub fn records_pkt(id: u8, rs: &[(u32, u32)]) -> Vec<u8> {
    let mut w = Wr::new(id).u16(rs.len() as u16);
    for (a, b) in rs {
        w = if a == b { w.u8(1).u24(*a) } else { w.u8(0).u24(*a).u24(*b) };
    }
    w.0
}
pub fn frame_len(f: &Frame) -> usize {
    3 + if f.rel.reliable() { 3 } else { 0 }
        + if f.rel.sequenced() { 3 } else { 0 }
        + if f.rel.has_order() { 4 } else { 0 }
        + if f.frag.is_some() { 10 } else { 0 }
        + f.data.len()
}
pub fn frames_pkt(id: u8, seq: u32, fs: &[Frame]) -> Vec<u8> {
    let mut w = Wr::new(id).u24(seq);
    for f in fs {
        w = w.u8((f.rel as u8) << 5 | if f.frag.is_some() { 0x10 } else { 0 }).u16((f.data.len() * 8) as u16);
        if f.rel.reliable() {
            w = w.u24(f.rel_idx);
        }
        if f.rel.sequenced() {
            w = w.u24(f.seq_idx);
        }
        if f.rel.has_order() {
            w = w.u24(f.ord_idx).u8(f.chan);
        }
        if let Some((n, c, i)) = f.frag {
            w = w.u32(n).u16(c).u32(i);
        }
        w = w.bytes(&f.data);
    }
    w.0
}
pub fn conn_request(guid: u64, time: i64) -> Vec<u8> {
    Wr::new(9).u64(guid).u64(time as u64).u8(0).0
}
pub fn conn_accepted(client: SocketAddr, internal: usize, req_t: i64, acc_t: i64) -> Vec<u8> {
    let mut w = Wr::new(0x10).addr(client).u16(0);
    for _ in 0..internal {
        w = w.addr("255.255.255.255:19132".parse().unwrap());
    }
    w.u64(req_t as u64).u64(acc_t as u64).0
}
pub fn new_incoming(server: SocketAddr, req_t: i64, acc_t: i64) -> Vec<u8> {
    let mut w = Wr::new(0x13).addr(server);
    for _ in 0..10 {
        w = w.addr("0.0.0.0:0".parse().unwrap());
    }
    w.u64(req_t as u64).u64(acc_t as u64).0
}
pub fn rel_frame(rel: Rel, rel_idx: u32, seq_idx: u32, ord_idx: u32, data: Vec<u8>) -> Frame {
    Frame { rel, rel_idx, seq_idx, ord_idx, chan: 0, frag: None, data }
}

/// Control payloads inside frames, as strict as the datagram parser.
#[derive(Clone, Debug)]
pub enum Ctl {
    ConnReq { guid: u64, time: i64 },
    ConnAcc { client: SocketAddr, index: u16, req: i64, acc: i64 },
    NewIncoming { server: SocketAddr, req: i64, acc: i64 },
    Ping { time: i64 },
    Pong { ping: i64, pong: i64 },
    Disconnect,
    User,
}
pub fn parse_ctl(d: &[u8]) -> Result<Ctl, String> {
    let mut r = Rd(d, 0);
    let c = match r.u8()? {
        0x09 => {
            let guid = r.u64()?;
            let time = r.u64()? as i64;
            r.u8()?;
            Ctl::ConnReq { guid, time }
        }
        0x10 => {
            let client = r.addr()?;
            let index = r.u16()?;
            // 10 or 20 internal addresses, then two timestamps
            while r.rest() > 16 {
                r.addr()?;
            }
            Ctl::ConnAcc { client, index, req: r.u64()? as i64, acc: r.u64()? as i64 }
        }
        0x13 => {
            let server = r.addr()?;
            while r.rest() > 16 {
                r.addr()?;
            }
            Ctl::NewIncoming { server, req: r.u64()? as i64, acc: r.u64()? as i64 }
        }
        0x00 => Ctl::Ping { time: r.u64()? as i64 },
        0x03 => Ctl::Pong { ping: r.u64()? as i64, pong: r.u64()? as i64 },
        0x15 => Ctl::Disconnect,
        0xfe => {
            r.1 = d.len();
            Ctl::User
        }
        x => return Err(format!("unknown payload id {:#x}", x)),
    };
    r.end("payload")?;
    Ok(c)
}
