//! History of one direction of one connection, checked against the reference
//! delivery model: ordered = FIFO consistent with real time, reliable = exactly
//! once, sequenced = monotone with superseded losses, unreliable = no invention.
use crate::h;
use crate::wire::Rel;
use rust_raknet::Reliability;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use tokio::sim;

thread_local! {
    static OP: Cell<u64> = const { Cell::new(1) };
}
/// A point in the real-time order of API events.
pub fn op() -> u64 {
    OP.with(|o| {
        o.set(o.get() + 1);
        o.get()
    })
}

pub fn reliability(r: Rel) -> Reliability {
    match r {
        Rel::U => Reliability::Unreliable,
        Rel::US => Reliability::UnreliableSequenced,
        Rel::R => Reliability::Reliable,
        Rel::RO => Reliability::ReliableOrdered,
        Rel::RS => Reliability::ReliableSequenced,
    }
}

pub fn fill(tag: u32, id: u32, out: &mut [u8]) {
    let mut x = ((tag as u64) << 32 | id as u64) ^ 0x5851_F42D_4C95_7F2D;
    for c in out.chunks_mut(8) {
        let v = sim::choice::splitmix(&mut x).to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
}
pub const HDR: usize = 9;
/// 0xfe, tag, id, pseudo-random body; under nine bytes only pseudo-random.
pub fn payload(tag: u32, id: u32, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len.max(1)];
    fill(tag, id, &mut v);
    v[0] = 0xfe;
    if len >= HDR {
        v[1..5].copy_from_slice(&tag.to_be_bytes());
        v[5..9].copy_from_slice(&id.to_be_bytes());
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fate {
    Pending,
    Ok,
    /// refused by argument validation
    Refused,
    /// the call failed because the connection is closed
    Closed,
    Cancelled,
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub rel: Rel,
    pub len: usize,
    pub begin: u64,
    pub end: u64,
    pub t0: u64,
    pub t1: u64,
    pub fate: Fate,
    pub got: u32,
    pub got_op: u64,
    pub got_t: u64,
}

#[derive(Default)]
pub struct FlowS {
    pub name: String,
    pub tag: u32,
    pub msgs: Vec<Msg>,
    pub order: Vec<u32>,
    /// network duplicates in this direction (upper bound for extra copies of
    /// unreliable messages)
    pub dups: u64,
    pub extra: u64,
    pub last_got: u64,
    pub muted: bool,
    /// short payloads are matched in send order
    pub single_sender: bool,
    pub bad: u32,
}

#[derive(Clone)]
pub struct Flow(pub Rc<RefCell<FlowS>>);

thread_local! {
    static TAGS: RefCell<Vec<(u32, String)>> = const { RefCell::new(Vec::new()) };
}
pub fn reset() {
    OP.with(|o| o.set(1));
    TAGS.with(|t| t.borrow_mut().clear());
}

impl Flow {
    pub fn new(name: &str) -> Flow {
        let tag = TAGS.with(|t| {
            let mut t = t.borrow_mut();
            let tag = 0xA100_0000 | (t.len() as u32 + 1) * 0x101;
            t.push((tag, name.to_string()));
            tag
        });
        Flow(Rc::new(RefCell::new(FlowS { name: name.into(), tag, single_sender: true, ..FlowS::default() })))
    }
    pub fn tag(&self) -> u32 {
        self.0.borrow().tag
    }
    pub fn len(&self) -> usize {
        self.0.borrow().msgs.len()
    }
    /// Begin a send call: returns id and payload.
    pub fn begin(&self, rel: Rel, len: usize) -> (u32, Vec<u8>) {
        let mut s = self.0.borrow_mut();
        let id = s.msgs.len() as u32;
        s.msgs.push(Msg {
            rel,
            len,
            begin: op(),
            end: 0,
            t0: sim::now(),
            t1: 0,
            fate: Fate::Pending,
            got: 0,
            got_op: 0,
            got_t: 0,
        });
        (id, payload(s.tag, id, len))
    }
    pub fn end(&self, id: u32, fate: Fate) {
        let mut s = self.0.borrow_mut();
        let m = &mut s.msgs[id as usize];
        m.fate = fate;
        m.end = op();
        m.t1 = sim::now();
    }
    fn v(&self, p: &str, class: &str, msg: String) {
        let mut s = self.0.borrow_mut();
        s.bad += 1;
        if s.bad > 8 {
            return;
        }
        let n = s.name.clone();
        drop(s);
        h::viol(p, class, format!("{}: {}", n, msg));
    }
    fn vs(&self, ps: &[&str], class: &str, msg: String) {
        for p in ps {
            self.v(p, class, msg.clone());
        }
    }
    /// A payload came out of recv() on the receiving side.
    pub fn received(&self, d: &[u8]) {
        let o = op();
        let (tag, muted) = {
            let s = self.0.borrow();
            (s.tag, s.muted)
        };
        if muted {
            return;
        }
        sim::trace(|| format!("app {} got {} bytes {}", self.0.borrow().name, d.len(), sim::net::hex(d)));
        let id;
        if d.len() < HDR {
            // short message: the oldest undelivered ordered one
            let n = {
                let s = self.0.borrow();
                s.msgs.iter().position(|m| m.rel == Rel::RO && m.got == 0 && m.fate != Fate::Refused)
            };
            match n {
                Some(i) => {
                    let want = { payload(tag, i as u32, self.0.borrow().msgs[i].len) };
                    if want != d {
                        let want_len = want.len();
                        self.vs(
                            &["P01", "P04"],
                            "short-mismatch",
                            format!(
                                "received {} which is not the next ordered message (#{} of {} bytes)",
                                sim::net::hex(d),
                                i,
                                want_len
                            ),
                        );
                        return;
                    }
                    id = i as u32;
                }
                None => {
                    self.vs(&["P04", "P01"], "invented", format!("received {} that nobody sent", sim::net::hex(d)));
                    return;
                }
            }
        } else {
            let t = u32::from_be_bytes(d[1..5].try_into().unwrap());
            id = u32::from_be_bytes(d[5..9].try_into().unwrap());
            if t != tag {
                let other = TAGS.with(|x| x.borrow().iter().find(|y| y.0 == t).map(|y| y.1.clone()));
                match other {
                    Some(n) => self.v("P04", "crosstalk", format!("received a message of {}", n)),
                    None => self.v("P04", "invented", format!("received {} that nobody sent", sim::net::hex(d))),
                }
                return;
            }
            let len = match self.0.borrow().msgs.get(id as usize) {
                Some(m) => m.len,
                None => usize::MAX,
            };
            if len == usize::MAX {
                self.v("P04", "invented", format!("received message #{} that was never sent", id));
                return;
            }
            let want = payload(tag, id, len);
            if want != d {
                let rel = self.0.borrow().msgs[id as usize].rel;
                let at = want.iter().zip(d.iter()).position(|(a, b)| a != b).unwrap_or(want.len().min(d.len()));
                let m = format!(
                    "message #{} ({:?}, {} bytes) arrived as {} bytes, first difference at offset {}",
                    id,
                    rel,
                    len,
                    d.len(),
                    at
                );
                if rel == Rel::RO {
                    self.vs(&["P04", "P01"], "corrupt", m);
                } else {
                    self.v("P04", "corrupt", m);
                }
                return;
            }
        }
        // bookkeeping, then the order rules
        let (m, first) = {
            let mut s = self.0.borrow_mut();
            s.last_got = sim::now();
            s.order.push(id);
            let m = &mut s.msgs[id as usize];
            m.got += 1;
            if m.got == 1 {
                m.got_op = o;
                m.got_t = sim::now();
            }
            let m = m.clone();
            let f = m.got == 1;
            (m, f)
        };
        if m.fate == Fate::Refused {
            self.v("P04", "refused-delivered", format!("message #{} was refused by send() but delivered", id));
        }
        match m.rel {
            Rel::RO => {
                if !first {
                    self.v("P01", "duplicate", format!("ordered message #{} delivered {} times", id, m.got));
                    return;
                }
                let bad = {
                    let s = self.0.borrow();
                    s.msgs
                        .iter()
                        .position(|x| x.rel == Rel::RO && x.got == 0 && x.fate == Fate::Ok && x.end < m.begin)
                };
                if let Some(b) = bad {
                    self.v(
                        "P01",
                        "order",
                        format!("ordered message #{} delivered before #{}, whose send had completed first", id, b),
                    );
                }
            }
            Rel::R => {
                if !first {
                    self.v("P02", "duplicate", format!("reliable message #{} delivered {} times", id, m.got));
                }
            }
            Rel::US | Rel::RS => {
                if !first {
                    self.v("P03", "duplicate", format!("sequenced message #{} delivered {} times", id, m.got));
                    return;
                }
                let bad = {
                    let s = self.0.borrow();
                    s.msgs.iter().enumerate().find(|(i, x)| {
                        *i as u32 != id && x.rel.sequenced() && x.got > 0 && m.fate == Fate::Ok && m.end < x.begin
                    }).map(|x| x.0)
                };
                if let Some(b) = bad {
                    self.v(
                        "P03",
                        "order",
                        format!("sequenced message #{} delivered after #{}, which was sent later", id, b),
                    );
                }
            }
            Rel::U => {
                if !first {
                    let mut s = self.0.borrow_mut();
                    s.extra += 1;
                    let (e, d) = (s.extra, s.dups);
                    drop(s);
                    if e > d {
                        self.v(
                            "P04",
                            "unreliable-copies",
                            format!("unreliable message #{} delivered {} times; the network made {} copies of datagrams", id, m.got, d),
                        );
                    }
                }
            }
        }
    }
    /// Messages whose delivery is owed: (id, what).
    pub fn owed(&self) -> Vec<(u32, Rel)> {
        self.owed_before(u64::MAX)
    }
    /// Owed among the messages whose send completed before `o`.
    pub fn owed_before(&self, o: u64) -> Vec<(u32, Rel)> {
        let s = self.0.borrow();
        let mut v = Vec::new();
        for (i, m) in s.msgs.iter().enumerate() {
            if m.fate != Fate::Ok || m.got > 0 || m.end >= o {
                continue;
            }
            match m.rel {
                Rel::R | Rel::RO => v.push((i as u32, m.rel)),
                Rel::RS => {
                    // superseded by a delivered sequenced message not sent before it
                    let sup = s.msgs.iter().any(|x| x.rel.sequenced() && x.got > 0 && x.end > m.begin);
                    if !sup {
                        v.push((i as u32, m.rel));
                    }
                }
                _ => {}
            }
        }
        v
    }
    pub fn settled(&self) -> bool {
        self.owed().is_empty() && self.0.borrow().msgs.iter().all(|m| m.fate != Fate::Pending)
    }
    pub fn delivered(&self) -> usize {
        self.0.borrow().order.len()
    }
    pub fn brief(&self) -> String {
        let s = self.0.borrow();
        format!("{}:{}/{}", s.name, s.order.len(), s.msgs.len())
    }
    pub fn describe_owed(&self, v: &[(u32, Rel)]) -> String {
        let s = self.0.borrow();
        let mut t = String::new();
        for (i, r) in v.iter().take(4) {
            let m = &s.msgs[*i as usize];
            t.push_str(&format!("#{} {:?} {}B sent at {} ms; ", i, r, m.len, (m.t1 - 1000 * sim::SEC) / sim::MS));
        }
        format!("{} of {} messages missing: {}", v.len(), s.msgs.len(), t)
    }
}
