//! Harness state of the current run.
use std::cell::RefCell;
use std::fmt::Write as _;
use tokio::sim;

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: String,
    pub class: String,
    pub msg: String,
    pub at: u64,
}

#[derive(Default)]
pub struct H {
    pub prop: String,
    pub violations: Vec<Violation>,
    pub summary: String,
    pub nontrivial: bool,
    pub end: String,
    pub inconclusive: bool,
    /// what the delivery oracles find counts against the property of this run
    pub adopt: bool,
    pub at_start: Option<Box<dyn FnOnce()>>,
}

thread_local! {
    static HS: RefCell<H> = RefCell::new(H::default());
}

pub fn reset(prop: &str) {
    HS.with(|h| *h.borrow_mut() = H { prop: prop.to_string(), ..H::default() });
}
pub fn prop() -> String {
    HS.with(|h| h.borrow().prop.clone())
}
pub fn is(p: &str) -> bool {
    HS.with(|h| h.borrow().prop == p)
}
pub fn take() -> H {
    HS.with(|h| std::mem::take(&mut *h.borrow_mut()))
}
/// Report a violation of property `p`.
pub fn viol(p: &str, class: &str, msg: String) {
    sim::trace(|| format!("VIOLATION {} [{}] {}", p, class, msg));
    let at = sim::now() - 1000 * sim::SEC;
    HS.with(|h| {
        let mut h = h.borrow_mut();
        let (prop, class) = if h.adopt && h.prop != p {
            (h.prop.clone(), format!("{}-{}", p, class))
        } else {
            (p.to_string(), class.to_string())
        };
        if h.violations.len() < 64 {
            h.violations.push(Violation { prop, class, msg, at });
        }
    })
}
pub fn any_violation() -> bool {
    HS.with(|h| {
        let h = h.borrow();
        h.violations.iter().any(|v| v.prop == h.prop)
    })
}
pub fn has(p: &str, class: &str) -> bool {
    HS.with(|h| h.borrow().violations.iter().any(|v| v.prop == p && v.class == class))
}
pub fn note(s: String) {
    HS.with(|h| {
        let mut h = h.borrow_mut();
        if h.summary.len() < 900 {
            let _ = write!(h.summary, "{} ", s);
        }
    })
}
pub fn nontrivial() {
    HS.with(|h| h.borrow_mut().nontrivial = true)
}
pub fn inconclusive(why: &str) {
    sim::probe(&format!("inconclusive:{}", why));
    HS.with(|h| h.borrow_mut().inconclusive = true)
}
/// A scenario could not set up the sessions it is about. On a network that
/// loses nothing that is a failure of the property under check, as no session
/// it speaks of comes about; otherwise the run says nothing.
pub fn no_connect(why: &str) {
    let n = &sim::world().net;
    let d = n.default;
    let clean = d.loss == 0 && d.dup == 0 && d.reorder == 0 && d.burst == 0 && d.rate == 0
        && d.base + d.jitter <= 500_000_000
        && n.links.is_empty() && n.cut.is_empty() && n.io.is_empty() && n.filter.is_none();
    if !clean {
        return inconclusive(why);
    }
    let p = HS.with(|h| h.borrow().prop.clone());
    viol(&p, "no-connection", format!("no session on a network without faults ({})", why));
}
pub fn end(e: String) {
    HS.with(|h| h.borrow_mut().end = e)
}

/// From now on every oracle finding is one of the property under check: its
/// scenario says that the listed guarantees survive what it does.
pub fn adopt() {
    HS.with(|h| h.borrow_mut().adopt = true)
}
/// To be run when the scenario starts.
pub fn at_start(f: Box<dyn FnOnce()>) {
    HS.with(|h| h.borrow_mut().at_start = Some(f))
}
pub fn started() {
    if let Some(f) = HS.with(|h| h.borrow_mut().at_start.take()) {
        f()
    }
}
/// The scenario ran to its end and exercised what it is about.
pub fn done() -> bool {
    HS.with(|h| {
        let h = h.borrow();
        h.nontrivial && !h.inconclusive
    })
}
