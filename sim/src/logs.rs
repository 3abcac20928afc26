//! P27: the library's log only observes. Scenarios of other properties with the
//! log switched on, off and over at any time, and the place it is printed to failing.
use crate::conn;
use crate::h;
use crate::hostile;
use crate::interpose::sys;
use crate::iso;
use crate::kit::*;
use crate::life;
use crate::misc;
use crate::multi;
use crate::session::{self, Sess};
use crate::wire::Rel;
use crate::wirep;
use std::io::Read;
use std::os::fd::FromRawFd;
use tokio::sim::{self, chance, pick, range, S};
use tokio::time::sleep;

const ALL: &[Rel] = &[Rel::RO, Rel::R, Rel::RS, Rel::US, Rel::U];
const KINDS: [(&str, u8); 3] = [("debug", 1), ("error", 2), ("info", 4)];

extern "C" {
    fn memfd_create(name: *const i8, flags: u32) -> i32;
}

/// Run a scenario that connects with logging.
fn with(np: bool, scen: fn(bool)) {
    with_log(np, scen, true)
}
fn with_log(np: bool, scen: fn(bool), connects: bool) {
    let first = pick(S::Plan, &[255u8, 1, 3, 7, 2, 4, 6, 5, 0, 1]);
    let switch = chance(S::Plan, 400_000);
    let broken = chance(S::Plan, 150_000);
    let never = if first == 0 { !switch } else { false };
    h::note(format!("log={} switch={} broken={}", first, switch, broken));
    let mem = unsafe { memfd_create(c"log".as_ptr(), 0) };
    if mem < 0 {
        return h::inconclusive("memfd");
    }
    unsafe { sys::dup2(mem, 1) };
    rust_raknet::enable_raknet_log(first);
    let used = std::rc::Rc::new(std::cell::Cell::new(first));
    let u2 = used.clone();
    h::at_start(Box::new(move || {
        h::adopt();
        sim::spawn_on(0, async move {
            for _ in 0..40 {
                if !switch && !broken {
                    return;
                }
                sleep(ms(range(S::Fault, 1, 3000))).await;
                if switch {
                    let f = pick(S::Fault, &[0u8, 1, 2, 4, 7, 255]);
                    u2.set(u2.get() | f);
                    rust_raknet::enable_raknet_log(f);
                    sim::probe("log_switched");
                }
                if broken && chance(S::Fault, 500_000) {
                    // the disk the output goes to is full
                    unsafe {
                        let n = sys::open(c"/dev/full".as_ptr(), 1);
                        sys::dup2(n, 1);
                        sys::close(n);
                    }
                    sim::probe("log_output_fails");
                }
            }
        });
    }));
    scen(np);
    check_panics(&["P27"]);
    let mut text = Vec::new();
    let mut f = unsafe { std::fs::File::from_raw_fd(mem) };
    let _ = std::io::Seek::rewind(&mut f);
    let _ = f.read_to_end(&mut text);
    std::mem::forget(f);
    let text = String::from_utf8_lossy(&text);
    let mut count = [0u64; 3];
    for line in text.lines() {
        for (i, (k, bit)) in KINDS.iter().enumerate() {
            if line.starts_with(&format!("{} - ", k)) {
                count[i] += 1;
                if used.get() & bit == 0 && count[i] == 1 {
                    h::viol("P27", "log-not-enabled", format!("flags {:#x}, but {:?} was printed", used.get(), line));
                }
            }
        }
    }
    if never && !text.is_empty() {
        h::viol("P27", "log-not-enabled", format!("logging is off, but {:?} was printed", text.lines().next()));
    }
    for (i, n) in count.iter().enumerate() {
        sim::probe_n(["log_debug_lines", "log_error_lines", "log_info_lines"][i], *n);
    }
    if connects && first & 1 == 1 && !switch && !broken && count[0] == 0 && h::done() {
        h::viol("P27", "log-empty", "the debug log is on and a connection came and went, nothing was printed".into());
    }
}

pub fn mix(np: bool) {
    with(np, |np| session::run(np, Sess { mix: ALL, monitor: true, max_clients: 2, ..Sess::default() }))
}
pub fn outage(np: bool) {
    with(np, |np| session::outage(np, ALL))
}
pub fn flush(np: bool) {
    with(np, misc::p06)
}
pub fn connect(np: bool) {
    with(np, conn::p07)
}
pub fn cancel(np: bool) {
    with(np, conn::p20)
}
pub fn reconnect(np: bool) {
    with(np, conn::p21)
}
pub fn close(np: bool) {
    with(np, life::p09)
}
pub fn death(np: bool) {
    with(np, life::p10)
}
pub fn listener_close(np: bool) {
    with(np, life::p12)
}
pub fn isolation(np: bool) {
    with(np, iso::p11)
}
pub fn damaged(np: bool) {
    with(np, hostile::p14_session)
}

pub fn wire(np: bool) {
    with(np, wirep::p18_peer)
}
pub fn interop(np: bool) {
    with(np, wirep::p19)
}
pub fn mtu(np: bool) {
    with(np, wirep::p16)
}
pub fn recovery(np: bool) {
    with(np, wirep::p22)
}
pub fn nack(np: bool) {
    with(np, wirep::p22_nack)
}
pub fn rate(np: bool) {
    with(np, wirep::p23)
}
pub fn multi(np: bool) {
    with_log(np, multi::p28, false)
}
pub fn ping(np: bool) {
    with_log(np, misc::p17, false)
}
pub fn version(np: bool) {
    with_log(np, conn::p08, false)
}
pub fn spoof(np: bool) {
    with_log(np, hostile::p15, false)
}
pub fn noise(np: bool) {
    with_log(np, hostile::p14_listener, false)
}
pub fn abuse(np: bool) {
    with_log(np, hostile::p14_abuse, false)
}
pub fn hostile_server(np: bool) {
    with_log(np, hostile::p14_client, false)
}
pub fn death_in_handshake(np: bool) {
    with_log(np, life::p10_connect, false)
}
pub fn backlog(np: bool) {
    with(np, |np| session::backlog(np, ALL))
}
