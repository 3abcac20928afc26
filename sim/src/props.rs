//! Properties, their scenarios and run counts.
use crate::conn;
use crate::hostile;
use crate::iso;
use crate::logs;
use crate::multi;
use crate::prompt;
use crate::wirep;
use crate::life;
use crate::misc;
use crate::session::{self, Sess};
use crate::kit::Hit;
use crate::wire::Rel;
use crate::wrap;

pub type ScenFn = fn(bool);
pub struct Prop {
    pub id: &'static str,
    pub scens: &'static [(u32, &'static str, ScenFn)],
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub probes: &'static [&'static str],
    /// an abnormal end (endless loop, memory, lock) counts against the property
    pub abnormal: Option<&'static str>,
}

const ALL: &[Rel] = &[Rel::RO, Rel::R, Rel::RS, Rel::US, Rel::U];

fn sess_ro(np: bool) {
    session::run(np, Sess { mix: &[Rel::RO], ..Sess::default() })
}
fn sess_r(np: bool) {
    session::run(np, Sess { mix: &[Rel::R], ..Sess::default() })
}
fn sess_seq(np: bool) {
    session::run(np, Sess { mix: &[Rel::RS, Rel::US, Rel::RS], ..Sess::default() })
}
fn sess_mix(np: bool) {
    session::run(np, Sess { mix: ALL, ..Sess::default() })
}

fn out_ro(np: bool) {
    session::outage(np, &[Rel::RO])
}
fn out_r(np: bool) {
    session::outage(np, &[Rel::R])
}
fn out_seq(np: bool) {
    session::outage(np, &[Rel::RS, Rel::US, Rel::RS])
}
fn out_mix(np: bool) {
    session::outage(np, ALL)
}

fn backlog_ro(np: bool) {
    session::backlog(np, &[Rel::RO])
}
fn backlog_r(np: bool) {
    session::backlog(np, &[Rel::R])
}
fn backlog_seq(np: bool) {
    session::backlog(np, &[Rel::RS, Rel::US, Rel::RS])
}
fn backlog_mix(np: bool) {
    session::backlog(np, ALL)
}

pub static PROPS: &[Prop] = &[
    Prop { id: "P01", scens: &[(60, "sess_ro", sess_ro), (20, "sess_mix", sess_mix), (10, "outage_ro", out_ro), (12, "backlog_ro", backlog_ro), (6, "backlog_mix", backlog_mix), (6, "huge", session::huge)], quick: 18000, thorough: 600000, rule: "Scenario: 1-3 clients and a listener, every endpoint with 1-3 concurrent senders of ReliableOrdered messages (1 byte to 30 kB, fragmented and whole, in a few runs up to 4 MB; some runs mix all reliabilities), one-way and two-way cuts, stalls, clock steps, send errors, full socket buffers, small receive buffers.", probes: &[], abnormal: None },
    Prop { id: "P02", scens: &[(60, "sess_r", sess_r), (20, "sess_mix", sess_mix), (10, "outage_r", out_r), (12, "backlog_r", backlog_r), (6, "backlog_mix", backlog_mix)], quick: 16000, thorough: 800000, rule: "Scenario: as P01 with Reliable messages only (three runs in four) or all reliabilities.", probes: &[], abnormal: None },
    Prop { id: "P03", scens: &[(60, "sess_seq", sess_seq), (20, "sess_mix", sess_mix), (10, "outage_seq", out_seq), (12, "backlog_seq", backlog_seq), (6, "backlog_mix", backlog_mix)], quick: 16000, thorough: 800000, rule: "Scenario: as P01 with the two sequenced reliabilities (three runs in four) or all reliabilities.", probes: &[], abnormal: None },
    Prop { id: "P04", scens: &[(100, "sess_mix", sess_mix), (6, "backlog_mix", backlog_mix)], quick: 20000, thorough: 900000, rule: "Scenario: as P01 with all five reliabilities and refused sends; every delivered byte is compared with what was sent on that connection.", probes: &[], abnormal: None },
    Prop { id: "P05", scens: &[(80, "sess_mix", sess_mix), (20, "outage_mix", out_mix), (6, "backlog_mix", backlog_mix)], quick: 20000, thorough: 900000, rule: "Scenario: as P01 with all five reliabilities; faults stop and everything owed must arrive within a bounded time, send() and flush() return.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P06", scens: &[(1, "flush", misc::p06)], quick: 30000, thorough: 1200000, rule: "Scenario: one connection, 1-5 rounds of messages then flush() under loss, reordering, outages and concurrent senders; after the last successful flush the sender crashes, is cut off, closes or drops the socket.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P17", scens: &[(1, "ping", misc::p17)], quick: 90000, thorough: 2000000, rule: "Scenario: pings from several clients and raw pings while the motd changes and clocks step.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P24", scens: &[(1, "loss_stage", misc::p24)], quick: 30000, thorough: 1500000, rule: "Scenario: set_loss_rate at stages 5..10 on one end, counted, then two-way traffic.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P07", scens: &[(1, "connect", conn::p07)], quick: 20000, thorough: 1000000, rule: "Scenario: several clients connecting at the same time as faults on every handshake datagram (loss, duplication, reordering, outages, late listener).", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P08", scens: &[(1, "version", conn::p08)], quick: 30000, thorough: 1200000, rule: "Scenario: clients with supported and unsupported protocol versions against listeners, and against a reference server that refuses.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P09", scens: &[(4, "close", life::p09), (1, "turned_away", life::p09_turned_away)], quick: 50000, thorough: 1500000, rule: "Scenario: traffic in progress, then close()/drop on either or both ends, at any point of a transfer; sockets dropped as soon as accept() returns them.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P10", scens: &[(4, "death", life::p10), (1, "death_in_handshake", life::p10_connect)], quick: 12000, thorough: 600000, rule: "Scenario: long-lived sparse traffic with outages below the timeout and clock steps, then a crash, freeze or permanent cut of the peer, also inside the handshake.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P11", scens: &[(1, "isolation", iso::p11)], quick: 5000, thorough: 250000, rule: "Scenario: a healthy connection next to connections whose peers or applications do not read, crash, abuse the protocol or flood.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P12", scens: &[(1, "listener_close", life::p12)], quick: 30000, thorough: 1000000, rule: "Scenario: listener closed with connections in every phase (handshake, accepted, queued, closing), then the port is bound again.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P13", scens: &[(3, "cycles", life::p13), (1, "memory", life::p13_mem)], quick: 3000, thorough: 150000, rule: "Scenario: many connect/transfer/end cycles (every way to end), then tasks, sockets and heap are compared with the start.", probes: &[], abnormal: Some("memory") },
    Prop { id: "P14", scens: &[(2, "noise_listener", hostile::p14_listener), (3, "damaged_session", hostile::p14_session), (2, "abuse", hostile::p14_abuse), (2, "hostile_server", hostile::p14_client)], quick: 24000, thorough: 1200000, rule: "Scenario: damaged, truncated, random and structurally malformed datagrams to listeners, sessions and connecting clients, from strangers and from the peer.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P15", scens: &[(4, "spoof", hostile::p15), (1, "spoof_dead", hostile::p15_dead)], quick: 20000, thorough: 1000000, rule: "Scenario: well-formed datagrams with a forged or foreign source address to sessions and connecting clients.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P20", scens: &[(1, "cancel", conn::p20)], quick: 12000, thorough: 600000, rule: "Scenario: connect, accept, send, recv and flush futures dropped at arbitrary poll points, then the connection is used.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P21", scens: &[(1, "reconnect", conn::p21)], quick: 24000, thorough: 1200000, rule: "Scenario: the same address (and guid) connects again after a crash, close or drop, repeatedly.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P16", scens: &[(1, "mtu", wirep::p16)], quick: 22000, thorough: 800000, rule: "Scenario: library against the reference peer with negotiated MTUs 400..65535, messages around every size boundary, long acknowledgement and missing-packet lists; every datagram is measured.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P18", scens: &[(2, "wire", wirep::p18), (2, "wire_peer", wirep::p18_peer)], quick: 14000, thorough: 700000, rule: "Scenario: every datagram of library endpoints goes through an independent decoder and bookkeeping (numbers, acknowledgements, requests for retransmission).", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P19", scens: &[(300, "interop", wirep::p19), (100, "ipv6", wirep::p19_v6), (1, "long_history", wirep::long_history)], quick: 22000, thorough: 800000, rule: "Scenario: library as client or server against an independent RakNet implementation with other packing, header ids, timing, address families; histories of up to 150000 messages in one run of 400.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P22", scens: &[(2, "recovery", wirep::p22), (1, "nack", wirep::p22_nack)], quick: 40000, thorough: 2000000, rule: "Scenario: round-trip time below 50 ms, the first one to three transmissions of one or all messages of a burst, or their acknowledgements, are lost; datagrams lost up to 11 times that the peer then reports missing.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P23", scens: &[(3, "retransmission", wirep::p23), (1, "handshake_rate", wirep::p23_connect)], quick: 30000, thorough: 1500000, rule: "Scenario: loss-free network with round-trip times of 1..400 ms, or outages of 3..42 s; handshakes with stray datagrams; transmissions are counted.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P25", scens: &[(90, "wrap_mix", wrap::sess), (90, "wrap_ordered", wrap::ordered), (30, "wrap_outage", wrap::outage), (60, "wrap_interop", wrap::interop), (60, "wrap_wire", wrap::wire_peer), (30, "wrap_recovery", wrap::recovery), (30, "wrap_nack", wrap::nack), (30, "wrap_flush", wrap::flush), (30, "wrap_abuse", wrap::abuse), (30, "wrap_damaged", wrap::damaged), (8, "resends", wrap::resends), (1, "long_history", wirep::long_history), (3, "long_mix", wrap::long_mix), (0, "wrap_real", wrap::real)], quick: 16000, thorough: 800000, rule: "Scenario: scenarios of P01..P06, P14, P18, P19 and P22 on connections whose packets and frames are numbered from 1..300 before an overflow of 15, 16, 23 or 24 bits; in one run of a hundred over 65536 real messages on a connection, or one message resent up to 65600 times.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P26", scens: &[(1, "prompt", prompt::p26)], quick: 16000, thorough: 800000, rule: "Scenario: clean network with round-trip times of 0.2..300 ms; pings, connects, bursts and flushes both ways, idle pauses, closes and drops, listener close: every duration is measured.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P27", scens: &[(4, "log_mix", logs::mix), (1, "log_outage", logs::outage), (1, "log_flush", logs::flush), (1, "log_connect", logs::connect), (1, "log_cancel", logs::cancel), (1, "log_reconnect", logs::reconnect), (2, "log_close", logs::close), (1, "log_death", logs::death), (2, "log_listener_close", logs::listener_close), (1, "log_isolation", logs::isolation), (2, "log_damaged", logs::damaged), (1, "log_wire", logs::wire), (1, "log_interop", logs::interop), (1, "log_mtu", logs::mtu), (1, "log_recovery", logs::recovery), (1, "log_nack", logs::nack), (1, "log_rate", logs::rate), (1, "log_multi", logs::multi), (1, "log_ping", logs::ping), (1, "log_version", logs::version), (1, "log_spoof", logs::spoof), (1, "log_noise", logs::noise), (1, "log_abuse", logs::abuse), (1, "log_hostile_server", logs::hostile_server), (1, "log_handshake_death", logs::death_in_handshake), (1, "log_backlog", logs::backlog)], quick: 24000, thorough: 1200000, rule: "Scenario: scenarios of the other properties with the log switched between all its flags at any time and output that fails; what is printed is compared with the flags.", probes: &[], abnormal: Some("stuck") },
    Prop { id: "P28", scens: &[(2, "multi", multi::p28), (1, "relay", multi::relay)], quick: 30000, thorough: 800000, rule: "Scenario: several listeners and clients in one process on one host, also connected to each other; one listener or connection ends in the middle of the traffic of the others; a proxy between clients and a backend.", probes: &[], abnormal: Some("stuck") },
];

pub fn find(prop: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == prop).expect("property")
}
pub fn scenario(prop: &str, scen: &str) -> ScenFn {
    for p in PROPS.iter().filter(|p| p.id == prop).chain(PROPS.iter()) {
        for s in p.scens {
            if s.1 == scen {
                return s.2;
            }
        }
    }
    panic!("no scenario {}", scen)
}
pub fn pick_scenario(prop: &str, i: u64) -> String {
    let p = find(prop);
    let total: u64 = p.scens.iter().map(|s| s.0 as u64).sum();
    let mut x = (i * 7919) % total;
    for s in p.scens {
        if x < s.0 as u64 {
            return s.1.to_string();
        }
        x -= s.0 as u64;
    }
    unreachable!()
}
pub fn abnormal_class(prop: &str) -> Option<&'static str> {
    PROPS.iter().find(|p| p.id == prop).and_then(|p| p.abnormal)
}
