//! All kinds of scenarios behind one interface.
use crate::hist::*;
use crate::mq::*;
use crate::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use tokio::sim::{self, Decider, Rng};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "kind")]
pub enum Scn {
    Broker(bscn::BScn),
    Stream(sscn::SScn),
    Client(cscn::CScn),
    E2e(escn::EScn),
    Tls(tscn::TScn),
}

pub struct RunRes {
    pub viols: Vec<Violation>,
    pub stats: sim::Stats,
    pub trace: Vec<(u64, u32)>,
    pub lines: Vec<String>,
    pub end: sim::End,
    pub events: u64,
    pub reached: BTreeSet<&'static str>,
}

impl Scn {
    pub fn run(&self, dec: Decider, entropy: u64, lines: bool) -> RunRes {
        match self {
            Scn::Broker(s) => {
                let out = bscn::run(s, dec, entropy);
                let h = boracle::H::new(s, &out);
                let viols = h.check();
                RunRes {
                    viols,
                    reached: reached_broker(s, &out.hist),
                    lines: if lines { show(&out.hist, 600) } else { vec![] },
                    end: out.end,
                    events: out.hist.len() as u64,
                    stats: out.stats,
                    trace: out.trace,
                }
            }
            Scn::Client(s) => {
                let out = cscn::run(s, dec, entropy);
                let viols = coracle::CO::new(s, &out).check();
                RunRes {
                    viols,
                    reached: coracle::reached(s, &out),
                    lines: if lines { show(&out.hist, 600) } else { vec![] },
                    end: out.end,
                    events: out.hist.len() as u64,
                    stats: out.stats,
                    trace: out.trace,
                }
            }
            Scn::E2e(s) => {
                let out = escn::run(s, dec, entropy);
                RunRes {
                    viols: out.viols,
                    reached: if out.reached { ["E01"].into() } else { Default::default() },
                    lines: if lines { out.lines } else { vec![] },
                    end: out.end,
                    events: out.events,
                    stats: out.stats,
                    trace: out.trace,
                }
            }
            Scn::Tls(s) => {
                let out = tscn::run(s, dec, entropy);
                let id = if s.clients.is_empty() { "B19" } else { "C11" };
                RunRes {
                    viols: out.viols,
                    reached: if out.reached { [id].into() } else { Default::default() },
                    lines: if lines { out.lines } else { vec![] },
                    end: out.end,
                    events: out.events,
                    stats: out.stats,
                    trace: out.trace,
                }
            }
            Scn::Stream(s) => {
                let out = sscn::run(s, dec, entropy);
                RunRes {
                    viols: out.viols,
                    reached: if out.got > 0 { ["B17"].into() } else { Default::default() },
                    lines: if lines { out.lines } else { vec![] },
                    end: out.end,
                    events: out.got as u64,
                    stats: out.stats,
                    trace: out.trace,
                }
            }
        }
    }
}

/// Which properties the run gave something to decide.
fn reached_broker(scn: &bscn::BScn, h: &[Ev]) -> BTreeSet<&'static str> {
    let mut s = BTreeSet::new();
    let mut cids: Vec<(String, usize)> = vec![];
    let mut closed: BTreeSet<usize> = BTreeSet::new();
    let mut wills: BTreeSet<usize> = BTreeSet::new();
    let mut limited: BTreeSet<usize> = BTreeSet::new();
    let mut connected: BTreeSet<usize> = BTreeSet::new();
    let mut q1: std::collections::BTreeMap<usize, u64> = Default::default();
    for e in h {
        match &e.k {
            K::Send(Pk::Connect(c)) => {
                if !connected.insert(e.conn) {
                    s.insert("B15");
                }
                if cids.iter().any(|x| x.0 == c.cid) {
                    s.insert("B08");
                    s.insert("B09");
                    if cids.iter().any(|x| x.0 == c.cid && !closed.contains(&x.1)) {
                        s.insert("B06");
                    }
                }
                cids.push((c.cid.clone(), e.conn));
                if c.will.is_some() {
                    wills.insert(e.conn);
                }
                if c.props.iter().any(|x| x.0 == 0x21) {
                    limited.insert(e.conn);
                }
            }
            K::Send(p) => {
                if !connected.contains(&e.conn) {
                    s.insert("B15");
                }
                if let Pk::Disconnect { .. } = p {
                    if wills.contains(&e.conn) {
                        s.insert("B07");
                    }
                    s.insert("B15");
                }
            }
            K::Recv(p) => match p {
                Pk::Publish(x) => {
                    s.insert("B01");
                    let n = q1.entry(e.conn).or_insert(0);
                    *n += 1;
                    if *n >= 2 {
                        s.insert("B02");
                    }
                    if x.qos > 0 {
                        s.insert("B05");
                        if limited.contains(&e.conn) {
                            s.insert("B18");
                        }
                    }
                    if x.dup {
                        s.insert("B04");
                    }
                }
                Pk::PubAck { .. } | Pk::SubAck { .. } | Pk::UnsubAck { .. } | Pk::PingResp => {
                    s.insert("B03");
                }
                Pk::ConnAck { reason, .. } => {
                    if scn.cfg.max_active.is_some() {
                        s.insert("B10");
                    }
                    if *reason == 0 {
                        s.insert("B11");
                    }
                }
                _ => {}
            },
            K::Close | K::Rst | K::Crash { .. } | K::HalfOpen | K::Shut | K::Eof | K::Reset(_) => {
                closed.insert(e.conn);
                if wills.contains(&e.conn) {
                    s.insert("B07");
                }
                s.insert("B16");
            }
            K::Raw(_) => {
                s.insert("B13");
                s.insert("B16");
            }
            K::ReadStop | K::Stall(_) => {
                s.insert("B12");
            }
            K::AcceptErr(_) => {
                s.insert("B14");
            }
            _ => {}
        }
    }
    s
}

pub fn generate(prop: &str, r: &mut Rng, k: u64, thorough: bool) -> Scn {
    let _ = thorough;
    if prop == "B17" {
        return Scn::Stream(sscn::generate(r, k));
    }
    if prop == "B19" || prop == "C11" {
        return Scn::Tls(tscn::generate(prop, r, k));
    }
    if prop.starts_with('E') {
        return Scn::E2e(escn::generate(r, k));
    }
    if prop.starts_with('C') {
        return Scn::Client(cgen::for_property(prop, r, k));
    }
    Scn::Broker(bgen::for_property(prop, r, k))
}

/// (runs, wall seconds)
pub fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    let _ = prop;
    if thorough {
        (2_000_000, 600)
    } else {
        (30_000, 35)
    }
}
pub fn nontrivial_rule(p: &str) -> &'static str {
    match p {
        "B01" => "a PUBLISH was delivered to a subscriber",
        "B02" => "some connection received at least two PUBLISH packets",
        "B03" => "an acknowledgement arrived",
        "B04" => "a redelivery (DUP) arrived",
        "B05" => "a PUBLISH with a packet identifier arrived",
        "B06" => "a CONNECT reused the identifier of a connection that had not ended",
        "B07" => "a connection that carried a will ended or sent DISCONNECT",
        "B08" | "B09" => "a client identifier was used again",
        "B10" => "the session limit was configured and a CONNACK arrived",
        "B11" => "a session with keep-alive was opened",
        "B12" => "a peer stopped reading or its path stalled",
        "B13" => "malformed or cut-off bytes were sent",
        "B14" => "accept() failed",
        "B15" => "a packet before CONNECT, a second CONNECT or a DISCONNECT was sent",
        "B18" => "a QoS 1 PUBLISH was delivered on a connection with a receive maximum",
        "B17" => "at least one packet was read from the stream",
        "B16" => "a connection ended or was left inside a packet",
        "C01" => "the application was handed a packet",
        "C02" => "the server sent a QoS 1 or 2 PUBLISH",
        "C03" => "the server sent a QoS 2 PUBLISH again",
        "C04" => "the server received a PUBLISH",
        "C05" => "the server received a QoS 1 or 2 PUBLISH in a session with a receive maximum",
        "C06" => "the server received a PINGREQ",
        "C07" => "a start of the client was observed",
        "C08" => "a client task ended after its session had begun",
        "C09" => "a session was resumed with the state of an earlier one, or a PUBLISH arrived with DUP",
        "C10" => "the server received a CONNECT",
        "B19" => "a proper client was served while another kind of peer was connected",
        "C11" => "a start with a server that cannot be trusted or reached failed, or a session with a proper one was observed",
        "E01" => "a message was received and at least one connection ended",
        _ => "the run exercised the property",
    }
}
pub fn real(p: &str) -> Vec<&'static str> {
    let mut v = vec!["vaux-async PacketStream", "vaux-mqtt codec", "tokio::sync (channels, locks) and tokio::io utilities"];
    if p != "B17" {
        v.push("TLS (tokio-rustls, rustls, AWS-LC) in a share of the runs, in all of B19 and C11");
    }
    match &p[..1] {
        "C" => v.insert(0, "vaux-client (all)"),
        "E" => v.splice(0..0, ["vaux-client (all)", "vaux-broker (all)"]).for_each(drop),
        _ if p == "B17" => {}
        _ => v.insert(0, "vaux-broker (all)"),
    }
    v
}
pub fn stub(p: &str) -> Vec<&'static str> {
    let mut v = vec!["tokio executor, tokio::time, tokio::net (simulated)", "system clock and entropy (simulated)"];
    match &p[..1] {
        "C" => v.splice(0..0, ["the MQTT server (scripted, own codec)", "async-std name resolution (simulated)"]).for_each(drop),
        "E" => v.insert(0, "async-std name resolution (simulated)"),
        _ => v.insert(0, "MQTT peers (scripted, own codec)"),
    }
    v
}
