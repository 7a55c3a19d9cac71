//! Client scenarios: the real client against a scripted MQTT server on the simulated network.
use crate::bscn::{msg_props, payload, Knobs, WillSpec};
use crate::hist::*;
use crate::mq::{self, *};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, VecDeque};
use std::rc::Rc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sim::{self, netctl};
use tokio::sync::{mpsc, Notify};
use vaux_client::{ClientBuilder, ErrorKind, MqttConnection};
use vaux_mqtt::{Packet, PacketType, QoSLevel};

pub const SRV: u32 = 1;
pub const CLI: u32 = 2;
pub const ADDR: &str = "127.0.0.1:1883";

fn is_def<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CCfg {
    pub auto_ack: bool,
    pub auto_pid: bool,
    /// announced by the client; 0: not set
    pub rmax: u16,
    /// seconds
    pub ka: u32,
    pub ka_on: bool,
    pub chan: u16,
    /// (packet type, capacity) of filtered consumers
    pub filt: Vec<(u8, u16)>,
    pub empty_cid: bool,
    /// ms
    pub wait: u32,
    pub pingresp: bool,
    /// a receive maximum of 0 is asked for, which does not exist
    #[serde(default, skip_serializing_if = "is_def")]
    pub rmax0: bool,
    /// more than the usual: length of the topics, filters in a request
    #[serde(default, skip_serializing_if = "is_def")]
    pub wide: u32,
    #[serde(default, skip_serializing_if = "is_def")]
    pub tls: bool,
}
impl Default for CCfg {
    fn default() -> Self {
        CCfg { auto_ack: true, auto_pid: true, rmax: 0, ka: 60, ka_on: true, chan: 128, filt: vec![], empty_cid: false, wait: 5000, pingresp: false, rmax0: false, wide: 0, tls: false }
    }
}

/// What the server does with the CONNECT.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Hs {
    /// `rmax`, `ka`: properties of the CONNACK; `forget`: the server has lost the session
    Ok { rmax: u16, ka: Option<u16>, delay: u32, forget: bool },
    Silent,
    /// a reason code of 0x80 or more
    Refuse { reason: u8, delay: u32, close: bool },
    Close { delay: u32 },
    Rst { delay: u32 },
    /// the first bytes of a CONNACK, then close, reset or silence (0, 1, 2)
    Partial { keep: usize, delay: u32, then: u8 },
    /// something that is not a CONNACK: 0 PINGRESP, 1 PUBLISH, 2 DISCONNECT, 3 junk
    Other { kind: u8, delay: u32 },
    /// closes before it has read the CONNECT
    CloseAtOnce,
}
impl Default for Hs {
    fn default() -> Self {
        Hs::Ok { rmax: 0, ka: None, delay: 0, forget: false }
    }
}

/// When the server acknowledges what the client publishes.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum AckM {
    #[default]
    All,
    Hold,
    Delay(u32),
    /// hold every nth
    Nth(u32),
    /// a failing PUBREC for every nth QoS 2 publish, a failing PUBACK for every nth QoS 1 publish
    Fail(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Wait(u32),
    // the server
    SPub { qos: u8, n: u32, size: u32, gap: u32 },
    /// sends again what has not been answered: QoS 2 publishes and PUBRELs
    SAgain,
    SPing,
    SAck(AckM),
    SRelease { rev: bool },
    /// hold PUBRELs
    SHoldRel(bool),
    SReadStop,
    SReadResume,
    /// the path from (`cli`: client) to the other side stands still
    Stall { cli: bool, ms: u32 },
    // the application
    Pub { qos: u8, n: u32, size: u32, gap: u32 },
    /// an identifier of the application's own choice, so many beyond those used so far
    PubId { qos: u8, ahead: u16 },
    Sub(u32),
    Unsub(u32),
    Ping,
    /// acknowledgements nobody asked for (the client must not send them with automatic acknowledgement)
    Bogus(u16),
    Pause,
    Resume,
    Slow(u32),
    /// hold the application's acknowledgements (manual mode)
    HoldApp(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum CEnd {
    #[default]
    Stop,
    /// DISCONNECT on the producer channel
    ProdDisc,
    SClose,
    SRst,
    SDisc(u8),
    SCrash { lose: usize },
    ResetBoth,
    Junk(String),
    /// the first bytes of a packet, then close
    Cut(usize),
    /// more than the client takes in one packet
    Huge,
    /// an acknowledgement for nothing: 0 PUBACK, 1 PUBCOMP
    Illegal(u8),
    DropCons(u8),
    /// the path is gone, then stop
    HalfOpenStop,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct CSess {
    #[serde(default, skip_serializing_if = "is_def")]
    pub gap: u32,
    #[serde(default, skip_serializing_if = "is_def")]
    pub clean: bool,
    /// forget the session state (a new process)
    #[serde(default, skip_serializing_if = "is_def")]
    pub fresh: bool,
    /// ms; None: start()
    #[serde(default, skip_serializing_if = "is_def")]
    pub try_wait: Option<u32>,
    /// 0 normal, 1 refused, 2 no answer to the connection request
    #[serde(default, skip_serializing_if = "is_def")]
    pub net: u8,
    #[serde(default, skip_serializing_if = "is_def")]
    pub hs: Hs,
    /// window of (server's receive side, client's receive side); 0: default
    #[serde(default, skip_serializing_if = "is_def")]
    pub win: (usize, usize),
    #[serde(default, skip_serializing_if = "is_def")]
    pub pre: Vec<Act>,
    #[serde(default, skip_serializing_if = "is_def")]
    pub acts: Vec<Act>,
    #[serde(default, skip_serializing_if = "is_def")]
    pub settle: bool,
    #[serde(default, skip_serializing_if = "is_def")]
    pub end: CEnd,
    /// credentials: 0 none, 1 plain, 2 an empty password, 3 not ASCII, 4 long, 5 an empty name
    #[serde(default, skip_serializing_if = "is_def")]
    pub auth: u8,
    #[serde(default, skip_serializing_if = "is_def")]
    pub will: Option<WillSpec>,
    /// session expiry asked for; None: the client's own default
    #[serde(default, skip_serializing_if = "is_def")]
    pub exp: Option<u32>,
    /// what the session state holds is not configured again
    #[serde(default, skip_serializing_if = "is_def")]
    pub keep: bool,
    /// session expiry in the CONNACK
    #[serde(default, skip_serializing_if = "is_def")]
    pub sexp: Option<u32>,
}
pub fn auth(n: u8) -> Option<(String, String)> {
    match n {
        0 => None,
        1 => Some(("User".into(), "Pass word".into())),
        2 => Some(("u".into(), String::new())),
        3 => Some(("n\u{e4}me\u{1f511}".into(), "\u{df}ecret\u{2713}".into())),
        4 => Some(("U".repeat(300), "p".repeat(2000))),
        _ => Some((String::new(), "p".into())),
    }
}
/// the will of session `k`
pub fn will_pk(w: &WillSpec, k: usize) -> WillP {
    let mut p = vec![];
    if w.delay > 0 {
        p.push((0x18, PV::U32(w.delay)));
    }
    p.extend(msg_props(w.pm & !0x40, k as u64));
    WillP { topic: w.topic.clone(), payload: payload(900 + k as u64, (k as u32 % 3) * 70), qos: w.qos, retain: w.retain, props: p }
}
fn pform(x: u8) -> vaux_mqtt::publish::PayloadFormat {
    x.try_into().expect("payload format")
}
fn will_lib(w: &WillP) -> vaux_mqtt::WillMessage {
    let q = match w.qos {
        0 => QoSLevel::AtMostOnce,
        1 => QoSLevel::AtLeastOnce,
        _ => QoSLevel::ExactlyOnce,
    };
    let mut m = vaux_mqtt::WillMessage::new(w.topic.clone(), &w.payload, q, w.retain);
    for (i, v) in &w.props {
        match (i, v) {
            (0x18, PV::U32(x)) => m = m.with_delay(*x),
            (1, PV::U8(x)) => m = m.with_payload_format(pform(*x)),
            (2, PV::U32(x)) => m = m.with_message_expiry(*x),
            (3, PV::Str(x)) => m = m.with_content_type(x.clone()),
            (8, PV::Str(x)) => m = m.with_response_topic(x.clone()),
            (9, PV::Bin(x)) => m = m.with_correlation_data(x.clone()),
            (0x26, PV::Pair(a, b)) => m.header.user_properties.add(a.clone(), b.clone()),
            _ => {}
        }
    }
    m
}
/// Message properties in an order that does not matter; pairs with one name keep theirs.
pub fn canon(p: &Props) -> Props {
    let mut p = p.clone();
    p.sort_by(|a, b| {
        let n = |x: &PV| match x {
            PV::Pair(a, _) => a.clone(),
            _ => String::new(),
        };
        (a.0, n(&a.1)).cmp(&(b.0, n(&b.1)))
    });
    p
}
fn props_key(p: &Props) -> String {
    if p.is_empty() {
        return "-".into();
    }
    let p = canon(p);
    let ids: Vec<String> = p.iter().map(|x| format!("{:x}", x.0)).collect();
    format!("{}:{:x}", ids.join("."), crate::explore::hash_str(&format!("{p:?}")) & 0xffff_ffff)
}
fn pm_of(n: u64) -> u8 {
    match n % 4 {
        0 => (crate::explore::hash_str(&format!("pm{n}")) & 0xbf) as u8,
        3 => 4,
        _ => 0,
    }
}
fn set_props(m: &mut vaux_mqtt::publish::Publish, p: &Props) {
    for (i, v) in p {
        match (i, v) {
            (1, PV::U8(x)) => m.payload_format = Some(pform(*x)),
            (2, PV::U32(x)) => m.message_expiry = Some(*x),
            (3, PV::Str(x)) => m.content_type = Some(x.clone()),
            (8, PV::Str(x)) => m.response_topic = Some(x.clone()),
            (9, PV::Bin(x)) => m.correlation_data = x.clone(),
            (0x26, PV::Pair(a, b)) => m.user_properties.add(a.clone(), b.clone()),
            _ => {}
        }
    }
}
fn get_props(m: &vaux_mqtt::publish::Publish) -> Props {
    let mut p: Props = vec![];
    if let Some(x) = m.payload_format {
        p.push((1, PV::U8(x as u8)));
    }
    if let Some(x) = m.message_expiry {
        p.push((2, PV::U32(x)));
    }
    if let Some(x) = &m.content_type {
        p.push((3, PV::Str(x.clone())));
    }
    if let Some(x) = &m.response_topic {
        p.push((8, PV::Str(x.clone())));
    }
    if !m.correlation_data.is_empty() {
        p.push((9, PV::Bin(m.correlation_data.clone())));
    }
    if let Some(x) = m.subscription_identifiers {
        p.push((0x0b, PV::Var(x)));
    }
    if let Some(x) = m.topic_alias {
        p.push((0x23, PV::U16(x)));
    }
    for (k, v) in m.user_properties.iter() {
        for x in v {
            p.push((0x26, PV::Pair(k.clone(), x.clone())));
        }
    }
    p
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct CScn {
    pub cfg: CCfg,
    pub knobs: Knobs,
    pub sessions: Vec<CSess>,
    #[serde(default)]
    pub tag: String,
}

/// What the application offers to the producer channel.
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Publish { key: String, qos: u8, pid: Option<u16>, content: String },
    Sub(String),
    Unsub(String),
    Ping,
    Ack(String),
    Disconnect,
}

#[derive(Clone, Debug, Default)]
pub struct SessOut {
    pub started: bool,
    /// start called, start returned (ns)
    pub t_start: u64,
    pub t_started: u64,
    /// of the call
    pub start: Option<Result<(), (ErrorKind, String)>>,
    pub connected_at_start: bool,
    pub saw_connected: bool,
    pub sim: Option<(u64, usize)>,
    /// the server finished the handshake with success (CONNACK offered)
    pub t_connack: Option<u64>,
    pub sp: bool,
    /// begin of settling, end of settling, was it quiet
    pub t_settle: Option<(u64, u64, bool)>,
    /// the history position at which settling was over
    pub i_settled: usize,
    pub t_end_act: Option<u64>,
    pub i_end_act: usize,
    pub stop_ret: Option<Result<(), String>>,
    pub t_stop_ret: u64,
    /// when the consumers were given free rein
    pub t_free: u64,
    pub t_ended: Option<u64>,
    pub i_ended: usize,
    /// result of the client task; None: it never ended
    pub result: Option<Result<(), (ErrorKind, String)>>,
    pub panicked: bool,
    pub connected_after: Option<bool>,
    pub open_after: Option<bool>,
    pub open_after_fail: Option<bool>,
    pub early: bool,
    /// state was passed on to this session
    pub carried: bool,
    pub build_err: Option<String>,
    /// what the client says it negotiated: keep-alive, session expiry (s)
    pub neg: Option<(u64, u64)>,
}

pub struct COut {
    pub hist: Vec<Ev>,
    pub items: Vec<Item>,
    pub sess: Vec<SessOut>,
    pub end: sim::End,
    pub stats: sim::Stats,
    pub trace: Vec<(u64, u32)>,
}

/// A packet as the application should see it.
pub fn key_pk(p: &Pk) -> String {
    match p {
        Pk::Publish(x) => {
            pub_key(x.qos, x.dup, x.retain, &x.topic, x.pid, &x.props, &x.payload)
        }
        Pk::PubAck { pid, reason, .. } => format!("PUBACK {pid} {reason}"),
        Pk::PubRec { pid, reason, .. } => format!("PUBREC {pid} {reason}"),
        Pk::PubRel { pid, reason, .. } => format!("PUBREL {pid} {reason}"),
        Pk::PubComp { pid, reason, .. } => format!("PUBCOMP {pid} {reason}"),
        Pk::SubAck { pid, codes, .. } => format!("SUBACK {pid} {codes:?}"),
        Pk::UnsubAck { pid, codes, .. } => format!("UNSUBACK {pid} {codes:?}"),
        p => p.name().to_string(),
    }
}
fn pub_key(qos: u8, dup: bool, retain: bool, topic: &str, pid: Option<u16>, props: &Props, pl: &[u8]) -> String {
    let h = crate::explore::hash_str(&hex(pl));
    let s = String::from_utf8_lossy(&pl[..pl.len().min(10)]).to_string();
    format!("PUBLISH {s} q{qos} dup={dup} retain={retain} pid={pid:?} {topic} p={} {} bytes {h:x}", props_key(props), pl.len())
}
/// the payload's own name
pub fn msg_of(key: &str) -> &str {
    key.strip_prefix("PUBLISH ").and_then(|k| k.split(' ').next()).unwrap_or("")
}
fn key_lib(p: &Packet) -> String {
    let r = |x: &vaux_mqtt::pubresp::PubResp| x.reason().map(|r| r as u8).unwrap_or(0);
    match p {
        Packet::Publish(x) => pub_key(
            x.qos() as u8,
            x.dup(),
            x.retain(),
            &x.topic_name,
            x.packet_id(),
            &get_props(x),
            x.payload.as_deref().unwrap_or(&[]),
        ),
        Packet::PubAck(x) => format!("PUBACK {} {}", x.packet_id, r(x)),
        Packet::PubRec(x) => format!("PUBREC {} {}", x.packet_id, r(x)),
        Packet::PubRel(x) => format!("PUBREL {} {}", x.packet_id, r(x)),
        Packet::PubComp(x) => format!("PUBCOMP {} {}", x.packet_id, r(x)),
        Packet::SubAck(x) => format!("SUBACK {} {:?}", x.packet_id(), x.reason_codes.iter().map(|r| *r as u8).collect::<Vec<_>>()),
        Packet::UnsubAck(x) => format!("UNSUBACK {} {:?}", x.packet_id, x.reason_code.iter().map(|r| *r as u8).collect::<Vec<_>>()),
        Packet::PingResponse(_) => "PINGRESP".into(),
        p => format!("{p:?}").chars().take(60).collect(),
    }
}
pub fn ptype(i: u8) -> PacketType {
    match i {
        0 => PacketType::Publish,
        1 => PacketType::PubAck,
        2 => PacketType::PubRec,
        3 => PacketType::PubRel,
        4 => PacketType::PubComp,
        5 => PacketType::SubAck,
        6 => PacketType::UnsubAck,
        _ => PacketType::PingResp,
    }
}
/// which filtered type a key belongs to
pub fn ptype_of(key: &str) -> u8 {
    match key.split(' ').next().unwrap_or("") {
        "PUBLISH" => 0,
        "PUBACK" => 1,
        "PUBREC" => 2,
        "PUBREL" => 3,
        "PUBCOMP" => 4,
        "SUBACK" => 5,
        "UNSUBACK" => 6,
        _ => 7,
    }
}

// ---------------------------------------------------------------- server

#[derive(Clone, Debug, PartialEq)]
enum OutSt {
    Queued,
    Sent,
    /// PUBREC arrived
    Recd,
}
struct OutMsg {
    pid: Option<u16>,
    p: PublishP,
    st: OutSt,
}
#[derive(Default)]
struct Store {
    cid: Option<String>,
    out: VecDeque<OutMsg>,
    /// QoS 2 publishes of the client accepted and not released
    in2: BTreeSet<u16>,
    next_pid: u16,
}

enum Out {
    Pk(Pk),
    Raw(Vec<u8>),
    Close,
}

struct SConn {
    k: usize,
    sim: u64,
    side: usize,
    outq: RefCell<VecDeque<Out>>,
    outn: Notify,
    rdn: Notify,
    stop: Cell<bool>,
    writing: Cell<bool>,
    closed: Cell<bool>,
    dead: Cell<bool>,
    up: Cell<bool>,
    cmax: Cell<usize>,
    ack: RefCell<AckM>,
    nack: Cell<u32>,
    held: RefCell<Vec<Pk>>,
    hold_rel: Cell<bool>,
    held_rel: RefCell<Vec<Pk>>,
    tasks: RefCell<Vec<tokio::task::JoinHandle<()>>>,
}
impl SConn {
    fn push(&self, o: Out) {
        if !self.dead.get() {
            self.outq.borrow_mut().push_back(o);
            self.outn.notify_one();
        }
    }
    fn send(&self, p: Pk) {
        self.push(Out::Pk(p))
    }
    fn kill(&self) {
        self.dead.set(true);
        self.closed.set(true);
        self.outq.borrow_mut().clear();
        for t in self.tasks.borrow_mut().drain(..) {
            t.abort();
        }
    }
    /// neither speaks nor closes any more
    fn freeze(&self) {
        self.dead.set(true);
        self.stop.set(true);
        self.outq.borrow_mut().clear();
        self.rdn.notify_one();
    }
}

struct Sh {
    hist: Hist,
    store: RefCell<Store>,
    hs: RefCell<Hs>,
    sexp: Cell<Option<u32>>,
    win: Cell<(usize, usize)>,
    k: Cell<usize>,
    cur: RefCell<Option<Rc<SConn>>>,
    cur_n: Notify,
    sess: RefCell<Vec<SessOut>>,
    items: RefCell<Vec<Item>>,
    msg: Cell<u64>,
    // application
    q: RefCell<VecDeque<(usize, Packet)>>,
    qn: Notify,
    paused: Cell<bool>,
    slow: Cell<u32>,
    hold_app: Cell<bool>,
    held_app: RefCell<Vec<(String, Packet)>>,
    drop_cons: Cell<Option<u8>>,
    cons_n: Notify,
    auto_ack: bool,
    auto_pid: bool,
    wide: u32,
    tls: Option<tokio_rustls::TlsAcceptor>,
    next_pid: Cell<u16>,
    own: Cell<u16>,
    /// bytes that arrived at the server, without PINGREQ
    rx: Cell<i64>,
    /// when the last stall ends
    stalled: Cell<u64>,
    over: Cell<bool>,
}
impl Sh {
    fn log(&self, actor: usize, k: K) -> usize {
        self.hist.log(actor, self.k.get(), k)
    }
    fn topic(&self, p: &str, n: u64) -> String {
        let mut s = format!("{p}/{}", n % 3);
        while s.len() < self.wide as usize {
            s.push_str(if n % 2 == 0 { "/l" } else { "long" });
        }
        s
    }
    fn next_msg(&self) -> u64 {
        let n = self.msg.get();
        self.msg.set(n + 1);
        n
    }
    fn offer(&self, i: Item, p: Packet) {
        let mut v = self.items.borrow_mut();
        v.push(i);
        self.q.borrow_mut().push_back((v.len() - 1, p));
        self.qn.notify_one();
    }
    fn with<R>(&self, f: impl FnOnce(&mut SessOut) -> R) -> R {
        f(&mut self.sess.borrow_mut()[self.k.get()])
    }
}

async fn put(sh: &Sh, w: &mut crate::tls::W, b: &[u8]) -> std::io::Result<()> {
    w.write_all(b).await?;
    if sh.tls.is_some() {
        w.flush().await?;
    }
    Ok(())
}

async fn swriter(sh: Rc<Sh>, c: Rc<SConn>, mut w: crate::tls::W) {
    loop {
        let o = c.outq.borrow_mut().pop_front();
        let Some(o) = o else {
            c.writing.set(false);
            c.outn.notified().await;
            continue;
        };
        c.writing.set(!matches!(o, Out::Pk(Pk::PingResp)));
        match o {
            Out::Pk(p) => {
                let b = mq::encode(&p);
                let i = sh.hist.log(0, c.k, K::Send(p));
                match put(&sh, &mut w, &b).await {
                    Ok(()) => sh.hist.log(0, c.k, K::SendDone(i)),
                    Err(e) => {
                        sh.hist.log(0, c.k, K::SendFail(i, e.to_string()));
                        break;
                    }
                };
            }
            Out::Raw(b) => {
                let i = sh.hist.log(0, c.k, K::Raw(b.clone()));
                if put(&sh, &mut w, &b).await.is_err() {
                    break;
                }
                sh.hist.log(0, c.k, K::RawDone(i));
            }
            Out::Close => {
                if sh.tls.is_some() && c.k % 2 == 0 {
                    // with the alert that says so
                    let _ = tokio::time::timeout(Duration::from_secs(1), w.shutdown()).await;
                }
                sh.hist.log(0, c.k, K::Close);
                c.closed.set(true);
                c.dead.set(true);
                c.rdn.notify_one();
                return;
            }
        }
    }
    std::future::pending::<()>().await;
}

fn pump(sh: &Sh, c: &SConn) {
    if !c.up.get() || c.dead.get() {
        return;
    }
    let mut st = sh.store.borrow_mut();
    let st = &mut *st;
    loop {
        let infl = st.out.iter().filter(|m| m.st != OutSt::Queued).count();
        let Some(i) = st.out.iter().position(|m| m.st == OutSt::Queued) else { return };
        if st.out[i].p.qos == 0 {
            let m = st.out.remove(i).unwrap();
            c.send(Pk::Publish(m.p));
            continue;
        }
        if infl >= c.cmax.get() {
            return;
        }
        let used: BTreeSet<u16> = st.out.iter().filter_map(|m| m.pid).collect();
        loop {
            st.next_pid = st.next_pid.wrapping_add(1);
            // a small range: identifiers are soon used again
            if st.next_pid > 12 + used.len() as u16 {
                st.next_pid = 1;
            }
            if st.next_pid != 0 && !used.contains(&st.next_pid) {
                break;
            }
        }
        let m = &mut st.out[i];
        m.pid = Some(st.next_pid);
        m.p.pid = m.pid;
        m.st = OutSt::Sent;
        c.send(Pk::Publish(m.p.clone()));
    }
}

fn answer(c: &Rc<SConn>, p: Pk) {
    let n = c.nack.get();
    c.nack.set(n + 1);
    let m = c.ack.borrow().clone();
    match m {
        AckM::All => send_ack(c, p),
        AckM::Hold => c.held.borrow_mut().push(p),
        AckM::Nth(k) => {
            if k > 0 && n % k == 0 {
                c.held.borrow_mut().push(p)
            } else {
                send_ack(c, p)
            }
        }
        AckM::Delay(ms) => {
            let c = c.clone();
            tokio::task::spawn_local(async move {
                tokio::time::sleep(Duration::from_millis(ms as u64)).await;
                send_ack(&c, p);
            });
        }
        AckM::Fail(_) => send_ack(c, p),
    }
}
fn send_ack(c: &SConn, p: Pk) {
    c.send(p);
}

/// Every nth fails, with this reason or that; some of the others had no subscribers.
fn ack_reason(n: u32, k: u32) -> u8 {
    match n % k {
        0 => [0x97, 0x80, 0x83, 0x99, 0x87, 0x90][(n / k) as usize % 6],
        1 => 0x10,
        _ => 0,
    }
}

async fn on_packet(sh: &Rc<Sh>, c: &Rc<SConn>, p: Pk) {
    match p {
        Pk::Connect(x) => {
            let hs = sh.hs.borrow().clone();
            let nap = |ms: u32| tokio::time::sleep(Duration::from_millis(ms as u64));
            match hs {
                Hs::Ok { rmax, ka, delay, forget } => {
                    if delay > 0 {
                        nap(delay).await;
                    }
                    let mut props = vec![];
                    if rmax > 0 {
                        props.push((0x21, PV::U16(rmax)));
                    }
                    if let Some(k) = ka {
                        props.push((0x13, PV::U16(k)));
                    }
                    if let Some(x) = sh.sexp.get() {
                        props.push((0x11, PV::U32(x)));
                    }
                    let cid = if x.cid.is_empty() {
                        props.push((0x12, PV::Str(format!("assigned-{}", c.k))));
                        format!("assigned-{}", c.k)
                    } else {
                        x.cid.clone()
                    };
                    c.cmax.set(
                        x.props.iter().find_map(|(i, v)| match v {
                            PV::U16(n) if *i == 0x21 => Some(*n as usize),
                            _ => None,
                        }).unwrap_or(65535),
                    );
                    let sp = {
                        let mut st = sh.store.borrow_mut();
                        let sp = st.cid.as_ref() == Some(&cid) && !x.clean && !forget;
                        if !sp {
                            st.out.retain(|m| m.st == OutSt::Queued);
                            st.in2.clear();
                        }
                        st.cid = Some(cid);
                        sp
                    };
                    {
                        let mut s = sh.sess.borrow_mut();
                        s[c.k].t_connack = Some(sim::now_ns());
                        s[c.k].sp = sp;
                    }
                    c.send(Pk::ConnAck { sp, reason: 0, props });
                    for m in sh.store.borrow_mut().out.iter_mut() {
                        match m.st {
                            OutSt::Queued => {}
                            OutSt::Sent => {
                                m.p.dup = true;
                                c.send(Pk::Publish(m.p.clone()));
                            }
                            OutSt::Recd => {
                                let p = Pk::PubRel { pid: m.pid.unwrap(), reason: 0, props: vec![] };
                                if c.hold_rel.get() {
                                    let mut h = c.held_rel.borrow_mut();
                    if !h.contains(&p) {
                        h.push(p)
                    }
                                } else {
                                    c.send(p)
                                }
                            }
                        }
                    }
                    c.up.set(true);
                    pump(sh, c);
                    sh.cur_n.notify_waiters();
                }
                Hs::Silent => {}
                Hs::CloseAtOnce => {}
                Hs::Refuse { reason, delay, close } => {
                    nap(delay).await;
                    c.send(Pk::ConnAck { sp: false, reason, props: vec![] });
                    if close {
                        c.push(Out::Close);
                    }
                }
                Hs::Close { delay } => {
                    nap(delay).await;
                    c.push(Out::Close);
                }
                Hs::Rst { delay } => {
                    nap(delay).await;
                    sh.hist.log(0, c.k, K::Rst);
                    netctl::rst(c.sim, c.side);
                    c.dead.set(true);
                    c.closed.set(true);
                    c.outn.notify_one();
                }
                Hs::Partial { keep, delay, then } => {
                    nap(delay).await;
                    let b = mq::encode(&Pk::ConnAck { sp: false, reason: 0, props: vec![(0x21, PV::U16(5)), (0x1f, PV::Str("welcome".into()))] });
                    c.push(Out::Raw(b[..keep.clamp(1, b.len() - 1)].to_vec()));
                    match then {
                        0 => c.push(Out::Close),
                        1 => {
                            nap(50).await;
                            sh.hist.log(0, c.k, K::Rst);
                            netctl::rst(c.sim, c.side);
                            c.dead.set(true);
                        }
                        _ => {}
                    }
                }
                Hs::Other { kind, delay } => {
                    nap(delay).await;
                    match kind {
                        0 => c.send(Pk::PingResp),
                        1 => c.send(Pk::Publish(PublishP { topic: "x".into(), payload: payload(0, 0), ..Default::default() })),
                        2 => c.send(Pk::Disconnect { reason: 0x89, props: vec![] }),
                        _ => c.push(Out::Raw(vec![0xf5, 0x01, 0x00, 0x00])),
                    }
                }
            }
        }
        Pk::Publish(x) if x.qos == 1 => {
            let n = c.nack.get();
            let reason = match &*c.ack.borrow() {
                AckM::Fail(k) if *k > 0 => ack_reason(n, *k),
                _ => 0,
            };
            answer(c, Pk::PubAck { pid: x.pid.unwrap_or(0), reason, props: vec![] });
        }
        Pk::Publish(x) if x.qos == 2 => {
            let pid = x.pid.unwrap_or(0);
            let n = c.nack.get();
            let known = sh.store.borrow().in2.contains(&pid);
            let reason = match &*c.ack.borrow() {
                AckM::Fail(k) if *k > 0 && !known => ack_reason(n, *k),
                _ => 0,
            };
            if reason < 0x80 {
                sh.store.borrow_mut().in2.insert(pid);
            }
            answer(c, Pk::PubRec { pid, reason, props: vec![] });
        }
        Pk::PubRel { pid, .. } => {
            let known = sh.store.borrow_mut().in2.remove(&pid);
            answer(c, Pk::PubComp { pid, reason: if known { 0 } else { 0x92 }, props: vec![] });
        }
        Pk::PubAck { pid, .. } => {
            sh.store.borrow_mut().out.retain(|m| m.pid != Some(pid));
            pump(sh, c);
        }
        Pk::PubComp { pid, .. } => {
            // one that answers a repeated PUBREL of an earlier exchange says nothing about this one
            sh.store.borrow_mut().out.retain(|m| m.pid != Some(pid) || m.st != OutSt::Recd);
            pump(sh, c);
        }
        Pk::PubRec { pid, reason, .. } => {
            if reason >= 0x80 {
                sh.store.borrow_mut().out.retain(|m| m.pid != Some(pid));
                pump(sh, c);
            } else {
                for m in sh.store.borrow_mut().out.iter_mut() {
                    if m.pid == Some(pid) {
                        m.st = OutSt::Recd;
                    }
                }
                let p = Pk::PubRel { pid, reason: 0, props: vec![] };
                if c.hold_rel.get() {
                    let mut h = c.held_rel.borrow_mut();
                    if !h.contains(&p) {
                        h.push(p)
                    }
                } else {
                    c.send(p)
                }
            }
        }
        Pk::Subscribe { pid, filters, .. } => {
            c.send(Pk::SubAck { pid, codes: filters.iter().map(|f| f.1 & 3).collect(), props: vec![] })
        }
        Pk::Unsub { pid, filters, .. } => c.send(Pk::UnsubAck { pid, codes: filters.iter().map(|_| 0).collect(), props: vec![] }),
        Pk::PingReq => {
            sh.rx.set(sh.rx.get() - 2);
            c.send(Pk::PingResp)
        }
        Pk::Disconnect { .. } => {
            c.push(Out::Close);
        }
        _ => {}
    }
}

async fn sreader(sh: Rc<Sh>, c: Rc<SConn>, mut r: crate::tls::R, deaf: bool) {
    let mut dec = Decoder::default();
    let mut buf = vec![0u8; 8192];
    'out: loop {
        if c.closed.get() {
            return;
        }
        if c.stop.get() {
            c.rdn.notified().await;
            continue;
        }
        tokio::select! {
            biased;
            _ = c.rdn.notified() => { continue; }
            x = r.read(&mut buf) => match x {
                Ok(0) => {
                    if dec.leftover() > 0 {
                        sh.hist.log(0, c.k, K::Note(format!("{} bytes of an incomplete packet before the end", dec.leftover())));
                    }
                    sh.hist.log(0, c.k, K::Eof);
                    break 'out;
                }
                Ok(_) if deaf => {}
                Err(e) if sh.tls.is_some() && e.kind() == std::io::ErrorKind::UnexpectedEof => {
                    // the end without TLS's own
                    sh.hist.log(0, c.k, K::Eof);
                    break 'out;
                }
                Ok(n) => {
                    dec.feed(&buf[..n]);
                    sh.rx.set(sh.rx.get() + n as i64);
                    loop {
                        match dec.next() {
                            Ok(Some(p)) => {
                                sh.hist.log(0, c.k, K::Recv(p.clone()));
                                on_packet(&sh, &c, p).await;
                            }
                            Ok(None) => break,
                            Err(e) => {
                                sh.hist.log(0, c.k, K::Undecodable(e));
                                break 'out;
                            }
                        }
                    }
                }
                Err(e) => {
                    sh.hist.log(0, c.k, K::Reset(e.to_string()));
                    break 'out;
                }
            }
        }
    }
    // a server closes when the client has
    c.push(Out::Close);
    loop {
        if c.closed.get() {
            return;
        }
        c.rdn.notified().await;
    }
}

async fn server(sh: Rc<Sh>, l: TcpListener) {
    loop {
        let Ok((s, _)) = l.accept().await else { continue };
        let (id, side) = (s.sim_id(), s.sim_side());
        let k = sh.k.get();
        let (ws, wc) = sh.win.get();
        if ws > 0 {
            netctl::set_window(id, 1 - side, ws);
        }
        if wc > 0 {
            netctl::set_window(id, side, wc);
        }
        sh.hist.log(0, k, K::Open { sim: id, side });
        sh.sess.borrow_mut()[k].sim = Some((id, 1 - side));
        serve(&sh, s, id, side, k);
    }
}
fn serve(sh: &Rc<Sh>, s: TcpStream, sim: u64, side: usize, k: usize) {
    let c = Rc::new(SConn {
        k,
        sim,
        side,
        outq: Default::default(),
        outn: Notify::new(),
        rdn: Notify::new(),
        stop: Cell::new(false),
        writing: Cell::new(false),
        closed: Cell::new(false),
        dead: Cell::new(false),
        up: Cell::new(false),
        cmax: Cell::new(65535),
        ack: Default::default(),
        nack: Cell::new(0),
        held: Default::default(),
        hold_rel: Cell::new(false),
        held_rel: Default::default(),
        tasks: Default::default(),
    });
    if *sh.hs.borrow() == Hs::CloseAtOnce {
        sh.hist.log(0, k, K::Close);
        return;
    }
    let run = |sh: Rc<Sh>, c: Rc<SConn>, (r, w): (crate::tls::R, crate::tls::W), deaf: bool| {
        let a = tokio::task::spawn_local(sreader(sh.clone(), c.clone(), r, deaf));
        let b = tokio::task::spawn_local(swriter(sh.clone(), c.clone(), w));
        c.tasks.borrow_mut().push(a);
        c.tasks.borrow_mut().push(b);
    };
    match sh.tls.clone() {
        Some(t) if *sh.hs.borrow() != Hs::Silent || k % 2 == 0 => {
            let (sh, c2) = (sh.clone(), c.clone());
            let h = tokio::task::spawn_local(async move {
                match tokio::time::timeout(Duration::from_secs(60), crate::tls::server(&t, s)).await {
                    Ok(Ok(x)) => {
                        sim::count("tls_handshakes");
                        run(sh, c2, x, false)
                    }
                    e => {
                        let e = e.map(|x| x.err().map(|x| x.to_string()));
                        sh.hist.log(0, k, K::Note(format!("no TLS: {e:?}")));
                        sh.hist.log(0, k, K::Close);
                    }
                }
            });
            c.tasks.borrow_mut().push(h);
        }
        // one that does not even begin with TLS
        t => run(sh.clone(), c.clone(), crate::tls::plain(s), t.is_some()),
    }
    *sh.cur.borrow_mut() = Some(c);
    sh.cur_n.notify_waiters();
}

// ---------------------------------------------------------------- application

async fn producer(sh: Rc<Sh>, tx: mpsc::Sender<Packet>) {
    loop {
        let x = sh.q.borrow_mut().pop_front();
        let Some((i, p)) = x else {
            if sh.over.get() {
                return;
            }
            sh.qn.notified().await;
            continue;
        };
        sh.log(1, K::Q(i));
        match tx.send(p).await {
            Ok(()) => sh.log(1, K::QDone(i)),
            Err(_) => sh.log(1, K::QFail(i)),
        };
    }
}

fn ack_item(sh: &Sh, name: &str, pid: u16) -> (String, Packet) {
    let _ = sh;
    use vaux_mqtt::pubresp::PubResp;
    let p = match name {
        "PUBACK" => Packet::PubAck(PubResp::new_puback_with_packet_id(pid)),
        "PUBREC" => Packet::PubRec(PubResp::new_pubrec_with_packet_id(pid)),
        "PUBREL" => Packet::PubRel(PubResp::new_pubrel_with_packet_id(pid)),
        _ => Packet::PubComp(PubResp::new_pubcomp_with_packet_id(pid)),
    };
    (format!("{name} {pid}"), p)
}

async fn consumer(sh: Rc<Sh>, ch: u8, mut rx: mpsc::Receiver<Packet>) {
    loop {
        if sh.drop_cons.get() == Some(ch) {
            // what is in the channel is taken before it goes
            rx.close();
            while let Some(p) = rx.recv().await {
                sh.log(1, K::Got(ch as usize, key_lib(&p)));
            }
            sh.log(1, K::App(format!("consumer {ch} dropped")));
            return;
        }
        let n = sh.cons_n.notified();
        if sh.paused.get() {
            n.await;
            continue;
        }
        let p = tokio::select! {
            biased;
            p = rx.recv() => p,
            _ = n => continue,
        };
        let Some(p) = p else { return };
        sh.log(1, K::Got(ch as usize, key_lib(&p)));
        if !sh.auto_ack {
            let a = match &p {
                Packet::Publish(x) if x.qos() == QoSLevel::AtLeastOnce => Some(("PUBACK", x.packet_id().unwrap_or(0))),
                Packet::Publish(x) if x.qos() == QoSLevel::ExactlyOnce => Some(("PUBREC", x.packet_id().unwrap_or(0))),
                Packet::PubRel(x) => Some(("PUBCOMP", x.packet_id)),
                Packet::PubRec(x) if x.reason().map(|r| r as u8).unwrap_or(0) < 0x80 => Some(("PUBREL", x.packet_id)),
                _ => None,
            };
            if let Some((name, pid)) = a {
                let (s, p) = ack_item(&sh, name, pid);
                if sh.hold_app.get() {
                    sh.held_app.borrow_mut().push((s, p));
                } else {
                    sh.offer(Item::Ack(s), p);
                }
            }
        }
        let slow = sh.slow.get();
        if slow > 0 {
            let n = sh.cons_n.notified();
            let _ = tokio::time::timeout(Duration::from_millis(slow as u64), n).await;
        }
    }
}

fn app_publish(sh: &Sh, qos: u8, size: u32, own: Option<u16>) {
    let n = sh.next_msg();
    let pl = payload(n, size);
    let topic = sh.topic("t", n);
    let pid = if own.is_some() {
        own
    } else if qos > 0 && !sh.auto_pid {
        let p = sh.next_pid.get();
        sh.next_pid.set(if p == 9000 { 1 } else { p + 1 });
        Some(p)
    } else {
        None
    };
    let mut p = if let Some(pid) = pid {
        let q = if qos == 1 { QoSLevel::AtLeastOnce } else { QoSLevel::ExactlyOnce };
        vaux_mqtt::publish::Publish::new_with_payload(Some(pid), topic.clone(), q, pl.clone()).expect("publish")
    } else {
        let mut p = vaux_mqtt::publish::Publish::new_with_payload(None, topic.clone(), QoSLevel::AtMostOnce, pl.clone()).expect("publish");
        p.set_qos(match qos {
            0 => QoSLevel::AtMostOnce,
            1 => QoSLevel::AtLeastOnce,
            _ => QoSLevel::ExactlyOnce,
        });
        p
    };
    if n % 5 == 0 {
        p.set_retain(true);
    }
    let props = msg_props(pm_of(n), n);
    set_props(&mut p, &props);
    let content = content_key(n % 5 == 0, &topic, &props, &pl);
    sh.offer(Item::Publish { key: format!("m{n:08}."), qos, pid, content }, Packet::Publish(p));
}
fn content_key(retain: bool, topic: &str, props: &Props, pl: &[u8]) -> String {
    format!("retain={retain} {topic} p={} {} bytes {:x}", props_key(props), pl.len(), crate::explore::hash_str(&hex(pl)))
}
/// what must arrive unchanged of an application's publish: (name, content)
pub fn wire_content(p: &PublishP) -> (String, String) {
    let name = String::from_utf8_lossy(&p.payload[..p.payload.len().min(10)]).to_string();
    (name, content_key(p.retain, &p.topic, &p.props, &p.payload))
}

/// how many filters a request has
fn more(sh: &Sh, i: u64) -> u64 {
    if sh.wide > 0 && i % 2 == 0 {
        return 2 + i * 7 % 90;
    }
    [1, 1, 2, 1, 3][i as usize % 5]
}
/// all of a SUBSCRIBE or UNSUBSCRIBE
pub fn req_key(p: &Pk) -> String {
    match p {
        Pk::Subscribe { pid, filters, props } => format!("SUBSCRIBE {pid} {filters:?} p={}", props_key(props)),
        Pk::Unsub { pid, filters, props } => format!("UNSUBSCRIBE {pid} {filters:?} p={}", props_key(props)),
        _ => String::new(),
    }
}

fn release(c: &SConn, rev: bool) {
    let mut v = std::mem::take(&mut *c.held.borrow_mut());
    if rev {
        v.reverse();
    }
    for p in v {
        send_ack(c, p);
    }
}
fn lift(sh: &Rc<Sh>) {
    sh.paused.set(false);
    sh.slow.set(0);
    sh.cons_n.notify_waiters();
    sh.hold_app.set(false);
    for (s, p) in std::mem::take(&mut *sh.held_app.borrow_mut()) {
        sh.offer(Item::Ack(s), p);
    }
    let c = sh.cur.borrow().clone();
    if let Some(c) = c {
        if c.dead.get() {
            return;
        }
        *c.ack.borrow_mut() = AckM::All;
        release(&c, false);
        c.hold_rel.set(false);
        for p in std::mem::take(&mut *c.held_rel.borrow_mut()) {
            c.send(p);
        }
        if c.stop.get() {
            sh.log(0, K::ReadResume);
            c.stop.set(false);
            c.rdn.notify_one();
        }
    }
}

async fn act(sh: &Rc<Sh>, a: &Act, ended: &Notify) {
    let nap = |ms: u32| async move {
        let _ = tokio::time::timeout(Duration::from_millis(ms as u64), ended.notified()).await;
    };
    let c = sh.cur.borrow().clone();
    match a {
        Act::Wait(ms) => nap(*ms).await,
        Act::Pub { qos, n, size, gap } => {
            for i in 0..*n {
                if i > 0 && *gap > 0 {
                    nap(*gap).await;
                }
                app_publish(sh, *qos, *size, None);
            }
        }
        Act::PubId { qos, ahead } => {
            if sh.auto_pid && *qos > 0 {
                // never one that may be in use
                let own = sh.own.get().max(sh.items.borrow().len() as u16) + ahead.max(&1);
                sh.own.set(own);
                app_publish(sh, *qos, 0, Some(own));
            }
        }
        Act::Sub(n) => {
            for _ in 0..*n {
                let i = sh.next_msg();
                let pid = 20000 + (i % 20000) as u16;
                let mut s = vaux_mqtt::Subscribe { packet_id: pid, ..Default::default() };
                let mut filters = vec![];
                for k in 0..more(sh, i) {
                    let o = if i % 3 == 0 { 1 } else { ((i + k) % 3 | (i + k) % 4 * 4 | (i + 2 * k) % 3 * 16) as u8 };
                    filters.push((format!("f/{i}/{k}"), o));
                    let mut f = vaux_mqtt::SubscriptionFilter::new(format!("f/{i}/{k}"), QoSLevel::try_from(o & 3).expect("qos"));
                    f.set_no_local(o & 4 != 0);
                    f.set_retain_as_published(o & 8 != 0);
                    f.set_retain_handling((o >> 4).try_into().expect("retain handling"));
                    s.add_filter(f);
                }
                let mut props: Props = vec![];
                if i % 4 == 1 {
                    let x = *[1u32, 127, 128, 16_384, 268_435_455].get(i as usize / 4 % 5).unwrap();
                    s.subscription_id = Some(x);
                    props.push((0x0b, PV::Var(x)));
                }
                if i % 5 == 2 {
                    s.user_props.add("u".into(), format!("{i}"));
                    props.push((0x26, PV::Pair("u".into(), format!("{i}"))));
                }
                sh.offer(Item::Sub(req_key(&Pk::Subscribe { pid, filters, props })), Packet::Subscribe(s));
            }
        }
        Act::Unsub(n) => {
            for _ in 0..*n {
                let i = sh.next_msg();
                let pid = 20000 + (i % 20000) as u16;
                let filters: Vec<String> = (0..more(sh, i)).map(|k| format!("f/{i}/{k}")).collect();
                let mut u = vaux_mqtt::unsubscribe::Unsubscribe::new(pid, filters.clone());
                let mut props: Props = vec![];
                if i % 5 == 2 {
                    u.props.add("u".into(), format!("{i}"));
                    props.push((0x26, PV::Pair("u".into(), format!("{i}"))));
                }
                sh.offer(Item::Unsub(req_key(&Pk::Unsub { pid, filters, props })), Packet::Unsubscribe(u));
            }
        }
        Act::Ping => sh.offer(Item::Ping, Packet::PingRequest(Default::default())),
        Act::Bogus(pid) => {
            if sh.auto_ack {
                for n in ["PUBACK", "PUBREC", "PUBREL", "PUBCOMP"] {
                    let (s, p) = ack_item(sh, n, (*pid).max(1));
                    sh.offer(Item::Ack(s), p);
                }
            }
        }
        Act::Pause => {
            sh.log(1, K::App("pause".into()));
            sim::count("fault_consumer_paused");
            sh.paused.set(true);
            sh.cons_n.notify_waiters();
        }
        Act::Resume => {
            sh.log(1, K::App("resume".into()));
            sh.paused.set(false);
            sh.cons_n.notify_waiters();
        }
        Act::Slow(ms) => {
            sim::count("fault_consumer_slow");
            sh.slow.set(*ms);
            sh.cons_n.notify_waiters();
        }
        Act::HoldApp(h) => {
            sh.hold_app.set(*h);
            if !*h {
                for (s, p) in std::mem::take(&mut *sh.held_app.borrow_mut()) {
                    sh.offer(Item::Ack(s), p);
                }
            }
        }
        Act::SPub { qos, n, size, gap } => {
            for i in 0..*n {
                if i > 0 && *gap > 0 {
                    nap(*gap).await;
                }
                let m = sh.next_msg();
                let props = msg_props(pm_of(m), m);
                let p = PublishP {
                    qos: *qos,
                    retain: m % 4 == 0,
                    topic: sh.topic("s", m),
                    props,
                    payload: payload(m, *size),
                    ..Default::default()
                };
                sh.store.borrow_mut().out.push_back(OutMsg { pid: None, p, st: OutSt::Queued });
                let c = sh.cur.borrow().clone();
                if let Some(c) = c {
                    pump(sh, &c);
                }
            }
        }
        _ => {}
    }
    let Some(c) = c else { return };
    if c.dead.get() || !c.up.get() {
        return;
    }
    match a {
        Act::SAgain => {
            let mut v = vec![];
            for m in sh.store.borrow_mut().out.iter_mut() {
                match m.st {
                    OutSt::Sent if m.p.qos == 2 => {
                        m.p.dup = true;
                        v.push(Pk::Publish(m.p.clone()));
                    }
                    OutSt::Recd => v.push(Pk::PubRel { pid: m.pid.unwrap(), reason: 0, props: vec![] }),
                    _ => {}
                }
            }
            for p in v {
                sim::count("fault_retransmission");
                c.send(p);
            }
        }
        Act::SPing => c.send(Pk::PingResp),
        Act::SAck(m) => {
            if *m != AckM::All {
                sim::count("fault_acks_withheld");
            }
            *c.ack.borrow_mut() = m.clone();
        }
        Act::SRelease { rev } => release(&c, *rev),
        Act::SHoldRel(h) => {
            c.hold_rel.set(*h);
            if !*h {
                for p in std::mem::take(&mut *c.held_rel.borrow_mut()) {
                    c.send(p);
                }
            }
        }
        Act::SReadStop => {
            sim::count("fault_peer_stops_reading");
            sh.log(0, K::ReadStop);
            c.stop.set(true);
            c.rdn.notify_one();
        }
        Act::SReadResume => {
            if c.stop.get() {
                sh.log(0, K::ReadResume);
                c.stop.set(false);
                c.rdn.notify_one();
            }
        }
        Act::Stall { cli, ms } => {
            sh.log(if *cli { 1 } else { 0 }, K::Stall(*ms as u64));
            let side = if *cli { 1 - c.side } else { c.side };
            let until = sim::now_ns() + *ms as u64 * 1_000_000;
            sh.stalled.set(sh.stalled.get().max(until));
            netctl::stall(c.sim, side, until);
        }
        _ => {}
    }
}

fn err(e: &vaux_client::MqttError) -> (ErrorKind, String) {
    (e.kind(), e.message().to_string())
}

/// Nothing but pings for five seconds.
async fn settle(sh: &Rc<Sh>, ended: &Cell<bool>) -> bool {
    let t0 = sim::now_ns();
    let mut seen = sh.hist.now();
    let mut rx = sh.rx.get();
    let mut quiet = 0;
    while sim::now_ns() - t0 < 300_000_000_000 && !ended.get() {
        tokio::time::sleep(Duration::from_millis(500)).await;
        let h = sh.hist.0.borrow();
        let busy = h[seen..].iter().any(|e| {
            !matches!(
                &e.k,
                K::Recv(Pk::PingReq) | K::Send(Pk::PingResp) | K::SendDone(_)
            ) && !matches!(&e.k, K::Got(_, k) if k == "PINGRESP")
        });
        seen = h.len();
        drop(h);
        let idle = sh.cur.borrow().as_ref().map(|c| c.outq.borrow().is_empty() && !c.writing.get()).unwrap_or(true);
        let moved = rx != sh.rx.get() || sim::now_ns() < sh.stalled.get();
        rx = sh.rx.get();
        if busy || !idle || moved {
            quiet = 0;
        } else {
            quiet += 1;
            if quiet >= 10 {
                return true;
            }
        }
    }
    false
}

struct Watch {
    ended: Cell<bool>,
    n: Notify,
    state: RefCell<Option<vaux_client::session::SessionState>>,
}

async fn session(sh: &Rc<Sh>, cfg: &CCfg, k: usize, s: &CSess, state: Option<vaux_client::session::SessionState>) -> Option<vaux_client::session::SessionState> {
    sh.k.set(k);
    *sh.hs.borrow_mut() = s.hs.clone();
    *sh.cur.borrow_mut() = None;
    sh.win.set(s.win);
    sh.over.set(false);
    sh.paused.set(false);
    sh.slow.set(0);
    sh.hold_app.set(false);
    sh.held_app.borrow_mut().clear();
    sh.drop_cons.set(None);
    netctl::set_connect(
        ADDR.parse().unwrap(),
        match s.net {
            0 => netctl::ConnectMode::Normal,
            1 => netctl::ConnectMode::Refuse,
            _ => netctl::ConnectMode::BlackHole,
        },
    );
    if s.net == 1 {
        sim::count("fault_connect_refused");
    } else if s.net > 1 {
        sim::count("fault_connect_unanswered");
    }
    if !matches!(s.hs, Hs::Ok { .. }) {
        sim::count("fault_handshake");
    }
    let mut conn = MqttConnection::new().with_host("127.0.0.1").with_port(1883);
    if cfg.tls {
        conn = conn.with_tls().with_trust_store(crate::tls::roots());
    }
    if let Some((u, p)) = auth(s.auth) {
        conn = conn.with_credentials(&u, &p);
    }
    sh.sexp.set(s.sexp);
    // only where the server loses the session as well
    let fresh = s.fresh && s.net == 0 && matches!(&s.hs, Hs::Ok { forget, .. } if *forget || s.clean);
    let state = if fresh { None } else { state };
    let carried = state.is_some();
    sh.with(|o| o.carried = carried);
    let mut b = match state {
        Some(st) => ClientBuilder::default().with_state(conn, st),
        None => ClientBuilder::new(conn).with_client_id(if cfg.empty_cid { "" } else { "sut" }),
    };
    b = b
        .with_auto_ack(cfg.auto_ack)
        .with_auto_packet_id(cfg.auto_pid)
        .with_keep_alive_enabled(cfg.ka_on)
        .with_channel_size(cfg.chan.max(1))
        .with_max_connect_wait(Duration::from_millis(cfg.wait as u64))
        .with_pingresp(cfg.pingresp);
    if !(carried && s.keep) {
        b = b.with_keep_alive(Duration::from_secs(cfg.ka as u64));
        if cfg.rmax > 0 || cfg.rmax0 {
            b = b.with_receive_max(cfg.rmax);
        }
        if let Some(x) = s.exp {
            b = b.with_session_expiry(Duration::from_secs(x as u64));
        }
    }
    if let Some(w) = &s.will {
        b = b.with_will_message(will_lib(&will_pk(w, sh.k.get())));
    }
    let mut rxs = vec![];
    for (i, (t, cap)) in cfg.filt.iter().enumerate() {
        let (tx, rx) = mpsc::channel((*cap).max(1) as usize);
        b = b.with_filtered_consumer(ptype(*t), tx);
        rxs.push((i as u8 + 1, rx));
    }
    let mut client = match b.build().await {
        Ok(c) => c,
        Err(e) => {
            sh.with(|o| o.build_err = Some(e.to_string()));
            return None;
        }
    };
    let tx = client.packet_producer();
    if let Some(rx) = client.take_packet_consumer() {
        rxs.insert(0, (0, rx));
    }
    let mut tasks = vec![];
    for (ch, rx) in rxs {
        tasks.push(tokio::task::spawn_node(CLI, "consumer", consumer(sh.clone(), ch, rx)));
    }
    tasks.push(tokio::task::spawn_node(CLI, "producer", producer(sh.clone(), tx)));
    let never = Notify::new();
    for a in &s.pre {
        act(sh, a, &never).await;
    }
    // start
    sh.with(|o| {
        o.started = true;
        o.t_start = sim::now_ns();
    });
    sh.log(1, K::App(format!("start {:?} clean={}", s.try_wait, s.clean)));
    let (clean, tw) = (s.clean, s.try_wait);
    let h = tokio::task::spawn_node(CLI, "start", async move {
        let r = match tw {
            Some(ms) => client.try_start(Duration::from_millis(ms as u64), clean).await,
            None => client.start(clean).await,
        };
        (client, r)
    });
    let r = tokio::time::timeout(Duration::from_secs(120), h).await;
    let finish = |sh: &Rc<Sh>| {
        sh.over.set(true);
        sh.qn.notify_one();
        lift(sh);
    };
    let (mut client, r) = match r {
        Err(_) => {
            sh.log(1, K::App("start does not return".into()));
            finish(sh);
            return None;
        }
        Ok(Err(_)) => {
            sh.log(1, K::App("start panicked".into()));
            sh.with(|o| o.panicked = true);
            finish(sh);
            return None;
        }
        Ok(Ok(x)) => x,
    };
    let flag = client.connected().await;
    sh.with(|o| {
        o.t_started = sim::now_ns();
        o.connected_at_start = flag;
        o.start = Some(match &r {
            Ok(_) => Ok(()),
            Err(e) => Err(err(e)),
        });
    });
    sh.log(1, K::App(format!("start returned {:?} connected={flag}", r.as_ref().map(|_| ()).map_err(err))));
    let handle = match r {
        Ok(h) => h,
        Err(_) => {
            tokio::time::sleep(Duration::from_millis(500)).await;
            let sim = sh.with(|o| o.sim);
            sh.with(|o| o.open_after_fail = Some(sim.map(|(i, s)| netctl::is_open(i, s)).unwrap_or(false)));
            drop(client);
            finish(sh);
            tokio::time::sleep(Duration::from_millis(500)).await;
            for t in tasks {
                t.abort();
            }
            sh.q.borrow_mut().clear();
            return None;
        }
    };
    let w = Rc::new(Watch { ended: Cell::new(false), n: Notify::new(), state: RefCell::new(None) });
    {
        let w = w.clone();
        let sh = sh.clone();
        tokio::task::spawn_node(CLI, "watch", async move {
            let r = handle.await;
            let (res, st, panicked) = match r {
                Ok(Ok(st)) => (Some(Ok(())), Some(st), false),
                Ok(Err(e)) => (Some(Err(err(&e.mqtt_error))), Some(e.state), false),
                Err(_) => (None, None, true),
            };
            sh.log(1, K::App(format!("client task ended: {res:?} panicked={panicked}")));
            let i = sh.hist.now();
            sh.with(|o| {
                o.t_ended = Some(sim::now_ns());
                o.i_ended = i;
                o.result = res;
                o.panicked |= panicked;
            });
            *w.state.borrow_mut() = st;
            w.ended.set(true);
            w.n.notify_waiters();
        });
    }
    // connected?
    let t0 = tokio::time::Instant::now();
    while t0.elapsed() < Duration::from_millis(cfg.wait as u64 + 5000) && !w.ended.get() {
        let up = sh.cur.borrow().as_ref().map(|c| c.up.get()).unwrap_or(false);
        if !up {
            let _ = tokio::time::timeout(Duration::from_millis(100), sh.cur_n.notified()).await;
        } else if client.connected().await {
            let neg = (client.keep_alive().await.as_secs(), client.session_expiry().await.as_secs());
            sh.with(|o| {
                o.saw_connected = true;
                o.neg = Some(neg);
            });
            break;
        } else {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    for a in &s.acts {
        if w.ended.get() {
            break;
        }
        act(sh, a, &w.n).await;
    }
    if s.settle && !w.ended.get() {
        lift(sh);
        sh.log(1, K::App("settle".into()));
        let t = sim::now_ns();
        let q = settle(sh, &w.ended).await;
        let i = sh.hist.now();
        if !w.ended.get() {
            sh.log(1, K::App(format!("settled quiet={q}")));
            sh.with(|o| {
                o.t_settle = Some((t, sim::now_ns(), q));
                o.i_settled = i;
            });
        }
    }
    let i = sh.hist.now();
    sh.with(|o| {
        o.early = w.ended.get();
        o.t_end_act = Some(sim::now_ns());
        o.i_end_act = i;
    });
    let mut stop_task = None;
    if !w.ended.get() {
        sh.log(1, K::App(format!("end {:?}", s.end)));
        let c = sh.cur.borrow().clone();
        match (&s.end, c) {
            (CEnd::Stop, _) | (_, None) => {
                stop_task = Some(());
            }
            (CEnd::ProdDisc, _) => {
                lift(sh);
                sh.offer(Item::Disconnect, Packet::Disconnect(Default::default()))
            }
            (CEnd::DropCons(ch), Some(c)) => {
                sh.drop_cons.set(Some(*ch));
                sh.cons_n.notify_waiters();
                sim::count("fault_consumer_dropped");
                tokio::time::sleep(Duration::from_millis(200)).await;
                // something for the dropped consumer
                let open = |t: u8| !cfg.filt.iter().any(|f| f.0 == t);
                let t = if *ch == 0 {
                    [0u8, 5, 6].into_iter().find(|t| open(*t)).unwrap_or(255)
                } else {
                    cfg.filt.get(*ch as usize - 1).map(|x| x.0).unwrap_or(255)
                };
                match t {
                    0 => c.send(Pk::Publish(PublishP { topic: "s/end".into(), payload: payload(sh.next_msg(), 0), ..Default::default() })),
                    5 => c.send(Pk::SubAck { pid: 19999, codes: vec![0], props: vec![] }),
                    6 => c.send(Pk::UnsubAck { pid: 19999, codes: vec![0], props: vec![] }),
                    _ => stop_task = Some(()),
                }
            }
            (CEnd::SClose, Some(c)) => {
                sim::count("fault_close");
                c.push(Out::Close)
            }
            (CEnd::SRst, Some(c)) => {
                sh.log(0, K::Rst);
                netctl::rst(c.sim, c.side);
                c.kill();
            }
            (CEnd::SDisc(r), Some(c)) => {
                c.send(Pk::Disconnect { reason: *r, props: vec![] });
                // it goes on reading: closing with unread bytes would destroy the DISCONNECT
                let c2 = c.clone();
                tokio::task::spawn_local(async move {
                    tokio::time::sleep(Duration::from_secs(20)).await;
                    c2.push(Out::Close);
                });
            }
            (CEnd::SCrash { lose }, Some(c)) => {
                sh.log(0, K::Crash { lose: *lose, rst: true });
                netctl::crash_end(c.sim, c.side, *lose, true);
                c.kill();
            }
            (CEnd::ResetBoth, Some(c)) => {
                sh.log(0, K::Rst);
                netctl::reset_both(c.sim);
            }
            (CEnd::Junk(x), Some(c)) => {
                sim::count("fault_malformed_bytes");
                c.push(Out::Raw(unhex(x)));
            }
            (CEnd::Cut(n), Some(c)) => {
                sim::count("fault_cut_packet");
                let b = mq::encode(&Pk::Publish(PublishP { qos: 1, topic: "s/cut".into(), pid: Some(9999), payload: payload(0, 300), ..Default::default() }));
                c.push(Out::Raw(b[..(*n).clamp(1, b.len() - 1)].to_vec()));
                c.push(Out::Close);
            }
            (CEnd::Huge, Some(c)) => {
                sim::count("fault_oversized_packet");
                c.push(Out::Raw(mq::encode(&Pk::Publish(PublishP { topic: "s/huge".into(), payload: vec![b'x'; 90_000], ..Default::default() }))));
            }
            (CEnd::Illegal(x), Some(c)) => {
                sim::count("fault_illegal_packet");
                c.send(if *x == 0 { Pk::PubAck { pid: 60001, reason: 0, props: vec![] } } else { Pk::PubComp { pid: 60001, reason: 0, props: vec![] } });
            }
            (CEnd::HalfOpenStop, Some(c)) => {
                sh.log(0, K::HalfOpen);
                netctl::blackhole(c.sim);
                c.freeze();
                tokio::time::sleep(Duration::from_millis(300)).await;
                stop_task = Some(());
            }
        }
    }
    if stop_task.is_some() {
        sh.log(1, K::App("stop".into()));
        let i = sh.hist.now();
        sh.with(|o| {
            o.t_end_act = Some(sim::now_ns());
            o.i_end_act = i;
        });
        let sh2 = sh.clone();
        // stop() may have to wait for room in the channel
        let h = tokio::task::spawn_node(CLI, "stop", async move {
            let r = client.stop().await;
            let k = sh2.log(1, K::App(format!("stop returned {:?}", r.as_ref().map_err(err))));
            let _ = k;
            sh2.with(|o| {
                o.stop_ret = Some(r.map_err(|e| e.message().to_string()));
                o.t_stop_ret = sim::now_ns();
            });
            client
        });
        match tokio::time::timeout(Duration::from_secs(60), h).await {
            Ok(Ok(c)) => client = c,
            _ => {
                sh.log(1, K::App("stop does not return".into()));
                finish(sh);
                return None;
            }
        }
    }
    // whatever held the client up on our side is over
    let free = !matches!(s.end, CEnd::Stop | CEnd::HalfOpenStop);
    if free {
        lift_consumers(sh);
    }
    sh.with(|o| o.t_free = sim::now_ns());
    let t0 = tokio::time::Instant::now();
    while !w.ended.get() && t0.elapsed() < Duration::from_secs(120) {
        let _ = tokio::time::timeout(Duration::from_millis(500), w.n.notified()).await;
    }
    sh.over.set(true);
    sh.qn.notify_one();
    if w.ended.get() {
        tokio::time::sleep(Duration::from_millis(100)).await;
        let f = tokio::time::timeout(Duration::from_secs(5), client.connected()).await;
        let sim = sh.with(|o| o.sim);
        sh.with(|o| {
            o.connected_after = f.ok();
            o.open_after = sim.map(|(i, s)| netctl::is_open(i, s));
        });
    } else {
        sh.log(1, K::App("client task does not end".into()));
    }
    lift_consumers(sh);
    drop(client);
    let c = sh.cur.borrow().clone();
    for t in tasks {
        let _ = tokio::time::timeout(Duration::from_secs(30), t).await;
    }
    sh.q.borrow_mut().clear();
    // the server notices
    tokio::time::sleep(Duration::from_millis(500)).await;
    if let Some(c) = c {
        if !c.dead.get() {
            let left = sh.stalled.get().saturating_sub(sim::now_ns());
            let _ = tokio::time::timeout(Duration::from_secs(5) + Duration::from_nanos(left), async {
                while !c.dead.get() {
                    tokio::time::sleep(Duration::from_millis(50)).await;
                }
            })
            .await;
        }
        c.kill();
    }
    let st = w.state.borrow_mut().take();
    st
}
fn lift_consumers(sh: &Rc<Sh>) {
    sh.paused.set(false);
    sh.slow.set(0);
    sh.cons_n.notify_waiters();
}

pub fn run(scn: &CScn, dec: sim::Decider, entropy: u64) -> COut {
    let hist = Hist::default();
    let sh = Rc::new(Sh {
        hist: hist.clone(),
        store: Default::default(),
        hs: Default::default(),
        sexp: Default::default(),
        win: Cell::new((0, 0)),
        k: Cell::new(0),
        cur: Default::default(),
        cur_n: Notify::new(),
        sess: RefCell::new(vec![SessOut::default(); scn.sessions.len()]),
        items: Default::default(),
        msg: Cell::new(1),
        q: Default::default(),
        qn: Notify::new(),
        paused: Cell::new(false),
        slow: Cell::new(0),
        hold_app: Cell::new(false),
        held_app: Default::default(),
        drop_cons: Cell::new(None),
        cons_n: Notify::new(),
        auto_ack: scn.cfg.auto_ack,
        auto_pid: scn.cfg.auto_pid,
        wide: scn.cfg.wide,
        tls: scn.cfg.tls.then(crate::tls::acceptor),
        next_pid: Cell::new(1),
        own: Cell::new(0),
        rx: Cell::new(0),
        stalled: Cell::new(0),
        over: Cell::new(false),
    });
    let (sh2, scn2) = (sh.clone(), scn.clone());
    let out = sim::run(scn.knobs.cfg(), dec, entropy, async move {
        let (sh, scn) = (sh2, scn2);
        let sh3 = sh.clone();
        let up = Rc::new(Notify::new());
        let up2 = up.clone();
        tokio::task::spawn_node(SRV, "server", async move {
            let l = TcpListener::bind(ADDR).await.expect("bind");
            up2.notify_one();
            server(sh3, l).await;
        });
        up.notified().await;
        let mut state = None;
        for (k, s) in scn.sessions.iter().enumerate() {
            if s.gap > 0 {
                tokio::time::sleep(Duration::from_millis(s.gap as u64)).await;
            }
            state = session(&sh, &scn.cfg, k, s, state).await;
        }
    });
    let h = std::mem::take(&mut *hist.0.borrow_mut());
    let items = std::mem::take(&mut *sh.items.borrow_mut());
    let sess = std::mem::take(&mut *sh.sess.borrow_mut());
    COut {
        hist: h,
        items,
        sess,
        end: out.end,
        stats: out.stats,
        trace: out.trace,
    }
}
