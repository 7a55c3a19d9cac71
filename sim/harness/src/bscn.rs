//! Broker scenarios: scripted peers speaking MQTT over the simulated network against the real broker.
use crate::hist::*;
use crate::mq::{self, *};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
use tokio::sim::{self, netctl};
use tokio::sync::Notify;

pub const BROKER_NODE: u32 = 1;
pub const ADDR: &str = "127.0.0.1:1883";

fn is_def<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BCfg {
    pub max_active: Option<u32>,
    pub channel: usize,
    pub def_ka: u16,
    pub max_ka: u16,
    pub expiry: u32,
    #[serde(default, skip_serializing_if = "is_def")]
    pub tls: bool,
    /// added to the maximum keep-alive, to the expiry interval: beyond what the protocol can express
    #[serde(default, skip_serializing_if = "is_def")]
    pub ka_extra: u32,
    #[serde(default, skip_serializing_if = "is_def")]
    pub exp_extra: u64,
}
impl Default for BCfg {
    fn default() -> Self {
        BCfg { max_active: None, channel: 64, def_ka: 2, max_ka: 20, expiry: 600, tls: false, ka_extra: 0, exp_extra: 0 }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Knobs {
    pub sched: u8,
    pub preempt: f64,
    pub reorder: f64,
    pub select_random: bool,
    pub latency_us: u32,
    pub jitter_us: u32,
    pub jitter_p: f64,
    pub split_p: f64,
    pub window: usize,
    pub timer_late_us: u32,
    pub max_steps: u64,
    pub max_time_s: u64,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            sched: 0,
            preempt: 0.0,
            reorder: 0.0,
            select_random: false,
            latency_us: 100,
            jitter_us: 0,
            jitter_p: 0.0,
            split_p: 0.0,
            window: 65536,
            timer_late_us: 0,
            max_steps: 3_000_000,
            max_time_s: 3600,
        }
    }
}
impl Knobs {
    pub fn cfg(&self) -> sim::Config {
        sim::Config {
            sched: self.sched,
            preempt: self.preempt,
            reorder: self.reorder,
            select_random: self.select_random,
            latency_us: self.latency_us,
            jitter_us: self.jitter_us,
            jitter_p: self.jitter_p,
            split_p: self.split_p,
            window: self.window,
            timer_late_us: self.timer_late_us,
            max_steps: self.max_steps,
            max_time_ns: self.max_time_s * 1_000_000_000,
            livelock: 20_000,
            record_trace: true,
        }
    }
    /// the longest a segment can take, ns
    pub fn max_lat(&self) -> u64 {
        (self.latency_us as u64 + self.jitter_us as u64) * 1000
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct WillSpec {
    pub topic: String,
    #[serde(default, skip_serializing_if = "is_def")]
    pub qos: u8,
    #[serde(default, skip_serializing_if = "is_def")]
    pub retain: bool,
    #[serde(default, skip_serializing_if = "is_def")]
    pub delay: u32,
    /// which message properties it has, see `msg_props`
    #[serde(default, skip_serializing_if = "is_def")]
    pub pm: u8,
    #[serde(default, skip_serializing_if = "is_def")]
    pub size: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum Ack {
    #[default]
    All,
    None,
    /// acknowledge the first n publishes, hold the rest
    First(u32),
    /// hold every nth
    Skip(u32),
    /// acknowledge after so many ms
    Delay(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Conn {
    #[serde(default, skip_serializing_if = "is_def")]
    pub cid: String,
    #[serde(default, skip_serializing_if = "is_def")]
    pub clean: bool,
    #[serde(default, skip_serializing_if = "is_def")]
    pub ka: u16,
    #[serde(default, skip_serializing_if = "is_def")]
    pub exp: Option<u32>,
    #[serde(default, skip_serializing_if = "is_def")]
    pub will: Option<WillSpec>,
    /// receive window of the peer (bytes); 0: the default
    #[serde(default, skip_serializing_if = "is_def")]
    pub win: usize,
    #[serde(default, skip_serializing_if = "is_def")]
    pub ack: Ack,
    /// send PINGREQ every so many percent of the keep-alive in force; 0: never
    #[serde(default, skip_serializing_if = "is_def")]
    pub ping: u32,
    /// do not wait for the CONNACK
    #[serde(default, skip_serializing_if = "is_def")]
    pub nowait: bool,
    #[serde(default, skip_serializing_if = "is_def")]
    pub user: Option<String>,
    /// receive maximum; 0: not sent
    #[serde(default, skip_serializing_if = "is_def")]
    pub rmax: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// new TCP connection and CONNECT
    Connect(Conn),
    /// new TCP connection only
    Open { win: usize },
    /// CONNECT on the current connection
    ConnectPk(Conn),
    Sub(Vec<(String, u8)>),
    Unsub(Vec<String>),
    Pub {
        topic: String,
        qos: u8,
        n: u32,
        size: u32,
        gap: u32,
        dup: bool,
        #[serde(default, skip_serializing_if = "is_def")]
        pm: u8,
    },
    Ping,
    /// wait until every request on the current connection is answered (or it is closed), at most ms
    Await(u32),
    AwaitClosed(u32),
    Wait(u32),
    AckMode(Ack),
    AckHeld,
    /// acknowledge something that was never delivered
    BogusAck(u16),
    ReadStop,
    ReadResume,
    /// stop sending PINGREQ
    PingStop,
    Disconnect(u8),
    Close,
    Shut,
    Rst,
    Crash { lose: usize, rst: bool },
    HalfOpen,
    /// the path from the peer to the broker stands still for ms
    Stall(u32),
    Raw(String),
    /// the first `keep` bytes of a valid packet of ours
    Partial { pk: u8, keep: usize },
    /// several packets in one write: their bytes are concatenated
    Batch(Vec<Op>),
    /// wait until all actors that have this point reached it
    Sync(u32),
    /// do it on the connection `back` before the current one
    On { back: u32, op: Box<Op> },
    AcceptErr(i32),
    /// accepting fails for ms while there are connections to accept
    AcceptFail { code: i32, ms: u32 },
    /// `Broker::set_session_expiration`
    SetExpiry(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct BScn {
    pub cfg: BCfg,
    pub knobs: Knobs,
    pub actors: Vec<Vec<Op>>,
    /// simulated ms after the last actor is done
    pub settle: u32,
    /// what the generator built the scenario for (bounds of some checks depend on it)
    #[serde(default)]
    pub tag: String,
}

struct ConnSt {
    idx: usize,
    actor: usize,
    sim: Cell<u64>,
    side: Cell<usize>,
    outq: RefCell<VecDeque<Out>>,
    outn: Notify,
    closed_by_us: Cell<bool>,
    dead: Cell<bool>,
    /// reader must not read
    stop: Cell<bool>,
    rdn: Notify,
    change: Notify,
    connack: Cell<Option<(bool, u8)>>,
    ka: Cell<u16>,
    outstanding: Cell<i64>,
    ack: RefCell<Ack>,
    acked: Cell<u32>,
    seen: Cell<u32>,
    held: RefCell<Vec<u16>>,
    pinging: Cell<bool>,
    next_pid: Cell<u16>,
    tasks: RefCell<Vec<tokio::task::JoinHandle<()>>>,
}
enum Out {
    Pk(Pk),
    Raw(Vec<u8>),
    Multi(Vec<Pk>),
    Close,
    Shut,
}
impl ConnSt {
    fn send(&self, p: Pk) {
        match &p {
            Pk::Subscribe { .. } | Pk::Unsub { .. } | Pk::PingReq => self.outstanding.set(self.outstanding.get() + 1),
            Pk::Publish(x) if x.qos == 1 => self.outstanding.set(self.outstanding.get() + 1),
            _ => {}
        }
        self.push(Out::Pk(p));
    }
    fn push(&self, o: Out) {
        self.outq.borrow_mut().push_back(o);
        self.outn.notify_one();
    }
    fn pid(&self) -> u16 {
        let p = self.next_pid.get();
        self.next_pid.set(if p == u16::MAX { 1 } else { p + 1 });
        p
    }
}

pub struct Shared {
    pub hist: Hist,
    next_conn: Cell<usize>,
    syncs: RefCell<Vec<(u32, u32, u32)>>, // (point, wanted, arrived)
    sync_n: Notify,
    payload: Cell<u64>,
    tls: Option<tokio_rustls::TlsConnector>,
    broker: Rc<RefCell<Option<vaux_broker::Broker>>>,
}

pub fn payload(n: u64, size: u32) -> Vec<u8> {
    let mut v = format!("m{n:08}.").into_bytes();
    while v.len() < size as usize {
        v.push(b'a' + ((n + v.len() as u64) % 23) as u8);
    }
    v
}

/// message properties of message `n`; what is present is given by the bits of `pm`
pub fn msg_props(pm: u8, n: u64) -> Props {
    let mut p: Props = vec![];
    let b = |k: u32| pm >> k & 1 == 1;
    if b(0) {
        p.push((0x01, PV::U8((n % 2) as u8)));
    }
    if b(1) {
        p.push((0x02, PV::U32(if n % 5 == 0 { u32::MAX } else { 100_000 + n as u32 })));
    }
    if b(2) {
        p.push((0x03, PV::Str(format!("text/\u{e4}{}", n % 7))));
    }
    if b(3) {
        p.push((0x08, PV::Str(format!("re/{}", n % 3))));
    }
    if b(4) {
        p.push((0x09, PV::Bin((0..1 + n % 9).map(|k| (n * 37 + k * 251) as u8).collect())));
    }
    if b(5) {
        for k in 0..1 + n % 5 {
            // names repeat, and come in no alphabetical order
            p.push((0x26, PV::Pair(["z", "a", "", "z", "m"][((n / 5 + k) % 5) as usize].to_string(), format!("v{}", n * 10 + k))));
        }
    }
    if b(6) {
        p.push((0x23, PV::U16(1 + (n % 3) as u16)));
    }
    if b(7) {
        p.reverse();
        // pairs keep the order in which they are meant
        let mut q: Vec<(u8, PV)> = p.iter().filter(|x| x.0 == 0x26).cloned().collect();
        q.reverse();
        for x in p.iter_mut().filter(|x| x.0 == 0x26) {
            *x = q.remove(0);
        }
    }
    p
}

/// what a receiver is owed of them: pairs in order, the rest sorted; without what belongs to one hop only and
/// without a payload format 0, which means the same as none
pub fn owed_props(p: &Props) -> Props {
    let mut v: Props = p.iter().filter(|x| !matches!(x.0, 0x02 | 0x0b | 0x18 | 0x23 | 0x26) && **x != (0x01, PV::U8(0))).cloned().collect();
    v.sort_by_key(|x| x.0);
    v.extend(p.iter().filter(|x| x.0 == 0x26).cloned());
    v
}

async fn put(sh: &Shared, w: &mut crate::tls::W, b: &[u8]) -> std::io::Result<()> {
    w.write_all(b).await?;
    if sh.tls.is_some() {
        w.flush().await?;
    }
    Ok(())
}

async fn writer(sh: Rc<Shared>, c: Rc<ConnSt>, mut w: crate::tls::W) {
    loop {
        let o = c.outq.borrow_mut().pop_front();
        let Some(o) = o else {
            c.outn.notified().await;
            continue;
        };
        match o {
            Out::Pk(p) => {
                let b = mq::encode(&p);
                let i = sh.hist.log(c.actor, c.idx, K::Send(p));
                match put(&sh, &mut w, &b).await {
                    Ok(()) => {
                        sh.hist.log(c.actor, c.idx, K::SendDone(i));
                    }
                    Err(e) => {
                        sh.hist.log(c.actor, c.idx, K::SendFail(i, e.to_string()));
                        break;
                    }
                }
            }
            Out::Multi(ps) => {
                let mut b = vec![];
                let mut ids = vec![];
                for p in ps {
                    b.extend(mq::encode(&p));
                    ids.push(sh.hist.log(c.actor, c.idx, K::Send(p)));
                }
                let r = put(&sh, &mut w, &b).await;
                for i in ids {
                    match &r {
                        Ok(()) => sh.hist.log(c.actor, c.idx, K::SendDone(i)),
                        Err(e) => sh.hist.log(c.actor, c.idx, K::SendFail(i, e.to_string())),
                    };
                }
                if r.is_err() {
                    break;
                }
            }
            Out::Raw(b) => {
                let i = sh.hist.log(c.actor, c.idx, K::Raw(b.clone()));
                if put(&sh, &mut w, &b).await.is_ok() {
                    sh.hist.log(c.actor, c.idx, K::RawDone(i));
                } else {
                    break;
                }
            }
            Out::Shut => {
                sh.hist.log(c.actor, c.idx, K::Shut);
                let _ = w.shutdown().await;
            }
            Out::Close => {
                sh.hist.log(c.actor, c.idx, K::Close);
                c.closed_by_us.set(true);
                c.rdn.notify_one();
                c.change.notify_waiters();
                return; // the write half goes; the reader drops its own
            }
        }
    }
    // keep the half: dropping it would close our side
    std::future::pending::<()>().await;
}

fn on_packet(sh: &Rc<Shared>, c: &Rc<ConnSt>, p: &Pk) {
    match p {
        Pk::ConnAck { sp, reason, props } => {
            if c.connack.get().is_none() {
                c.connack.set(Some((*sp, *reason)));
            }
            for (id, v) in props {
                if let (0x13, PV::U16(k)) = (*id, v) {
                    c.ka.set(*k);
                }
            }
        }
        Pk::SubAck { .. } | Pk::UnsubAck { .. } | Pk::PubAck { .. } | Pk::PingResp => {
            c.outstanding.set(c.outstanding.get() - 1)
        }
        Pk::Publish(x) if x.qos > 0 => {
            let pid = x.pid.unwrap_or(0);
            let n = c.seen.get();
            c.seen.set(n + 1);
            let ack = c.ack.borrow().clone();
            let now = match ack {
                Ack::All => true,
                Ack::None => false,
                Ack::First(k) => c.acked.get() < k,
                Ack::Skip(k) => k == 0 || n % k != 0,
                Ack::Delay(ms) => {
                    let c2 = c.clone();
                    let h = tokio::task::spawn_local(async move {
                        tokio::time::sleep(Duration::from_millis(ms as u64)).await;
                        c2.push(Out::Pk(Pk::PubAck { pid, reason: 0, props: vec![] }));
                    });
                    drop(h);
                    c.change.notify_waiters();
                    return;
                }
            };
            if now {
                c.acked.set(c.acked.get() + 1);
                c.push(Out::Pk(Pk::PubAck { pid, reason: 0, props: vec![] }));
            } else {
                c.held.borrow_mut().push(pid);
            }
        }
        _ => {}
    }
    let _ = sh;
    c.change.notify_waiters();
}

async fn reader(sh: Rc<Shared>, c: Rc<ConnSt>, mut r: crate::tls::R, deaf: bool) {
    let mut dec = Decoder::default();
    let mut buf = vec![0u8; 8192];
    'out: loop {
        if c.closed_by_us.get() {
            return;
        }
        if c.stop.get() {
            c.rdn.notified().await;
            continue;
        }
        tokio::select! {
            biased;
            _ = c.rdn.notified() => { continue; }
            x = r.read(&mut buf) => match x {
                Ok(0) => {
                    if dec.leftover() > 0 {
                        sh.hist.log(c.actor, c.idx, K::Note(format!("{} bytes of an incomplete packet before the end", dec.leftover())));
                    }
                    sh.hist.log(c.actor, c.idx, K::Eof);
                    break 'out;
                }
                Ok(_) if deaf => {}
                Err(e) if sh.tls.is_some() && e.kind() == std::io::ErrorKind::UnexpectedEof => {
                    // the end without TLS's own
                    sh.hist.log(c.actor, c.idx, K::Eof);
                    break 'out;
                }
                Ok(n) => {
                    dec.feed(&buf[..n]);
                    loop {
                        match dec.next() {
                            Ok(Some(p)) => {
                                sh.hist.log(c.actor, c.idx, K::Recv(p.clone()));
                                on_packet(&sh, &c, &p);
                            }
                            Ok(None) => break,
                            Err(e) => {
                                sh.hist.log(c.actor, c.idx, K::Undecodable(e));
                                break 'out;
                            }
                        }
                    }
                }
                Err(e) => {
                    sh.hist.log(c.actor, c.idx, K::Reset(e.to_string()));
                    break 'out;
                }
            }
        }
    }
    c.dead.set(true);
    c.change.notify_waiters();
    // keep our half until the script closes the connection
    loop {
        if c.closed_by_us.get() {
            return;
        }
        c.rdn.notified().await;
    }
}

async fn wait_until(c: &ConnSt, ms: u64, f: impl Fn(&ConnSt) -> bool) -> bool {
    let end = tokio::time::Instant::now() + Duration::from_millis(ms);
    loop {
        let n = c.change.notified();
        if f(c) {
            return true;
        }
        if tokio::time::timeout_at(end, n).await.is_err() {
            return f(c);
        }
    }
}

fn connect_pk(sh: &Rc<Shared>, k: &Conn) -> Pk {
    let mut props = vec![];
    if let Some(e) = k.exp {
        props.push((0x11, PV::U32(e)));
    }
    if k.rmax > 0 {
        props.push((0x21, PV::U16(k.rmax)));
    }
    let will = k.will.as_ref().map(|w| {
        let n = sh.payload.get();
        sh.payload.set(n + 1);
        let mut p = vec![];
        if w.delay > 0 {
            p.push((0x18, PV::U32(w.delay)));
        }
        p.extend(msg_props(w.pm & !0x40, n));
        WillP { topic: w.topic.clone(), payload: payload(n, w.size), qos: w.qos, retain: w.retain, props: p }
    });
    Pk::Connect(ConnectP { cid: k.cid.clone(), clean: k.clean, ka: k.ka, props, will, user: k.user.clone(), pass: None })
}

fn op_packets(sh: &Rc<Shared>, c: &ConnSt, op: &Op) -> Vec<Pk> {
    match op {
        Op::Sub(f) => vec![Pk::Subscribe { pid: c.pid(), filters: f.clone(), props: vec![] }],
        Op::Unsub(f) => vec![Pk::Unsub { pid: c.pid(), filters: f.clone(), props: vec![] }],
        Op::Ping => vec![Pk::PingReq],
        Op::Disconnect(r) => vec![Pk::Disconnect { reason: *r, props: vec![] }],
        Op::BogusAck(p) => vec![Pk::PubAck { pid: *p, reason: 0, props: vec![] }],
        Op::ConnectPk(k) => vec![connect_pk(sh, k)],
        Op::Pub { topic, qos, n, size, dup, pm, .. } => (0..*n)
            .map(|_| {
                let k = sh.payload.get();
                sh.payload.set(k + 1);
                Pk::Publish(PublishP {
                    dup: *dup && *qos > 0,
                    qos: *qos,
                    retain: false,
                    topic: topic.clone(),
                    pid: (*qos > 0).then(|| c.pid()),
                    props: msg_props(*pm, k),
                    payload: payload(k, *size),
                })
            })
            .collect(),
        _ => vec![],
    }
}

type Conns = Rc<RefCell<Vec<Rc<ConnSt>>>>;

async fn open(sh: &Rc<Shared>, actor: usize, conns: &Conns, win: usize, secure: bool) -> Option<Rc<ConnSt>> {
    let idx = sh.next_conn.get();
    sh.next_conn.set(idx + 1);
    let r = TcpStream::connect(ADDR).await;
    let s = match r {
        Ok(s) => s,
        Err(e) => {
            sh.hist.log(actor, idx, K::OpenFail(e.to_string()));
            return None;
        }
    };
    let (id, side) = (s.sim_id(), s.sim_side());
    if win > 0 {
        netctl::set_window(id, 1 - side, win);
    }
    sh.hist.log(actor, idx, K::Open { sim: id, side });
    let c = Rc::new(ConnSt {
        idx,
        actor,
        sim: Cell::new(id),
        side: Cell::new(side),
        outq: Default::default(),
        outn: Notify::new(),
        closed_by_us: Cell::new(false),
        dead: Cell::new(false),
        stop: Cell::new(false),
        rdn: Notify::new(),
        change: Notify::new(),
        connack: Cell::new(None),
        ka: Cell::new(0),
        outstanding: Cell::new(0),
        ack: RefCell::new(Ack::All),
        acked: Cell::new(0),
        seen: Cell::new(0),
        held: Default::default(),
        pinging: Cell::new(false),
        next_pid: Cell::new(1),
        tasks: Default::default(),
    });
    let mut deaf = false;
    let (r, w) = match &sh.tls {
        Some(t) if secure => match tokio::time::timeout(Duration::from_secs(60), crate::tls::client(t, s)).await {
            Ok(Ok(x)) => {
                sim::count("tls_handshakes");
                x
            }
            e => {
                let e = e.map(|x| x.err().map(|x| x.to_string()));
                sh.hist.log(actor, idx, K::Note(format!("no TLS: {e:?}")));
                sh.hist.log(actor, idx, K::Close);
                return None;
            }
        },
        x => {
            // nothing it understands
            deaf = x.is_some();
            crate::tls::plain(s)
        }
    };
    let a = tokio::task::spawn_local(reader(sh.clone(), c.clone(), r, deaf));
    let b = tokio::task::spawn_local(writer(sh.clone(), c.clone(), w));
    c.tasks.borrow_mut().push(a);
    c.tasks.borrow_mut().push(b);
    conns.borrow_mut().push(c.clone());
    Some(c)
}

fn start_ping(c: &Rc<ConnSt>, pct: u32) {
    c.pinging.set(true);
    let c2 = c.clone();
    tokio::task::spawn_local(async move {
        let ka = c2.ka.get().max(1) as u64 * 1_000_000;
        let mut first = true;
        loop {
            let d = if first { ka * pct as u64 / 200 } else { ka * pct as u64 / 100 };
            first = false;
            tokio::time::sleep(Duration::from_micros(d)).await;
            if c2.dead.get() || c2.closed_by_us.get() || !c2.pinging.get() {
                return;
            }
            c2.send(Pk::PingReq);
        }
    });
}

fn run_op<'a>(
    sh: &'a Rc<Shared>,
    actor: usize,
    conns: &'a Conns,
    back: usize,
    op: &'a Op,
) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + 'a>> {
    Box::pin(async move {
        let cur = {
            let v = conns.borrow();
            if v.len() > back {
                Some(v[v.len() - 1 - back].clone())
            } else {
                None
            }
        };
        match op {
            Op::Connect(k) => {
                let Some(c) = open(sh, actor, conns, k.win, true).await else { return };
                *c.ack.borrow_mut() = k.ack.clone();
                c.ka.set(k.ka);
                c.push(Out::Pk(connect_pk(sh, k)));
                if !k.nowait {
                    let ok = wait_until(&c, 30_000, |c| c.connack.get().is_some() || c.dead.get()).await;
                    if !ok {
                        sh.hist.log(actor, c.idx, K::AwaitTimeout);
                    }
                }
                if k.ping > 0 {
                    start_ping(&c, k.ping);
                }
                return;
            }
            Op::Open { win } => {
                open(sh, actor, conns, *win, false).await;
                return;
            }
            Op::Wait(ms) => {
                tokio::time::sleep(Duration::from_millis(*ms as u64)).await;
                return;
            }
            Op::Sync(k) => {
                {
                    let mut s = sh.syncs.borrow_mut();
                    if let Some(x) = s.iter_mut().find(|x| x.0 == *k) {
                        x.2 += 1;
                    }
                }
                sh.sync_n.notify_waiters();
                let end = tokio::time::Instant::now() + Duration::from_secs(120);
                loop {
                    let n = sh.sync_n.notified();
                    let ok = sh.syncs.borrow().iter().find(|x| x.0 == *k).map(|x| x.2 >= x.1).unwrap_or(true);
                    if ok || tokio::time::timeout_at(end, n).await.is_err() {
                        return;
                    }
                }
            }
            Op::AcceptErr(code) => {
                sh.hist.log(actor, usize::MAX, K::AcceptErr(*code));
                sim::count("fault_accept_error");
                netctl::fail_accept(ADDR.parse().unwrap(), *code);
                return;
            }
            Op::AcceptFail { code, ms } => {
                sh.hist.log(actor, usize::MAX, K::AcceptErr(*code));
                sim::count("fault_accept_fails");
                netctl::fail_accept_until(ADDR.parse().unwrap(), *code, sim::now_ns() + *ms as u64 * 1_000_000);
                return;
            }
            Op::SetExpiry(secs) => {
                // one at a time
                let Some(mut b) = sh.broker.borrow_mut().take() else { return };
                let i = sh.hist.log(actor, usize::MAX, K::SetExpiry(*secs));
                sim::count("op_set_session_expiration");
                b.set_session_expiration(Duration::from_secs(*secs)).await;
                sh.hist.log(actor, usize::MAX, K::SetExpiryDone(i));
                *sh.broker.borrow_mut() = Some(b);
                return;
            }
            Op::On { back, op } => {
                return run_op(sh, actor, conns, *back as usize, op).await;
            }
            _ => {}
        }
        let Some(c) = cur else { return };
        if c.closed_by_us.get() {
            return;
        }
        match op {
            Op::Pub { n, gap, .. } if *gap > 0 => {
                let one = match op {
                    Op::Pub { topic, qos, size, dup, pm, .. } => {
                        Op::Pub { topic: topic.clone(), qos: *qos, n: 1, size: *size, gap: 0, dup: *dup, pm: *pm }
                    }
                    _ => unreachable!(),
                };
                for i in 0..*n {
                    if i > 0 {
                        tokio::time::sleep(Duration::from_millis(*gap as u64)).await;
                    }
                    for p in op_packets(sh, &c, &one) {
                        c.send(p);
                    }
                }
            }
            Op::ConnectPk(_) | Op::Sub(_) | Op::Unsub(_) | Op::Pub { .. } | Op::Ping | Op::Disconnect(_) | Op::BogusAck(_) => {
                for p in op_packets(sh, &c, op) {
                    c.send(p);
                }
            }
            Op::Batch(ops) => {
                let mut v = vec![];
                for o in ops {
                    for p in op_packets(sh, &c, o) {
                        match &p {
                            Pk::Subscribe { .. } | Pk::Unsub { .. } | Pk::PingReq => {
                                c.outstanding.set(c.outstanding.get() + 1)
                            }
                            Pk::Publish(x) if x.qos == 1 => c.outstanding.set(c.outstanding.get() + 1),
                            _ => {}
                        }
                        v.push(p);
                    }
                }
                c.push(Out::Multi(v));
            }
            Op::Await(ms) => {
                let ok = wait_until(&c, *ms as u64, |c| {
                    c.dead.get() || (c.outstanding.get() <= 0 && c.outq.borrow().is_empty())
                })
                .await;
                sh.hist.log(actor, c.idx, if ok { K::AwaitOk } else { K::AwaitTimeout });
            }
            Op::AwaitClosed(ms) => {
                let ok = wait_until(&c, *ms as u64, |c| c.dead.get()).await;
                sh.hist.log(actor, c.idx, if ok { K::AwaitOk } else { K::AwaitTimeout });
            }
            Op::AckMode(a) => {
                *c.ack.borrow_mut() = a.clone();
            }
            Op::AckHeld => {
                let h = std::mem::take(&mut *c.held.borrow_mut());
                for pid in h {
                    c.push(Out::Pk(Pk::PubAck { pid, reason: 0, props: vec![] }));
                }
            }
            Op::ReadStop => {
                sh.hist.log(actor, c.idx, K::ReadStop);
                sim::count("fault_peer_stops_reading");
                c.stop.set(true);
                c.rdn.notify_one();
            }
            Op::ReadResume => {
                sh.hist.log(actor, c.idx, K::ReadResume);
                c.stop.set(false);
                c.rdn.notify_one();
            }
            Op::PingStop => {
                c.pinging.set(false);
                sim::count("fault_peer_silent");
            }
            Op::Close => {
                sim::count("fault_close");
                c.push(Out::Close);
                // if the writer is blocked, close anyway
                wait_until(&c, 2000, |c| c.closed_by_us.get()).await;
                if !c.closed_by_us.get() {
                    sh.hist.log(actor, c.idx, K::Rst);
                    force(&c);
                    netctl::rst(c.sim.get(), c.side.get());
                }
            }
            Op::Shut => {
                sim::count("fault_half_close");
                c.push(Out::Shut);
            }
            Op::Rst => {
                sh.hist.log(actor, c.idx, K::Rst);
                netctl::rst(c.sim.get(), c.side.get());
                force(&c);
            }
            Op::Crash { lose, rst } => {
                sh.hist.log(actor, c.idx, K::Crash { lose: *lose, rst: *rst });
                netctl::crash_end(c.sim.get(), c.side.get(), *lose, *rst);
                force_keep(&c, *rst);
            }
            Op::HalfOpen => {
                sh.hist.log(actor, c.idx, K::HalfOpen);
                netctl::blackhole(c.sim.get());
                force_keep(&c, false);
            }
            Op::Stall(ms) => {
                sh.hist.log(actor, c.idx, K::Stall(*ms as u64));
                netctl::stall(c.sim.get(), c.side.get(), sim::now_ns() + *ms as u64 * 1_000_000);
            }
            Op::Raw(h) => {
                sim::count("fault_malformed_bytes");
                c.push(Out::Raw(unhex(h)));
            }
            Op::Partial { pk, keep } => {
                sim::count("fault_cut_packet");
                let p = match pk % 4 {
                    0 => Pk::Publish(PublishP { qos: 1, topic: "part/ial".into(), pid: Some(9999), payload: payload(0, 300), ..Default::default() }),
                    1 => Pk::Subscribe { pid: 9998, filters: vec![("part/ial".into(), 1)], props: vec![] },
                    2 => Pk::Connect(ConnectP { cid: "partial".into(), clean: true, ..Default::default() }),
                    _ => Pk::PubAck { pid: 9997, reason: 0, props: vec![] },
                };
                let b = mq::encode(&p);
                let k = (*keep).clamp(1, b.len() - 1);
                c.push(Out::Raw(b[..k].to_vec()));
            }
            _ => {}
        }
    })
}
fn force(c: &ConnSt) {
    c.closed_by_us.set(true);
    c.dead.set(true);
    for t in c.tasks.borrow_mut().drain(..) {
        t.abort();
    }
    c.change.notify_waiters();
}
/// The peer's host is gone; its socket must neither close nor speak, so the halves are kept alive.
fn force_keep(c: &ConnSt, rst: bool) {
    if rst {
        force(c);
    } else {
        c.closed_by_us.set(false);
        c.dead.set(true);
        c.stop.set(true);
        c.pinging.set(false);
        c.outq.borrow_mut().clear();
        c.change.notify_waiters();
    }
}

pub struct BOut {
    pub hist: Vec<Ev>,
    pub end: sim::End,
    pub stats: sim::Stats,
    pub trace: Vec<(u64, u32)>,
    /// at the end: (connection, is the broker's end of it still open)
    pub open_at_end: Vec<(usize, bool)>,
    pub broker_conns: usize,
    /// broker polls during an idle stretch (only in scenarios tagged "idle")
    pub idle_polls: Option<u64>,
    pub idle_spins: u64,
}

fn count_syncs(ops: &[Op], m: &mut Vec<(u32, u32, u32)>) {
    for o in ops {
        if let Op::Sync(k) = o {
            match m.iter_mut().find(|x| x.0 == *k) {
                Some(x) => x.1 += 1,
                None => m.push((*k, 1, 0)),
            }
        }
    }
}

pub fn run(scn: &BScn, dec: sim::Decider, entropy: u64) -> BOut {
    let hist = Hist::default();
    let h2 = hist.clone();
    let scn2 = scn.clone();
    let all: Rc<RefCell<Vec<Conns>>> = Default::default();
    let all2 = all.clone();
    let res: Rc<RefCell<(Vec<(usize, bool)>, usize, Option<u64>, u64)>> = Default::default();
    let res2 = res.clone();
    let out = sim::run(scn.knobs.cfg(), dec, entropy, async move {
        let scn = scn2;
        let mut broker = vaux_broker::Broker::new_with_config(vaux_broker::Config {
            listen_addr: ADDR.parse().unwrap(),
            default_keep_alive: Duration::from_secs(scn.cfg.def_ka as u64),
            max_keep_alive: Duration::from_secs(scn.cfg.max_ka as u64 + scn.cfg.ka_extra as u64),
            session_expiry: Duration::from_secs(scn.cfg.expiry as u64 + scn.cfg.exp_extra),
            session_channel_size: scn.cfg.channel,
            max_active_sessions: scn.cfg.max_active,
            tls_acceptor: scn.cfg.tls.then(crate::tls::acceptor),
            ..Default::default()
        });
        let started = Rc::new(Cell::new(false));
        let st2 = started.clone();
        let keep: Rc<RefCell<Option<vaux_broker::Broker>>> = Default::default();
        let keep2 = keep.clone();
        let h = tokio::task::spawn_node(BROKER_NODE, "broker", async move {
            let r = broker.run().await;
            st2.set(r.is_ok());
            *keep2.borrow_mut() = Some(broker);
        });
        let _ = h.await;
        let mut syncs = vec![];
        for a in &scn.actors {
            count_syncs(a, &mut syncs);
        }
        let sh = Rc::new(Shared {
            tls: scn.cfg.tls.then(crate::tls::connector),
            broker: keep,
            hist: h2,
            next_conn: Cell::new(0),
            syncs: RefCell::new(syncs),
            sync_n: Notify::new(),
            payload: Cell::new(1),
        });
        let mut js = vec![];
        for (i, ops) in scn.actors.iter().enumerate() {
            let conns: Conns = Default::default();
            all2.borrow_mut().push(conns.clone());
            let ops = ops.clone();
            let sh = sh.clone();
            js.push(tokio::task::spawn_node(10 + i as u32, "actor", async move {
                for op in &ops {
                    run_op(&sh, i, &conns, 0, op).await;
                }
            }));
        }
        for j in js {
            let _ = j.await;
        }
        tokio::time::sleep(Duration::from_millis(scn.settle as u64)).await;
        if scn.tag == "idle" {
            let p0 = sim::polls_of_node(BROKER_NODE);
            let s0 = sim::spin_count();
            tokio::time::sleep(Duration::from_millis(900)).await;
            let mut r = res2.borrow_mut();
            r.2 = Some(sim::polls_of_node(BROKER_NODE) - p0);
            r.3 = sim::spin_count() - s0;
        }
        let mut v = vec![];
        for cs in all2.borrow().iter() {
            for c in cs.borrow().iter() {
                v.push((c.idx, netctl::is_open(c.sim.get(), 1 - c.side.get())));
            }
        }
        let n = netctl::open_ends(BROKER_NODE).len();
        let mut r = res2.borrow_mut();
        r.0 = v;
        r.1 = n;
    });
    drop(all);
    let r = res.borrow().clone();
    let hist = std::mem::take(&mut *hist.0.borrow_mut());
    BOut {
        hist,
        end: out.end,
        stats: out.stats,
        trace: out.trace,
        open_at_end: r.0,
        broker_conns: r.1,
        idle_polls: r.2,
        idle_spins: r.3,
    }
}
