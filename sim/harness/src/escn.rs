//! End to end: several real clients and the real broker in one simulation.
use crate::bscn::{payload, BCfg, Knobs, ADDR, BROKER_NODE};
use crate::hist::*;
use crate::mq::matches;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;
use std::time::Duration;
use tokio::sim::{self, netctl, Rng};
use tokio::sync::{mpsc, Notify};
use vaux_client::{ClientBuilder, MqttConnection};
use vaux_mqtt::{Packet, QoSLevel};

const S: u64 = 1_000_000_000;
const MS: u64 = 1_000_000;

fn is_def<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EAct {
    Wait(u32),
    Pub { topic: u8, qos: u8, n: u32, size: u32, gap: u32 },
    /// the application stops its client and starts it again
    Restart,
    /// the consumer takes this long per packet
    Slow(u32),
    Unsub(u8),
    Resub(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// reset sent by the client's (0) or the broker's (1) host
    Rst(u8),
    Both,
    /// the client's host dies, the last bytes it sent are lost
    Crash { lose: usize },
    /// the path is gone; the client's side (0), the broker's side (1) notice after so long (ms)
    Hole { cli: u32, brk: u32 },
    Stall { side: u8, ms: u32 },
    Window { side: u8, cap: usize },
    Refuse { ms: u32 },
    Silent { ms: u32 },
    Accept(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct ECli {
    #[serde(skip_serializing_if = "is_def")]
    pub subs: Vec<(u8, u8)>,
    #[serde(skip_serializing_if = "is_def")]
    pub manual: bool,
    #[serde(skip_serializing_if = "is_def")]
    pub own_pid: bool,
    #[serde(skip_serializing_if = "is_def")]
    pub rmax: u16,
    #[serde(skip_serializing_if = "is_def")]
    pub chan: u16,
    #[serde(skip_serializing_if = "is_def")]
    pub retry: u32,
    #[serde(skip_serializing_if = "is_def")]
    pub again: bool,
    #[serde(skip_serializing_if = "is_def")]
    pub acts: Vec<EAct>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct EScn {
    pub cfg: BCfg,
    #[serde(skip_serializing_if = "is_def")]
    pub knobs: Knobs,
    pub clis: Vec<ECli>,
    /// (after the previous one, ms; client; what)
    pub faults: Vec<(u32, u8, Fault)>,
}

const FILTERS: [&str; 5] = ["e/0", "e/+", "e/1/#", "e/2", "#"];
const TOPICS: [&str; 4] = ["e/0", "e/1", "e/1/x", "e/2"];

#[derive(Clone, Debug, PartialEq)]
enum E {
    Offer(usize),
    Acked(usize),
    Recv { msg: usize, dup: bool },
    Foreign(String),
    SubAck(usize),
    UnsubReq(usize),
    Starting,
    Up,
    StopCalled,
    Down(String),
    Fault(String),
    Calm,
    Probe,
    Note(String),
    SlowNow,
}
struct Msg {
    cli: usize,
    topic: usize,
    qos: u8,
    size: u32,
    probe: bool,
}

struct App {
    i: usize,
    spec: ECli,
    out: RefCell<VecDeque<Packet>>,
    outn: Notify,
    pid: Cell<u16>,
    by_pid: RefCell<BTreeMap<u16, usize>>,
    sub_ok: RefCell<BTreeSet<usize>>,
    sub_want: RefCell<BTreeSet<usize>>,
    up: Cell<bool>,
    stop: Cell<bool>,
    stop_n: Notify,
    slow: Cell<u32>,
    over: Cell<bool>,
    done: Cell<bool>,
    outstanding: Cell<i64>,
    /// acknowledgements that may have been on their way to the application when a connection ended
    may_miss: Cell<i64>,
    /// this connection's number and side of the client
    last_activity: Cell<u64>,
}
struct Sh {
    ev: RefCell<Vec<(u64, usize, E)>>,
    msgs: RefCell<Vec<Msg>>,
    over: Cell<bool>,
    tls: bool,
    panicked: RefCell<Vec<String>>,
}
impl Sh {
    fn log(&self, c: usize, e: E) {
        self.ev.borrow_mut().push((sim::now_ns(), c, e));
    }
}

fn node(i: usize) -> u32 {
    30 + i as u32
}

impl App {
    fn push(&self, p: Packet) {
        self.out.borrow_mut().push_back(p);
        self.outn.notify_one();
    }
    fn publish(&self, sh: &Sh, topic: usize, qos: u8, size: u32, probe: bool) {
        let m = sh.msgs.borrow().len();
        sh.msgs.borrow_mut().push(Msg { cli: self.i, topic, qos, size, probe });
        let pl = payload(m as u64, size);
        let t = TOPICS[topic].to_string();
        let p = if qos == 0 {
            vaux_mqtt::publish::Publish::new_with_payload(None, t, QoSLevel::AtMostOnce, pl).expect("publish")
        } else {
            self.outstanding.set(self.outstanding.get() + 1);
            if self.spec.own_pid {
                let id = self.pid.get() + 1;
                self.pid.set(id);
                self.by_pid.borrow_mut().insert(id, m);
                vaux_mqtt::publish::Publish::new_with_payload(Some(id), t, QoSLevel::AtLeastOnce, pl).expect("publish")
            } else {
                let mut p = vaux_mqtt::publish::Publish::new_with_payload(None, t, QoSLevel::AtMostOnce, pl).expect("publish");
                p.set_qos(QoSLevel::AtLeastOnce);
                p
            }
        };
        sh.log(self.i, E::Offer(m));
        self.push(Packet::Publish(p));
    }
    fn subscribe(&self, k: usize) {
        let (f, q) = self.spec.subs[k];
        let mut s = vaux_mqtt::Subscribe { packet_id: 60000 + k as u16, ..Default::default() };
        s.add_filter(vaux_mqtt::SubscriptionFilter::new(
            FILTERS[f as usize % FILTERS.len()].to_string(),
            if q == 0 { QoSLevel::AtMostOnce } else { QoSLevel::AtLeastOnce },
        ));
        self.push(Packet::Subscribe(s));
    }
}

async fn producer(a: Rc<App>, tx: mpsc::Sender<Packet>, over: Rc<Cell<bool>>) {
    loop {
        if over.get() {
            return;
        }
        let x = a.out.borrow_mut().pop_front();
        let Some(p) = x else {
            a.outn.notified().await;
            continue;
        };
        if let Err(e) = tx.send(p).await {
            // not accepted: the next client gets it
            a.out.borrow_mut().push_front(e.0);
            return;
        }
    }
}

async fn consumer(sh: Rc<Sh>, a: Rc<App>, mut rx: mpsc::Receiver<Packet>, tx: mpsc::Sender<Packet>) {
    while let Some(p) = rx.recv().await {
        a.last_activity.set(sim::now_ns());
        match &p {
            Packet::Publish(x) => {
                let m = x.payload.as_ref().and_then(|b| std::str::from_utf8(b).ok()).and_then(|t| t.get(1..9)).and_then(|t| t.parse::<usize>().ok());
                let known = m.filter(|m| {
                    sh.msgs.borrow().get(*m).is_some_and(|y| {
                        x.topic_name == TOPICS[y.topic] && x.payload.as_deref() == Some(&payload(*m as u64, y.size)[..])
                    })
                });
                match known {
                    Some(m) => {
                        sh.log(a.i, E::Recv { msg: m, dup: x.dup() });
                    }
                    None => sh.log(a.i, E::Foreign(format!("{:?} {} bytes", x.topic_name, x.payload.as_ref().map_or(0, |p| p.len())))),
                }
                if a.spec.manual && x.qos() == QoSLevel::AtLeastOnce {
                    let k = vaux_mqtt::pubresp::PubResp::new_puback_with_packet_id(x.packet_id().unwrap_or(0));
                    if tx.send(Packet::PubAck(k)).await.is_err() {
                        // the connection has ended; it will be delivered again
                    }
                }
            }
            Packet::PubAck(x) => {
                a.outstanding.set(a.outstanding.get() - 1);
                match a.by_pid.borrow().get(&x.packet_id) {
                    Some(m) => sh.log(a.i, E::Acked(*m)),
                    None => sh.log(a.i, E::Note(format!("PUBACK {}", x.packet_id))),
                }
            }
            Packet::SubAck(x) => {
                let k = x.packet_id().wrapping_sub(60000) as usize;
                if a.sub_want.borrow().contains(&k) && a.sub_ok.borrow_mut().insert(k) {
                    sh.log(a.i, E::SubAck(k));
                }
            }
            _ => {}
        }
        let s = a.slow.get();
        if s > 0 {
            tokio::time::sleep(Duration::from_millis(s as u64)).await;
        }
    }
}

/// Runs the application of one client until the end of the run.
async fn life(sh: Rc<Sh>, a: Rc<App>, expiry: u32) {
    let cid = format!("cli{}", a.i);
    let mut state: Option<vaux_client::session::SessionState> = None;
    let mut first = true;
    while !a.over.get() {
        let mut conn = MqttConnection::new().with_host("127.0.0.1").with_port(1883);
        if sh.tls {
            conn = conn.with_tls().with_trust_store(crate::tls::roots());
        }
        let mut b = match state.take() {
            Some(st) => ClientBuilder::default().with_state(conn, st),
            None => {
                if !first {
                    sh.log(a.i, E::Note("session state lost".into()));
                }
                ClientBuilder::new(conn).with_client_id(&cid)
            }
        };
        first = false;
        b = b
            .with_auto_ack(!a.spec.manual)
            .with_auto_packet_id(!a.spec.own_pid)
            .with_session_expiry(Duration::from_secs(expiry as u64))
            .with_channel_size(a.spec.chan.max(1))
            .with_max_connect_wait(Duration::from_secs(3));
        if a.spec.rmax > 0 {
            b = b.with_receive_max(a.spec.rmax);
        }
        let mut client = match b.build().await {
            Ok(c) => c,
            Err(e) => {
                sh.panicked.borrow_mut().push(format!("build: {e}"));
                return;
            }
        };
        let tx = client.packet_producer();
        let rx = client.take_packet_consumer().unwrap();
        let over = Rc::new(Cell::new(false));
        let pt = tokio::task::spawn_node(node(a.i), "producer", producer(a.clone(), tx.clone(), over.clone()));
        let ct = tokio::task::spawn_node(node(a.i), "consumer", consumer(sh.clone(), a.clone(), rx, tx));
        let handle = loop {
            sh.log(a.i, E::Starting);
            match client.start(false).await {
                Ok(h) => break Some(h),
                Err(e) => {
                    sh.log(a.i, E::Note(format!("start: {e}")));
                    if a.over.get() {
                        break None;
                    }
                    tokio::time::sleep(Duration::from_millis(a.spec.retry as u64 + 20)).await;
                }
            }
        };
        let Some(mut handle) = handle else {
            over.set(true);
            a.outn.notify_one();
            return;
        };
        // up?
        let mut res = None;
        loop {
            match tokio::time::timeout(Duration::from_millis(4), &mut handle).await {
                Ok(r) => {
                    res = Some(r);
                    break;
                }
                Err(_) => {
                    if client.connected().await {
                        break;
                    }
                }
            }
        }
        if res.is_none() {
            sh.log(a.i, E::Up);
            a.up.set(true);
            a.last_activity.set(sim::now_ns());
            for k in a.sub_want.borrow().iter() {
                if a.spec.again || !a.sub_ok.borrow().contains(k) {
                    a.subscribe(*k);
                }
            }
            loop {
                if a.stop.get() || a.over.get() {
                    a.stop.set(false);
                    sh.log(a.i, E::StopCalled);
                    let _ = tokio::time::timeout(Duration::from_secs(30), client.stop()).await;
                    match tokio::time::timeout(Duration::from_secs(60), &mut handle).await {
                        Ok(r) => res = Some(r),
                        Err(_) => {
                            sh.panicked.borrow_mut().push(format!("client {} does not stop", a.i));
                            return;
                        }
                    }
                    break;
                }
                tokio::select! {
                    biased;
                    r = &mut handle => {
                        res = Some(r);
                        break;
                    }
                    _ = a.stop_n.notified() => {}
                }
            }
        }
        a.up.set(false);
        let why = match res.unwrap() {
            Ok(Ok(st)) => {
                state = Some(st);
                "stopped".to_string()
            }
            Ok(Err(e)) => {
                let w = format!("{:?} {}", e.kind(), e.mqtt_error);
                state = Some(e.state);
                w
            }
            Err(_) => {
                sh.panicked.borrow_mut().push(format!("the task of client {} panicked", a.i));
                return;
            }
        };
        sh.log(a.i, E::Down(why));
        if a.spec.chan < 100 {
            a.may_miss.set(a.may_miss.get() + 1);
        }
        over.set(true);
        a.outn.notify_one();
        drop(client);
        // everything the client handed over is taken
        let _ = tokio::time::timeout(Duration::from_secs(5), pt).await;
        let slow = a.slow.replace(0);
        let _ = tokio::time::timeout(Duration::from_secs(60), ct).await;
        a.slow.set(slow);
        if a.over.get() {
            return;
        }
        tokio::time::sleep(Duration::from_millis(a.spec.retry as u64)).await;
    }
}

async fn acts(sh: Rc<Sh>, a: Rc<App>) {
    let acts = a.spec.acts.clone();
    for x in &acts {
        match x {
            EAct::Wait(ms) => tokio::time::sleep(Duration::from_millis(*ms as u64)).await,
            EAct::Pub { topic, qos, n, size, gap } => {
                for i in 0..*n {
                    if i > 0 && *gap > 0 {
                        tokio::time::sleep(Duration::from_millis(*gap as u64)).await;
                    }
                    a.publish(&sh, *topic as usize % TOPICS.len(), *qos, *size, false);
                }
            }
            EAct::Restart => {
                if a.up.get() {
                    sim::count("client_restart");
                    a.stop.set(true);
                    a.stop_n.notify_one();
                }
            }
            EAct::Slow(ms) => {
                sim::count("fault_consumer_slow");
                sh.log(a.i, E::SlowNow);
                a.slow.set(*ms);
            }
            EAct::Unsub(k) => {
                let k = *k as usize % a.spec.subs.len().max(1);
                if a.sub_want.borrow_mut().remove(&k) {
                    a.sub_ok.borrow_mut().remove(&k);
                    sh.log(a.i, E::UnsubReq(k));
                    let f = FILTERS[a.spec.subs[k].0 as usize % FILTERS.len()];
                    a.push(Packet::Unsubscribe(vaux_mqtt::unsubscribe::Unsubscribe::new(61000 + k as u16, vec![f.to_string()])));
                }
            }
            EAct::Resub(k) => {
                let k = *k as usize % a.spec.subs.len().max(1);
                if a.sub_want.borrow().contains(&k) {
                    a.subscribe(k);
                }
            }
        }
    }
    a.done.set(true);
}

fn conn_of(i: usize) -> Option<(u64, usize)> {
    netctl::open_ends(node(i)).into_iter().last()
}

async fn faults(sh: Rc<Sh>, apps: Vec<Rc<App>>, fs: Vec<(u32, u8, Fault)>) {
    let addr = ADDR.parse().unwrap();
    let mut until = 0u64;
    for (ms, c, f) in &fs {
        tokio::time::sleep(Duration::from_millis(*ms as u64)).await;
        let i = *c as usize % apps.len();
        let cn = conn_of(i);
        match (f, cn) {
            (Fault::Refuse { ms }, _) | (Fault::Silent { ms }, _) => {
                let r = matches!(f, Fault::Refuse { .. });
                sim::count(if r { "fault_connect_refused" } else { "fault_connect_unanswered" });
                netctl::set_connect(addr, if r { netctl::ConnectMode::Refuse } else { netctl::ConnectMode::BlackHole });
                sh.log(i, E::Note(format!("{f:?}")));
                tokio::time::sleep(Duration::from_millis(*ms as u64)).await;
                netctl::set_connect(addr, netctl::ConnectMode::Normal);
            }
            (Fault::Accept(n), _) => {
                for _ in 0..*n {
                    sim::count("fault_accept_error");
                    netctl::fail_accept(addr, 24);
                }
                sh.log(i, E::Note(format!("{f:?}")));
            }
            (_, None) => {}
            (f, Some((id, side))) => {
                sh.log(i, E::Fault(format!("{f:?}")));
                match f {
                    // the process is told by its own system
                    Fault::Rst(0) => {
                        netctl::rst(id, side);
                        netctl::timeout_end(id, side)
                    }
                    Fault::Rst(_) => {
                        netctl::rst(id, 1 - side);
                        netctl::timeout_end(id, 1 - side)
                    }
                    Fault::Both => netctl::reset_both(id),
                    Fault::Crash { lose } => {
                        netctl::crash_end(id, side, *lose, true);
                        netctl::timeout_end(id, side);
                    }
                    Fault::Hole { cli, brk } => {
                        netctl::blackhole(id);
                        let (cli, brk) = (*cli, *brk);
                        until = until.max(sim::now_ns() + cli.max(brk) as u64 * MS);
                        tokio::task::spawn_local(async move {
                            tokio::time::sleep(Duration::from_millis(cli as u64)).await;
                            netctl::timeout_end(id, side);
                        });
                        tokio::task::spawn_local(async move {
                            tokio::time::sleep(Duration::from_millis(brk as u64)).await;
                            netctl::timeout_end(id, 1 - side);
                        });
                    }
                    Fault::Stall { side: d, ms } => {
                        let t = sim::now_ns() + *ms as u64 * MS;
                        until = until.max(t);
                        netctl::stall(id, if *d == 0 { side } else { 1 - side }, t);
                    }
                    Fault::Window { side: d, cap } => {
                        sim::count("fault_small_window");
                        netctl::set_window(id, if *d == 0 { side } else { 1 - side }, (*cap).max(1));
                    }
                    _ => {}
                }
            }
        }
    }
    let now = sim::now_ns();
    if until > now {
        tokio::time::sleep(Duration::from_nanos(until - now)).await;
    }
}

pub struct EOut {
    pub viols: Vec<Violation>,
    pub lines: Vec<String>,
    pub end: sim::End,
    pub stats: sim::Stats,
    pub trace: Vec<(u64, u32)>,
    pub events: u64,
    pub reached: bool,
}

pub fn run(scn: &EScn, dec: sim::Decider, entropy: u64) -> EOut {
    let sh = Rc::new(Sh { ev: Default::default(), msgs: Default::default(), over: Cell::new(false), tls: scn.cfg.tls, panicked: Default::default() });
    let (sh2, scn2) = (sh.clone(), scn.clone());
    let out = sim::run(scn.knobs.cfg(), dec, entropy, async move {
        let (sh, scn) = (sh2, scn2);
        let mut broker = vaux_broker::Broker::new_with_config(vaux_broker::Config {
            listen_addr: ADDR.parse().unwrap(),
            default_keep_alive: Duration::from_secs(scn.cfg.def_ka as u64),
            max_keep_alive: Duration::from_secs(scn.cfg.max_ka as u64),
            session_expiry: Duration::from_secs(scn.cfg.expiry as u64),
            session_channel_size: scn.cfg.channel,
            max_active_sessions: scn.cfg.max_active,
            tls_acceptor: scn.cfg.tls.then(crate::tls::acceptor),
            ..Default::default()
        });
        let keep: Rc<RefCell<Option<vaux_broker::Broker>>> = Default::default();
        let keep2 = keep.clone();
        let _ = tokio::task::spawn_node(BROKER_NODE, "broker", async move {
            let _ = broker.run().await;
            *keep2.borrow_mut() = Some(broker);
        })
        .await;
        let mut apps = vec![];
        for (i, c) in scn.clis.iter().enumerate() {
            apps.push(Rc::new(App {
                i,
                spec: c.clone(),
                out: Default::default(),
                outn: Notify::new(),
                pid: Cell::new(0),
                by_pid: Default::default(),
                sub_ok: Default::default(),
                sub_want: RefCell::new((0..c.subs.len()).collect()),
                up: Cell::new(false),
                stop: Cell::new(false),
                stop_n: Notify::new(),
                slow: Cell::new(0),
                over: Cell::new(false),
                done: Cell::new(false),
                outstanding: Cell::new(0),
                may_miss: Cell::new(0),
                last_activity: Cell::new(0),
            }));
        }
        if apps.is_empty() {
            return;
        }
        let mut lives = vec![];
        let mut act = vec![];
        for a in &apps {
            lives.push(tokio::task::spawn_node(node(a.i), "app", life(sh.clone(), a.clone(), scn.cfg.expiry)));
            act.push(tokio::task::spawn_node(node(a.i), "acts", acts(sh.clone(), a.clone())));
        }
        faults(sh.clone(), apps.clone(), scn.faults.clone()).await;
        for x in act {
            let _ = x.await;
        }
        // no more faults
        for a in &apps {
            a.slow.set(0);
            if let Some((id, side)) = conn_of(a.i) {
                netctl::set_window(id, side, scn.knobs.window);
                netctl::set_window(id, 1 - side, scn.knobs.window);
            }
        }
        sh.log(0, E::Calm);
        // every client comes back, whatever was sent is acknowledged
        let patience = if scn.cfg.channel < 100 { 4 * S } else { 60 * S };
        let quiet = |apps: &[Rc<App>]| {
            apps.iter().all(|a| {
                a.up.get()
                    && a.outstanding.get() <= a.may_miss.get()
                    && a.out.borrow().is_empty()
                    && a.sub_ok.borrow().len() == a.sub_want.borrow().len()
                    && a.last_activity.get() + 2 * S <= sim::now_ns()
            })
        };
        let t0 = sim::now_ns();
        while sim::now_ns() < t0 + patience && !quiet(&apps) {
            tokio::time::sleep(Duration::from_millis(100)).await;
        }
        for a in &apps {
            if !a.up.get() {
                sh.log(a.i, E::Note("not up".into()));
            }
        }
        // a new publish gets through
        sh.log(0, E::Probe);
        for a in &apps {
            for t in 0..TOPICS.len() {
                a.publish(&sh, t, 1, 0, true);
            }
        }
        tokio::time::sleep(Duration::from_millis(3000)).await;
        let t0 = sim::now_ns();
        while sim::now_ns() < t0 + patience && !quiet(&apps) {
            tokio::time::sleep(Duration::from_millis(100)).await;
        }
        for a in &apps {
            if a.outstanding.get() > a.may_miss.get() {
                sh.log(a.i, E::Note(format!("outstanding {}", a.outstanding.get())));
            }
        }
        sh.over.set(true);
        for a in &apps {
            a.over.set(true);
            a.stop_n.notify_one();
        }
        for l in lives {
            if tokio::time::timeout(Duration::from_secs(150), l).await.is_err() {
                sh.panicked.borrow_mut().push("a client does not end".into());
            }
        }
    });
    let mut o = EOut { viols: vec![], lines: vec![], end: out.end, stats: out.stats, trace: out.trace, events: 0, reached: false };
    check(scn, &sh, &mut o);
    o
}

fn check(scn: &EScn, sh: &Sh, o: &mut EOut) {
    let ev = sh.ev.borrow();
    let msgs = sh.msgs.borrow();
    o.events = ev.len() as u64;
    o.reached = ev.iter().any(|e| matches!(e.2, E::Recv { .. })) && ev.iter().any(|e| matches!(e.2, E::Down(_)));
    for (t, c, e) in ev.iter() {
        let x = match e {
            E::Offer(m) => format!("offers m{m} q{} on {}", msgs[*m].qos, TOPICS[msgs[*m].topic]),
            e => format!("{e:?}"),
        };
        o.lines.push(format!("{:>12.6}s client {c} {x}", *t as f64 / 1e9));
    }
    let v = &mut o.viols;
    let bad = |v: &mut Vec<Violation>, c: &str, d: String| viol(v, "E01", c, d);
    match &o.end {
        sim::End::Done => {}
        sim::End::StepLimit | sim::End::TimeLimit => {
            viol(v, "HARNESS", "limit", format!("{:?}", o.end));
            return;
        }
        e => {
            bad(v, "hang", format!("the run ended with {e:?}"));
            return;
        }
    }
    for p in o.stats.panics.iter() {
        bad(v, "panic", p.clone());
    }
    for p in sh.panicked.borrow().iter() {
        bad(v, "client", p.clone());
    }
    let n = scn.clis.len();
    let slow = scn.clis.iter().any(|c| c.acts.iter().any(|a| matches!(a, EAct::Slow(_))));
    let big = scn.cfg.channel > 2 * msgs.len() * 5;
    let roomy = big && !slow;
    // when was a client served for certain: (from, to) in event indices
    struct Up {
        from: usize,
        to: usize,
    }
    let mut ups: Vec<Vec<Up>> = (0..n).map(|_| vec![]).collect();
    for (c, u) in ups.iter_mut().enumerate() {
        let mut from: Option<usize> = None;
        let mut hurt = false;
        let mut starts = 0;
        let mut faulted = false;
        let mut to = None;
        for (i, (_, x, e)) in ev.iter().enumerate() {
            if *x != c {
                continue;
            }
            match e {
                E::Starting => {
                    hurt = false;
                    starts += 1;
                }
                E::Up => {
                    from = Some(i);
                    to = if hurt { Some(i) } else { None };
                }
                E::Fault(_) => {
                    hurt = true;
                    faulted = true;
                    if to.is_none() {
                        to = Some(i);
                    }
                }
                E::StopCalled => {
                    if to.is_none() {
                        to = Some(i);
                    }
                }
                E::Down(w) => {
                    if let Some(f) = from.take() {
                        match to {
                            Some(t) => u.push(Up { from: f, to: t }),
                            None => {
                                // a CONNECT of an earlier attempt may have been on its way
                                let late = faulted && starts > 1;
                                if !hurt && roomy && !late {
                                    bad(v, "ended without a reason", format!("client {c}: event {i}: the connection ended ({w}) although nothing was wrong"));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some(f) = from {
            u.push(Up { from: f, to: to.unwrap_or(ev.len()) });
        }
    }
    // subscriptions: in force from .. to
    let mut subs: Vec<Vec<(usize, usize, usize)>> = (0..n).map(|_| vec![]).collect();
    for (i, (_, c, e)) in ev.iter().enumerate() {
        match e {
            E::SubAck(k) => subs[*c].push((*k, i, ev.len())),
            E::UnsubReq(k) => {
                for s in subs[*c].iter_mut().filter(|s| s.0 == *k) {
                    s.2 = s.2.min(i);
                }
            }
            _ => {}
        }
    }
    let mut offer = vec![usize::MAX; msgs.len()];
    let mut acked = vec![usize::MAX; msgs.len()];
    let mut recv: Vec<BTreeMap<usize, Vec<usize>>> = vec![BTreeMap::new(); n];
    for (i, (_, c, e)) in ev.iter().enumerate() {
        match e {
            E::Offer(m) => offer[*m] = i,
            E::Acked(m) => acked[*m] = acked[*m].min(i),
            E::Recv { msg, .. } => recv[*c].entry(*msg).or_default().push(i),
            E::Foreign(s) => bad(v, "not published", format!("client {c} received {s}, which nobody published")),
            E::Note(s) if s == "not up" && !big => {}
            E::Note(s) if s == "not up" => bad(v, "not back", format!("client {c} is not connected 60 s after the last fault")),
            E::Note(s) if s.starts_with("outstanding") && !big => {}
            E::Note(s) if s.starts_with("outstanding") => {
                bad(v, "never acknowledged", format!("client {c}: {s} publishes are not acknowledged 60 s after the last fault"))
            }
            E::Note(s) if s == "session state lost" => bad(v, "client", format!("client {c}: {s}")),
            _ => {}
        }
    }
    for s in 0..n {
        // never asked for
        for (m, at) in &recv[s] {
            let t = TOPICS[msgs[*m].topic];
            if !scn.clis[s].subs.iter().any(|x| matches(FILTERS[x.0 as usize % FILTERS.len()], t)) {
                bad(v, "not subscribed", format!("client {s} received m{m} on {t} (event {})", at[0]));
            }
        }
        let lone = ev.iter().filter(|e| e.1 == s && matches!(e.2, E::Starting)).count() == 1;
        // the first receipt of everything
        let mut due: Vec<usize> = vec![];
        for (m, x) in msgs.iter().enumerate() {
            if x.qos == 0 {
                continue;
            }
            let t = TOPICS[x.topic];
            let (a, b) = (offer[m], if acked[m] != usize::MAX { acked[m] } else { ev.len() });
            let on = |k: &(usize, usize, usize)| k.1 < a && k.2 > b.min(ev.len() - 1);
            let live: BTreeSet<usize> = subs[s]
                .iter()
                .filter(|k| on(k) && matches(FILTERS[scn.clis[s].subs[k.0].0 as usize % FILTERS.len()], t) && scn.clis[s].subs[k.0].1 > 0)
                .map(|k| k.0)
                .collect();
            if live.is_empty() {
                continue;
            }
            let b2 = if acked[m] != usize::MAX { b } else { end_of(&ev) };
            if !ups[s].iter().any(|u| u.from < a && b2 < u.to) {
                continue;
            }
            due.push(m);
            let got = recv[s].get(&m);
            match got {
                // a session may end because its queue is full some time before its client notices
                None if !big => {}
                None => {
                    let d = format!("m{m} on {t} of client {} (offered at event {a}, acknowledged: {}) never reached client {s}", x.cli, acked[m] != usize::MAX);
                    bad(v, if x.probe { "no progress" } else { "lost" }, d);
                }
                Some(_) => {}
            }
        }
        // exactly once where nothing happened to either
        if lone {
            for (m, at) in &recv[s] {
                let x = &msgs[*m];
                let still = ev.iter().filter(|e| e.1 == x.cli && matches!(e.2, E::Starting)).count() == 1;
                let t = TOPICS[x.topic];
                let k: BTreeSet<u8> = scn.clis[s].subs.iter().filter(|y| matches(FILTERS[y.0 as usize % FILTERS.len()], t)).map(|y| y.0 % FILTERS.len() as u8).collect();
                if still && at.len() > k.len() {
                    bad(v, "twice", format!("client {s} received m{m} {} times with {} matching subscriptions, no connection was lost", at.len(), k.len()));
                }
            }
        }
        // order of first receipt
        for (i, a) in due.iter().enumerate() {
            let _ = i;
            let Some(ra) = recv[s].get(a) else { continue };
            for (b, rb) in recv[s].range(a + 1..) {
                if msgs[*b].cli == msgs[*a].cli && msgs[*b].qos > 0 && rb[0] < ra[0] {
                    bad(v, "order", format!("client {s} received m{b} (event {}) before m{a} (event {})", rb[0], ra[0]));
                    return;
                }
            }
        }
    }
}

/// where the probing ended
fn end_of(ev: &[(u64, usize, E)]) -> usize {
    ev.iter().rposition(|e| !matches!(e.2, E::StopCalled | E::Down(_))).unwrap_or(0)
}

fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    &v[r.below(v.len() as u64) as usize]
}

pub fn generate(r: &mut Rng, k: u64) -> EScn {
    let mut s = EScn { cfg: BCfg { max_active: None, channel: 4096, def_ka: 60, max_ka: *pick(r, &[10, 30, 120]), expiry: 3600, tls: k % 16 != 15 && (r.chance(0.05) || std::env::var("VSIM_TLS").is_ok()), ka_extra: 0, exp_extra: 0 }, ..Default::default() };
    s.knobs = crate::bgen::knobs(r);
    if k % 16 == 15 {
        s.cfg.channel = *pick(r, &[4, 16]);
    }
    let n = r.range(1, 4) as usize;
    for i in 0..n {
        let mut c = ECli {
            manual: r.chance(0.25),
            own_pid: r.chance(0.6),
            rmax: *pick(r, &[0, 0, 0, 1, 3, 20]),
            chan: *pick(r, &[1, 4, 16, 128]),
            retry: *pick(r, &[0, 5, 50, 500]),
            again: r.chance(0.2),
            ..Default::default()
        };
        if i > 0 || n == 1 || r.chance(0.4) {
            let mut fs: Vec<u8> = vec![0, 1, 2, 3, 4];
            for _ in 0..r.range(1, 3) {
                let j = r.below(fs.len() as u64) as usize;
                c.subs.push((fs.remove(j), if r.chance(0.85) { 1 } else { 0 }));
            }
        }
        if r.chance(0.9) {
            c.acts.push(EAct::Wait(*pick(r, &[5, 20, 100])));
        }
        for _ in 0..r.range(1, 8) {
            let a = match r.below(20) {
                0..=9 => EAct::Pub {
                    topic: r.below(4) as u8,
                    qos: if r.chance(0.85) { 1 } else { 0 },
                    n: r.range(1, 12) as u32,
                    size: *pick(r, &[0, 0, 30, 300, 2000]),
                    gap: *pick(r, &[0, 0, 1, 5, 40]),
                },
                10..=14 => EAct::Wait(*pick(r, &[1, 5, 20, 50, 100, 500])),
                15 | 16 => EAct::Restart,
                17 if r.chance(0.3) => EAct::Slow(*pick(r, &[5, 50])),
                18 if r.chance(0.3) && !c.subs.is_empty() => EAct::Unsub(r.below(3) as u8),
                19 if !c.subs.is_empty() => EAct::Resub(r.below(3) as u8),
                _ => EAct::Wait(10),
            };
            c.acts.push(a);
        }
        if s.cfg.channel < 100 {
            // a client that fills its own queue comes back to do the same at once
            c.retry = c.retry.max(50);
        }
        s.clis.push(c);
    }
    let nf = if r.chance(0.1) { 0 } else { r.range(1, 6) };
    for _ in 0..nf {
        let f = match r.below(20) {
            0..=3 => Fault::Rst(r.below(2) as u8),
            4..=6 => Fault::Both,
            7..=9 => Fault::Crash { lose: *pick(r, &[0, 1, 10, 100, 100000]) },
            10..=13 => Fault::Hole { cli: *pick(r, &[0, 1, 20, 200, 3000]), brk: *pick(r, &[0, 1, 20, 200, 3000, 20000]) },
            14 | 15 => Fault::Stall { side: r.below(2) as u8, ms: *pick(r, &[1, 20, 200, 3000]) },
            16 => Fault::Window { side: r.below(2) as u8, cap: *pick(r, &[1, 16, 200]) },
            17 => Fault::Refuse { ms: *pick(r, &[10, 200]) },
            18 => Fault::Silent { ms: *pick(r, &[10, 200, 2000]) },
            _ => Fault::Accept(r.range(1, 4) as u8),
        };
        s.faults.push((*pick(r, &[0, 1, 2, 5, 10, 20, 40, 80, 200]), r.below(n as u64) as u8, f));
    }
    s
}
