//! TLS: somebody in the middle, peers without it, servers that cannot be trusted.  `clients` empty: the broker is
//! under test (B19), otherwise the client (C11).
use crate::bgen::{knobs, pick};
use crate::bscn::{Knobs, BROKER_NODE};
use crate::cscn::CLI;
use crate::hist::*;
use crate::mq::{self, ConnectP, Decoder, Pk, PublishP, WillP};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt, DuplexStream};
use tokio::net::{tcp, TcpListener, TcpStream};
use tokio::sim::{self, netctl, Rng};
use tokio::sync::{mpsc, Notify};

const S: u64 = 1_000_000_000;
const MS: u64 = 1_000_000;
/// what a request may take; everything here is small and the path is never down for long
const BOUND: u64 = 10 * S;
/// the broker's limit for connections that do not speak, and some
const MUTE: u64 = 45 * S + 5 * S;
pub const ADDR: &str = "127.0.0.1:1883";
const ADDR_TLS: &str = "127.0.0.1:8883";

fn is_def<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

/// What somebody in the middle does to one direction, once, at a byte position.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MF {
    Flip(u8),
    Close,
    Rst,
    Mute,
    Insert(String),
    Cut(u16),
    /// a byte every so many ms from there on
    Drip(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Mitm {
    /// towards the code under test
    #[serde(skip_serializing_if = "is_def")]
    pub to: Option<(u32, MF)>,
    /// what it sends
    #[serde(skip_serializing_if = "is_def")]
    pub from: Option<(u32, MF)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TK {
    /// a proper client: publishes n messages, one after the other is acknowledged
    Good { n: u32, size: u32, gap: u32 },
    /// MQTT in the clear: 0 CONNECT, 1 and a SUBSCRIBE and PUBLISHes, 2 a PUBLISH alone, 3 CONNECT byte by byte
    Clear(u8),
    Mute,
    Junk(String),
    /// TLS with somebody in the middle, then CONNECT and PUBLISH
    Tls { mitm: Mitm, trust: u8 },
    /// a proper handshake and then nothing
    Shy,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TPeer {
    pub at: u32,
    pub k: TK,
    #[serde(default, skip_serializing_if = "is_def")]
    pub win: usize,
    /// gone after so many ms, with a reset
    #[serde(default, skip_serializing_if = "is_def")]
    pub gone: Option<u32>,
    /// does not read
    #[serde(default, skip_serializing_if = "is_def")]
    pub deaf: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct TSess {
    /// 0: the authority of most servers, 1: another, 2: an empty store, 3: no store
    #[serde(skip_serializing_if = "is_def")]
    pub trust: u8,
    /// the host is given by name
    #[serde(skip_serializing_if = "is_def")]
    pub name: bool,
    #[serde(skip_serializing_if = "is_def")]
    pub cert: u8,
    /// 0: TLS, 1: MQTT in the clear, 2: says nothing, 3: junk, 4: closes at once, 5: MQTT in the clear, unasked
    #[serde(skip_serializing_if = "is_def")]
    pub srv: u8,
    #[serde(skip_serializing_if = "is_def")]
    pub mitm: Mitm,
    pub wait: u32,
    /// 0: no port, 1: before with_tls, 2: after
    #[serde(skip_serializing_if = "is_def")]
    pub port: u8,
    #[serde(skip_serializing_if = "is_def")]
    pub auth: bool,
    #[serde(skip_serializing_if = "is_def")]
    pub will: bool,
    #[serde(skip_serializing_if = "is_def")]
    pub npub: u32,
    #[serde(skip_serializing_if = "is_def")]
    pub nspub: u32,
    #[serde(skip_serializing_if = "is_def")]
    pub size: u32,
    /// after a failed start the server is as it should be, and the application tries again
    #[serde(skip_serializing_if = "is_def")]
    pub again: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct TScn {
    pub knobs: Knobs,
    #[serde(skip_serializing_if = "is_def")]
    pub max_active: Option<u32>,
    #[serde(skip_serializing_if = "is_def")]
    pub peers: Vec<TPeer>,
    #[serde(skip_serializing_if = "is_def")]
    pub clients: Vec<TSess>,
}

pub struct TOut {
    pub viols: Vec<Violation>,
    pub lines: Vec<String>,
    pub end: sim::End,
    pub stats: sim::Stats,
    pub trace: Vec<(u64, u32)>,
    pub events: u64,
    pub reached: bool,
}

type Log = Rc<RefCell<Vec<(u64, String)>>>;
fn log(l: &Log, s: String) {
    l.borrow_mut().push((sim::now_ns(), s));
}

/// One connection of the code under test, as seen from the wire.
struct Rec {
    sim: u64,
    side: usize,
    t_open: u64,
    raw: RefCell<Vec<u8>>,
    /// it has closed or reset the connection
    eof: Cell<Option<u64>>,
    dead: Cell<bool>,
    n: [Notify; 2],
    /// the fault happened
    hit: Cell<bool>,
}
impl Rec {
    fn new(s: &TcpStream) -> Rc<Rec> {
        Rc::new(Rec {
            sim: s.sim_id(),
            side: s.sim_side(),
            t_open: sim::now_ns(),
            raw: Default::default(),
            eof: Cell::new(None),
            dead: Cell::new(false),
            n: Default::default(),
            hit: Cell::new(false),
        })
    }
    fn kill(&self) {
        self.dead.set(true);
        self.n[0].notify_one();
        self.n[1].notify_one();
    }
    fn rst(&self) {
        netctl::rst(self.sim, self.side);
        self.kill();
    }
    fn seen(&self) {
        if self.eof.get().is_none() && !self.dead.get() {
            self.eof.set(Some(sim::now_ns()));
        }
    }
}

struct Dir {
    f: Option<(u32, MF)>,
    off: usize,
    mute: bool,
    drip: u32,
}
impl Dir {
    fn new(f: Option<(u32, MF)>) -> Dir {
        Dir { f, off: 0, mute: false, drip: 0 }
    }
    /// What to pass on, and how it ends.
    fn pass(&mut self, rec: &Rec, b: &[u8]) -> (Vec<u8>, Option<MF>) {
        let mut v = b.to_vec();
        let (lo, hi) = (self.off, self.off + b.len());
        self.off = hi;
        if self.mute {
            return (vec![], None);
        }
        let Some((at, f)) = self.f.clone() else { return (v, None) };
        let at = at as usize;
        if at >= hi || at < lo {
            return (v, None);
        }
        rec.hit.set(true);
        let k = at - lo;
        match f {
            MF::Flip(m) => {
                sim::count("fault_tls_byte_changed");
                v[k] ^= m.max(1)
            }
            MF::Insert(x) => {
                sim::count("fault_tls_bytes_inserted");
                let x = unhex(&x);
                v.splice(k..k, x);
            }
            MF::Cut(n) => {
                sim::count("fault_tls_bytes_removed");
                let e = (k + n.max(1) as usize).min(v.len());
                v.drain(k..e);
            }
            MF::Mute => {
                sim::count("fault_tls_silence");
                v.truncate(k);
                self.mute = true;
            }
            MF::Drip(ms) => {
                sim::count("fault_tls_slow");
                self.drip = ms.max(1);
            }
            MF::Close => {
                sim::count("fault_tls_closed");
                v.truncate(k);
                return (v, Some(MF::Close));
            }
            MF::Rst => {
                sim::count("fault_tls_reset");
                v.truncate(k);
                return (v, Some(MF::Rst));
            }
        }
        (v, None)
    }
}

async fn deaf_or_drip<W: AsyncWriteExt + Unpin>(rec: &Rec, n: &Notify, w: &mut W, v: &[u8], drip: u32) -> std::io::Result<()> {
    if drip == 0 {
        return w.write_all(v).await;
    }
    for b in v {
        w.write_all(&[*b]).await?;
        let _ = tokio::time::timeout(Duration::from_millis(drip as u64), n.notified()).await;
        if rec.dead.get() {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
    }
    Ok(())
}

/// The wire between the code under test and our end; everything it sends is recorded.
fn relay(s: TcpStream, m: &Mitm) -> (DuplexStream, Rc<Rec>) {
    let rec = Rec::new(&s);
    let (ours, theirs) = tokio::io::duplex(1 << 18);
    let (mut r, mut w): (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) = s.into_split();
    let (mut dr, mut dw) = tokio::io::split(theirs);
    let (rec1, mut d) = (rec.clone(), Dir::new(m.from.clone()));
    tokio::task::spawn_local(async move {
        let rec = rec1;
        let mut buf = vec![0u8; 4096];
        let mut open = true;
        loop {
            if rec.dead.get() {
                return;
            }
            let x = tokio::select! {
                biased;
                _ = rec.n[0].notified() => continue,
                x = r.read(&mut buf) => x,
            };
            match x {
                Ok(0) | Err(_) => {
                    rec.seen();
                    let _ = dw.shutdown().await;
                    return;
                }
                Ok(n) => {
                    rec.raw.borrow_mut().extend_from_slice(&buf[..n]);
                    let (v, f) = d.pass(&rec, &buf[..n]);
                    if open && deaf_or_drip(&rec, &rec.n[0], &mut dw, &v, d.drip).await.is_err() {
                        open = false;
                    }
                    match f {
                        Some(MF::Rst) => rec.rst(),
                        Some(_) => rec.kill(),
                        None => {}
                    }
                }
            }
        }
    });
    let (rec2, mut d) = (rec.clone(), Dir::new(m.to.clone()));
    tokio::task::spawn_local(async move {
        let rec = rec2;
        let mut buf = vec![0u8; 4096];
        loop {
            if rec.dead.get() {
                return;
            }
            let x = tokio::select! {
                biased;
                _ = rec.n[1].notified() => continue,
                x = dr.read(&mut buf) => x,
            };
            match x {
                Ok(0) | Err(_) => return,
                Ok(n) => {
                    let (v, f) = d.pass(&rec, &buf[..n]);
                    let e = tokio::select! {
                        biased;
                        e = deaf_or_drip(&rec, &rec.n[1], &mut w, &v, d.drip) => e,
                        _ = rec.n[1].notified() => continue,
                    };
                    if e.is_err() {
                        return;
                    }
                    match f {
                        Some(MF::Rst) => rec.rst(),
                        Some(_) => rec.kill(),
                        None => {}
                    }
                }
            }
        }
    });
    (ours, rec)
}

/// Nothing but TLS records (the last one may be incomplete).
fn only_tls(b: &[u8]) -> Result<(), String> {
    let mut i = 0;
    while i < b.len() {
        if !(0x14..=0x17).contains(&b[i]) || b.get(i + 1).is_some_and(|x| *x != 3) || b.get(i + 2).is_some_and(|x| *x > 4) {
            return Err(format!("at byte {i}: {}", hex(&b[i..(i + 24).min(b.len())])));
        }
        if i + 5 > b.len() {
            return Ok(());
        }
        let n = u16::from_be_bytes([b[i + 3], b[i + 4]]) as usize;
        if n > 16384 + 256 {
            return Err(format!("at byte {i}: a record of {n} bytes"));
        }
        i += 5 + n;
    }
    Ok(())
}

// ---------------------------------------------------------------- the broker

#[derive(Default)]
struct POut {
    rec: RefCell<Option<Rc<Rec>>>,
    /// the first thing that went wrong for a proper client
    wrong: RefCell<Option<(&'static str, String)>>,
    /// the broker has accepted a CONNECT
    up: Cell<bool>,
    hs: Cell<bool>,
    sent: RefCell<Vec<String>>,
    got: RefCell<Vec<(u64, String, Vec<u8>)>>,
    acked: RefCell<BTreeSet<u16>>,
    codes: RefCell<BTreeSet<u16>>,
    pong: Cell<u32>,
    ended: Cell<bool>,
    n: Notify,
    done: Cell<bool>,
}
struct BSh {
    log: Log,
    over: Cell<bool>,
    outs: Vec<Rc<POut>>,
}

fn will(t: &str) -> Option<WillP> {
    Some(WillP { topic: t.into(), payload: b"secret".to_vec(), qos: 1, retain: true, ..Default::default() })
}
fn body(name: &str, size: u32) -> Vec<u8> {
    let mut v = name.as_bytes().to_vec();
    v.push(b'.');
    v.resize(v.len() + size as usize, b'x');
    v
}

async fn until(o: &POut, ns: u64, mut f: impl FnMut(&POut) -> bool) -> bool {
    let end = sim::now_ns() + ns;
    loop {
        if f(o) {
            return true;
        }
        let now = sim::now_ns();
        if o.ended.get() || now >= end {
            return false;
        }
        let _ = tokio::time::timeout(Duration::from_nanos(end - now), o.n.notified()).await;
    }
}

/// Reads what the broker sends, and answers.
fn talk(o: &Rc<POut>, (mut r, mut w): (crate::tls::R, crate::tls::W)) -> mpsc::UnboundedSender<Pk> {
    let (tx, mut rx) = mpsc::unbounded_channel::<Pk>();
    tokio::task::spawn_local(async move {
        while let Some(p) = rx.recv().await {
            if w.write_all(&mq::encode(&p)).await.is_err() || w.flush().await.is_err() {
                break;
            }
        }
        let _ = w.shutdown().await;
    });
    let (o, tx2) = (o.clone(), tx.downgrade());
    tokio::task::spawn_local(async move {
        let mut d = Decoder::default();
        let mut buf = vec![0u8; 4096];
        'out: loop {
            match r.read(&mut buf).await {
                Ok(0) | Err(_) => break,
                Ok(n) => d.feed(&buf[..n]),
            }
            loop {
                match d.next() {
                    Ok(None) => break,
                    Err(_) => break 'out,
                    Ok(Some(p)) => match p {
                        Pk::ConnAck { reason: 0, .. } => o.up.set(true),
                        Pk::Publish(p) => {
                            if let (Some(pid), Some(tx)) = (p.pid, tx2.upgrade()) {
                                let _ = tx.send(Pk::PubAck { pid, reason: 0, props: vec![] });
                            }
                            o.got.borrow_mut().push((sim::now_ns(), p.topic, p.payload));
                        }
                        Pk::PubAck { pid, .. } => {
                            o.acked.borrow_mut().insert(pid);
                        }
                        Pk::SubAck { pid, .. } => {
                            o.codes.borrow_mut().insert(pid);
                        }
                        Pk::PingResp => o.pong.set(o.pong.get() + 1),
                        _ => {}
                    },
                }
                o.n.notify_waiters();
                o.n.notify_one();
            }
        }
        o.ended.set(true);
        o.n.notify_one();
    });
    tx
}

async fn good(sh: &BSh, i: usize, p: &TPeer, n: u32, size: u32, gap: u32) -> Result<(), (&'static str, String)> {
    let o = &sh.outs[i];
    let t0 = sim::now_ns();
    let s = TcpStream::connect(ADDR).await.map_err(|e| ("refused", e.to_string()))?;
    if p.win > 0 {
        netctl::set_window(s.sim_id(), 1 - s.sim_side(), p.win);
    }
    let (d, rec) = relay(s, &Mitm::default());
    *o.rec.borrow_mut() = Some(rec);
    let x = tokio::time::timeout(Duration::from_nanos(BOUND), crate::tls::client(&crate::tls::connector(), d))
        .await
        .map_err(|_| ("held up", format!("no TLS handshake within {} s", BOUND / S)))?
        .map_err(|e| ("refused", format!("TLS handshake: {e}")))?;
    sim::count("tls_handshakes");
    o.hs.set(true);
    log(&sh.log, format!("peer {i}: TLS after {} ms", (sim::now_ns() - t0) / MS));
    let tx = talk(o, x);
    let _ = tx.send(Pk::Connect(ConnectP { cid: format!("w{i}"), clean: true, ka: 30, ..Default::default() }));
    let late = |what: &str| (if o.ended.get() { "lost" } else { "held up" }, format!("{what}; the connection has ended: {}", o.ended.get()));
    if !until(o, BOUND, |o| o.up.get()).await {
        return Err(late("no CONNACK"));
    }
    let _ = tx.send(Pk::Subscribe { pid: 1, filters: vec![("#".into(), 1)], props: vec![] });
    if !until(o, BOUND, |o| o.codes.borrow().contains(&1)).await {
        return Err(late("no SUBACK"));
    }
    let mut pid = 100;
    let mut k = 0;
    loop {
        if k < n {
            pid += 1;
            let name = format!("w{i}-{k}");
            o.sent.borrow_mut().push(name.clone());
            let b = body(&name, size);
            let _ = tx.send(Pk::Publish(PublishP { qos: 1, topic: format!("t/w{i}"), pid: Some(pid), payload: b.clone(), ..Default::default() }));
            if !until(o, BOUND, |o| o.acked.borrow().contains(&pid)).await {
                return Err(late("no PUBACK"));
            }
            if !until(o, BOUND, |o| o.got.borrow().iter().any(|g| g.2 == b)).await {
                return Err(late("a message has not been delivered"));
            }
            k += 1;
            tokio::time::sleep(Duration::from_millis(gap as u64)).await;
            continue;
        }
        let c = o.pong.get();
        let _ = tx.send(Pk::PingReq);
        if !until(o, BOUND, |o| o.pong.get() > c).await {
            return Err(late("no PINGRESP"));
        }
        if sh.over.get() {
            break;
        }
        let _ = until(o, 4 * S, |_| sh.over.get()).await;
    }
    let _ = tx.send(Pk::Disconnect { reason: 0, props: vec![] });
    let _ = until(o, 2 * S, |_| false).await;
    Ok(())
}

async fn hostile(sh: &BSh, i: usize, p: &TPeer) {
    let o = &sh.outs[i];
    let Ok(s) = TcpStream::connect(ADDR).await else { return };
    if p.win > 0 {
        netctl::set_window(s.sim_id(), 1 - s.sim_side(), p.win);
    }
    let none = Mitm::default();
    let m = match &p.k {
        TK::Tls { mitm, .. } => mitm,
        _ => &none,
    };
    let t0 = sim::now_ns();
    let mut stay: Vec<Box<dyn std::any::Any>> = vec![];
    if p.deaf {
        // what it sends is a ClientHello or what there is, and it reads nothing
        let rec = Rec::new(&s);
        *o.rec.borrow_mut() = Some(rec);
        let (r, mut w) = s.into_split();
        let b = match &p.k {
            TK::Tls { .. } => hello(),
            k => clear(k, i),
        };
        let _ = tokio::time::timeout(Duration::from_secs(1), w.write_all(&b)).await;
        stay.push(Box::new((r, w)));
    } else {
        let (d, rec) = relay(s, m);
        *o.rec.borrow_mut() = Some(rec);
        match &p.k {
            TK::Tls { trust, .. } => {
                let h = tokio::time::timeout(Duration::from_secs(60), crate::tls::client(&crate::tls::connector_with(*trust), d)).await;
                if let Ok(Ok(x)) = h {
                    o.hs.set(true);
                    let tx = talk(o, x);
                    let _ = tx.send(Pk::Connect(ConnectP { cid: format!("p{i}"), clean: true, ka: 30, ..Default::default() }));
                    for k in 0..3 {
                        let name = format!("p{i}-{k}");
                        o.sent.borrow_mut().push(name.clone());
                        let _ = tx.send(Pk::Publish(PublishP { qos: 1, topic: format!("cut/{i}"), pid: Some(k + 1), payload: body(&name, 50), ..Default::default() }));
                        let _ = until(o, S, |o| o.acked.borrow().contains(&(k + 1))).await;
                    }
                    stay.push(Box::new(tx));
                }
            }
            TK::Shy => {
                if let Ok(Ok(x)) = tokio::time::timeout(Duration::from_secs(60), crate::tls::client(&crate::tls::connector(), d)).await {
                    o.hs.set(true);
                    stay.push(Box::new(x));
                }
            }
            k => {
                let b = clear(k, i);
                let (mut r, mut w) = tokio::io::split(d);
                if *k == TK::Clear(3) {
                    for x in &b {
                        let _ = w.write_all(&[*x]).await;
                        tokio::time::sleep(Duration::from_millis(3)).await;
                    }
                } else {
                    let _ = w.write_all(&b).await;
                }
                stay.push(Box::new(w));
                tokio::task::spawn_local(async move {
                    let mut buf = [0u8; 512];
                    while !matches!(r.read(&mut buf).await, Ok(0) | Err(_)) {}
                });
            }
        }
    }
    let rec = o.rec.borrow().clone().unwrap();
    let end = t0 + p.gone.map(|g| g as u64 * MS).unwrap_or(2 * MUTE);
    while sim::now_ns() < end && rec.eof.get().is_none() && netctl::is_open(rec.sim, 1 - rec.side) {
        tokio::time::sleep(Duration::from_millis(100)).await;
    }
    if p.gone.is_some() && rec.eof.get().is_none() {
        sim::count("fault_rst");
        rec.rst();
    } else if rec.eof.get().is_none() && !netctl::is_open(rec.sim, 1 - rec.side) {
        rec.seen();
    }
    log(&sh.log, format!("peer {i}: {:?} ended after {} ms, handshake {}, closed by the broker {}", p.k, (sim::now_ns() - t0) / MS, o.hs.get(), rec.eof.get().is_some()));
    drop(stay);
    rec.kill();
}

fn clear(k: &TK, i: usize) -> Vec<u8> {
    let c = Pk::Connect(ConnectP { cid: format!("clear{i}"), clean: true, ka: 60, will: will("clear/will"), ..Default::default() });
    let p = |qos: u8, retain: bool| {
        Pk::Publish(PublishP { qos, retain, topic: format!("clear/{i}"), pid: (qos > 0).then_some(7), payload: b"clear".to_vec(), ..Default::default() })
    };
    let l = match k {
        TK::Clear(0) => vec![c],
        TK::Clear(1) => vec![c, Pk::Subscribe { pid: 1, filters: vec![("#".into(), 1)], props: vec![] }, p(0, false), p(1, true)],
        TK::Clear(2) => vec![p(0, true)],
        TK::Clear(_) => vec![c, p(1, true)],
        TK::Junk(x) => return unhex(x),
        _ => vec![],
    };
    l.iter().flat_map(mq::encode).collect()
}
/// a ClientHello
fn hello() -> Vec<u8> {
    use tokio_rustls::rustls;
    let c = rustls::ClientConfig::builder().with_root_certificates(crate::tls::roots()).with_no_client_auth();
    let name = rustls::pki_types::ServerName::try_from("127.0.0.1").expect("name");
    let mut x = rustls::ClientConnection::new(std::sync::Arc::new(c), name).expect("client");
    let mut v = vec![];
    x.write_tls(&mut v).expect("hello");
    v
}

async fn broker_main(scn: TScn, sh: Rc<BSh>) {
    let mut broker = vaux_broker::Broker::new_with_config(vaux_broker::Config {
        listen_addr: ADDR.parse().unwrap(),
        max_active_sessions: scn.max_active,
        tls_acceptor: Some(crate::tls::acceptor()),
        ..Default::default()
    });
    let keep: Rc<RefCell<Option<vaux_broker::Broker>>> = Default::default();
    let keep2 = keep.clone();
    let _ = tokio::task::spawn_node(BROKER_NODE, "broker", async move {
        let _ = broker.run().await;
        *keep2.borrow_mut() = Some(broker);
    })
    .await;
    for (i, p) in scn.peers.iter().enumerate() {
        let (p, sh) = (p.clone(), sh.clone());
        tokio::task::spawn_node(100 + i as u32, "peer", async move {
            tokio::time::sleep(Duration::from_millis(p.at as u64)).await;
            if let TK::Good { n, size, gap } = p.k {
                let r = good(&sh, i, &p, n, size, gap).await;
                log(&sh.log, format!("peer {i}: {r:?}"));
                *sh.outs[i].wrong.borrow_mut() = r.err();
            } else {
                hostile(&sh, i, &p).await;
            }
            sh.outs[i].done.set(true);
        });
    }
    let bad: Vec<usize> = (0..scn.peers.len()).filter(|i| !matches!(scn.peers[*i].k, TK::Good { .. })).collect();
    let last = scn.peers.iter().map(|p| p.at).max().unwrap_or(0) as u64;
    tokio::time::sleep(Duration::from_millis(last + 6000)).await;
    let ready = |i: &usize| sh.outs[*i].done.get();
    while !bad.iter().all(ready) {
        tokio::time::sleep(Duration::from_millis(200)).await;
    }
    tokio::time::sleep(Duration::from_millis(500)).await;
    sh.over.set(true);
    for o in &sh.outs {
        o.n.notify_one();
    }
    let t0 = sim::now_ns();
    while sim::now_ns() < t0 + 300 * S && !(0..sh.outs.len()).all(|i| ready(&i)) {
        tokio::time::sleep(Duration::from_millis(200)).await;
    }
    log(&sh.log, "over".into());
}

fn check_broker(scn: &TScn, sh: &BSh, v: &mut Vec<Violation>) {
    let bad = |v: &mut Vec<Violation>, c: &str, d: String| viol(v, "B19", c, d);
    let mut sent: BTreeMap<String, usize> = Default::default();
    for (i, o) in sh.outs.iter().enumerate() {
        for s in o.sent.borrow().iter() {
            sent.insert(s.clone(), i);
        }
    }
    for (i, o) in sh.outs.iter().enumerate() {
        let p = &scn.peers[i];
        let w = format!("peer {i} ({:?})", p.k);
        if !o.done.get() {
            bad(v, "hang", format!("{w}: not finished"));
        }
        if let Some((c, d)) = &*o.wrong.borrow() {
            bad(v, c, format!("{w}: {d}"));
        }
        let Some(rec) = o.rec.borrow().clone() else { continue };
        if let Err(e) = only_tls(&rec.raw.borrow()) {
            bad(v, "clear", format!("{w}: was sent something else than TLS records {e}"));
        }
        if !o.hs.get() && o.up.get() {
            bad(v, "served", format!("{w}: was sent a CONNACK without a TLS handshake"));
        }
        let damaged = match &p.k {
            TK::Tls { mitm, .. } => mitm.to.is_some() || mitm.from.is_some(),
            _ => false,
        };
        // whoever has not come so far as to be served (what is said after the handshake is another matter)
        let never = matches!(p.k, TK::Clear(_) | TK::Junk(_) | TK::Mute) || (p.deaf && !matches!(p.k, TK::Good { .. }));
        if never && p.gone.is_none() {
            let t = rec.eof.get().map(|t| t - rec.t_open);
            if t.map(|t| t > MUTE).unwrap_or(true) {
                bad(v, "kept", format!("{w}: without a TLS handshake, closed by the broker after {t:?} ns"));
            }
        }
        if (p.k == TK::Shy || (damaged && !o.up.get())) && p.gone.is_none() && !rec.dead_before() {
            let t = rec.eof.get().map(|t| t - rec.t_open);
            if t.map(|t| t > 2 * MUTE).unwrap_or(true) {
                bad(v, "kept", format!("{w}: no CONNECT, closed by the broker after {t:?} ns"));
            }
        }
        let mut seen: BTreeMap<String, u32> = Default::default();
        for (_, topic, b) in o.got.borrow().iter() {
            let name = String::from_utf8_lossy(b).split('.').next().unwrap_or("").to_string();
            *seen.entry(name.clone()).or_default() += 1;
            if topic.starts_with("clear") || b.starts_with(b"clear") || b.starts_with(b"secret") {
                bad(v, "served", format!("{w}: received {topic:?}, which was published without TLS"));
                continue;
            }
            let Some(from) = sent.get(&name) else {
                bad(v, "altered", format!("{w}: received {} on {topic:?}, which nobody sent", hex(&b[..b.len().min(24)])));
                continue;
            };
            let (t, size) = match scn.peers[*from].k {
                TK::Good { size, .. } => (format!("t/w{from}"), size),
                _ => (format!("cut/{from}"), 50),
            };
            if *topic != t || *b != body(&name, size) {
                bad(v, "altered", format!("{w}: received {name} on {topic:?} with {} bytes", b.len()));
            }
        }
        for (n, k) in seen {
            if k > 1 {
                bad(v, "twice", format!("{w}: received {n} {k} times"));
            }
        }
    }
}
impl Rec {
    /// somebody in the middle has ended it
    fn dead_before(&self) -> bool {
        self.hit.get() && self.eof.get().is_none()
    }
}

// ---------------------------------------------------------------- the client

#[derive(Default)]
struct Conn11 {
    rec: Option<Rc<Rec>>,
    port: u16,
    hs: Option<Result<(), String>>,
    connects: Vec<ConnectP>,
    pubs: Vec<(String, Vec<u8>)>,
    sent: u32,
}
struct CSh {
    log: Log,
    cur: Cell<usize>,
    /// the server is as it should be, whatever the session says
    fixed: Cell<bool>,
    conns: RefCell<Vec<(usize, bool, Rc<RefCell<Conn11>>)>>,
    wrong: RefCell<Vec<(&'static str, String)>>,
    reached: Cell<bool>,
}

async fn mqtt(c: Rc<RefCell<Conn11>>, (mut r, mut w): (crate::tls::R, crate::tls::W), k: usize, s: TSess) {
    let mut d = Decoder::default();
    let mut buf = vec![0u8; 4096];
    loop {
        match r.read(&mut buf).await {
            Ok(0) | Err(_) => break,
            Ok(n) => d.feed(&buf[..n]),
        }
        while let Ok(Some(p)) = d.next() {
            let mut out = vec![];
            match p {
                Pk::Connect(x) => {
                    c.borrow_mut().connects.push(x);
                    out.push(Pk::ConnAck { sp: false, reason: 0, props: vec![] });
                    for i in 0..s.nspub {
                        let qos = (i % 2) as u8;
                        out.push(Pk::Publish(PublishP { qos, topic: format!("s/{k}"), pid: (qos > 0).then_some(500 + i as u16), payload: body(&format!("s{k}-{i}"), s.size), ..Default::default() }));
                    }
                }
                Pk::Publish(x) => {
                    c.borrow_mut().pubs.push((x.topic, x.payload));
                    if let Some(pid) = x.pid {
                        out.push(Pk::PubAck { pid, reason: 0, props: vec![] });
                    }
                }
                Pk::PingReq => out.push(Pk::PingResp),
                Pk::Disconnect { .. } => return,
                _ => {}
            }
            for p in out {
                if matches!(p, Pk::Publish(_)) {
                    c.borrow_mut().sent += 1;
                }
                if w.write_all(&mq::encode(&p)).await.is_err() || w.flush().await.is_err() {
                    return;
                }
            }
        }
    }
}

async fn listen(sh: Rc<CSh>, scn: TScn, l: TcpListener, port: u16) {
    loop {
        let Ok((s, _)) = l.accept().await else { continue };
        let k = sh.cur.get();
        let fixed = sh.fixed.get();
        let mut x = scn.clients[k].clone();
        if fixed {
            // what this client trusts
            x.cert = if x.trust == 1 { 1 } else { 0 };
            x.srv = 0;
            x.mitm = Mitm::default();
        }
        let c: Rc<RefCell<Conn11>> = Default::default();
        c.borrow_mut().port = port;
        sh.conns.borrow_mut().push((k, fixed, c.clone()));
        log(&sh.log, format!("session {k}: connection to port {port}"));
        let (d, rec) = relay(s, &x.mitm);
        c.borrow_mut().rec = Some(rec.clone());
        let sh = sh.clone();
        tokio::task::spawn_local(async move {
            let (mut r, mut w) = match x.srv {
                0 => {
                    let h = tokio::time::timeout(Duration::from_secs(60), crate::tls::server(&crate::tls::acceptor_with(x.cert), d)).await;
                    let h = h.unwrap_or_else(|_| Err(std::io::ErrorKind::TimedOut.into()));
                    log(&sh.log, format!("session {k}: handshake of the server {:?}", h.as_ref().map(|_| ()).map_err(|e| e.to_string())));
                    c.borrow_mut().hs = Some(h.as_ref().map(|_| ()).map_err(|e| e.to_string()));
                    if let Ok(h) = h {
                        sim::count("tls_handshakes");
                        mqtt(c, h, k, x).await;
                        tokio::time::sleep(Duration::from_millis(200)).await;
                    }
                    return;
                }
                4 => {
                    rec.kill();
                    return;
                }
                _ => tokio::io::split(d),
            };
            sim::count("fault_server_without_tls");
            let mut buf = vec![0u8; 4096];
            let ack = [mq::encode(&Pk::ConnAck { sp: false, reason: 0, props: vec![] }), mq::encode(&Pk::Publish(PublishP { topic: "s/clear".into(), payload: b"clear".to_vec(), ..Default::default() }))].concat();
            let mut first = true;
            loop {
                if first && x.srv == 5 {
                    let _ = w.write_all(&ack).await;
                }
                match r.read(&mut buf).await {
                    Ok(0) | Err(_) => break,
                    Ok(_) => {
                        if first && x.srv == 1 {
                            let _ = w.write_all(&ack).await;
                        }
                        if first && x.srv == 3 {
                            let _ = w.write_all(&[0x47; 40]).await;
                        }
                    }
                }
                first = false;
            }
        });
    }
}

fn trusted(s: &TSess) -> bool {
    // the authority of the certificate is one it was given, the name is right and so is the time
    s.srv == 0 && s.mitm == Mitm::default() && (matches!((s.trust, s.cert), (0, 0) | (1, 1)) || (s.trust == 0 && s.cert == 5 && s.name))
}

async fn one(sh: &Rc<CSh>, k: usize, s: &TSess) {
    use vaux_client::{ClientBuilder, MqttConnection};
    sh.cur.set(k);
    sh.fixed.set(false);
    let wrong = |c: &'static str, d: String| sh.wrong.borrow_mut().push((c, format!("session {k}: {d}")));
    let mut c = MqttConnection::new().with_host(if s.name { "localhost" } else { "127.0.0.1" });
    c = match s.port {
        0 => c.with_tls(),
        1 => c.with_port(1883).with_tls(),
        _ => c.with_tls().with_port(1883),
    };
    if s.trust < 3 {
        c = c.with_trust_store(crate::tls::store(s.trust));
    }
    if s.auth {
        c = c.with_credentials("secret-user", "secret-pass");
    }
    let mut b = ClientBuilder::new(c)
        .with_client_id(&format!("secret{k}"))
        .with_max_connect_wait(Duration::from_millis(s.wait as u64))
        .with_keep_alive(Duration::from_secs(30));
    if s.will {
        b = b.with_will_message(vaux_mqtt::WillMessage::new("secret/will".into(), b"secret", vaux_mqtt::QoSLevel::AtLeastOnce, false));
    }
    let mut client = match b.build().await {
        Ok(c) => c,
        Err(e) => return wrong("build", e.to_string()),
    };
    let tx = client.packet_producer();
    let got: Rc<RefCell<Vec<(String, Vec<u8>)>>> = Default::default();
    if let Some(mut rx) = client.take_packet_consumer() {
        let got = got.clone();
        tokio::task::spawn_node(CLI, "consumer", async move {
            while let Some(p) = rx.recv().await {
                if let vaux_mqtt::Packet::Publish(p) = p {
                    got.borrow_mut().push((p.topic_name.clone(), p.payload.as_deref().unwrap_or(&[]).to_vec()));
                }
            }
        });
    }
    for i in 0..s.npub {
        use vaux_mqtt::QoSLevel::*;
        let mut p = vaux_mqtt::publish::Publish::new_with_payload(None, "secret/t".into(), AtMostOnce, body(&format!("secret{k}-{i}"), s.size)).expect("publish");
        p.set_qos(if i % 2 == 1 { AtLeastOnce } else { AtMostOnce });
        let _ = tx.try_send(vaux_mqtt::Packet::Publish(p));
    }
    let mut tries = 0;
    let mut handle = None;
    let fixable = s.trust < 2;
    loop {
        let may = sh.fixed.get() || trusted(s);
        let t0 = sim::now_ns();
        let h = tokio::task::spawn_node(CLI, "start", async move {
            let r = client.start(true).await;
            (client, r)
        });
        let Ok(Ok((cl, r))) = tokio::time::timeout(Duration::from_millis(s.wait as u64) + Duration::from_secs(20), h).await else {
            return wrong("hang", "start does not return".into());
        };
        client = cl;
        let dt = sim::now_ns() - t0;
        log(&sh.log, format!("session {k}: start returned {:?} after {} ms", r.as_ref().map(|_| ()).map_err(|e| e.to_string()), dt / MS));
        if dt > (s.wait as u64 + 1500) * MS {
            wrong("late", format!("start returned after {} ms, the limit is {} ms", dt / MS, s.wait));
        }
        match r {
            Ok(h) => {
                if !may && s.mitm == Mitm::default() {
                    wrong("trusted", format!("a session began (trust {}, certificate {}, server {})", s.trust, s.cert, s.srv));
                }
                handle = Some(h);
                break;
            }
            Err(e) => {
                if may {
                    wrong("refused", format!("start failed with a server that can be trusted: {e}"));
                }
                if client.connected().await {
                    wrong("connected", "connected() after a failed start".into());
                }
                sh.reached.set(true);
                tries += 1;
                if !s.again || tries > 1 || !fixable {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(300)).await;
                sh.fixed.set(true);
            }
        }
    }
    let Some(mut handle) = handle else {
        drop(client);
        tokio::time::sleep(Duration::from_millis(1000)).await;
        for (j, _, c) in sh.conns.borrow().iter() {
            let c = c.borrow();
            let rec = c.rec.as_ref().unwrap();
            if *j == k && netctl::is_open(rec.sim, 1 - rec.side) {
                wrong("left open", "the connection is open after start has failed".into());
            }
        }
        return;
    };
    let fine = sh.fixed.get() || trusted(s);
    let conn = sh.conns.borrow().last().map(|c| c.2.clone()).unwrap();
    let t0 = sim::now_ns();
    let mut ended = None;
    while sim::now_ns() < t0 + if fine { BOUND } else { 3 * S } {
        let n = conn.borrow().pubs.len() as u32;
        if n >= s.npub && got.borrow().len() as u32 >= s.nspub {
            break;
        }
        if let Ok(r) = tokio::time::timeout(Duration::from_millis(100), &mut handle).await {
            ended = Some(r);
            break;
        }
    }
    if fine {
        sh.reached.set(true);
        let n = conn.borrow().pubs.len() as u32;
        if n < s.npub || (got.borrow().len() as u32) < s.nspub {
            wrong("no progress", format!("{n} of {} messages sent, {} of {} received; ended: {}", s.npub, got.borrow().len(), s.nspub, ended.is_some()));
        }
        if ended.is_none() {
            let st = tokio::time::timeout(Duration::from_secs(20), client.stop()).await;
            if st.is_err() {
                wrong("hang", "stop does not return".into());
            }
        }
    }
    if ended.is_none() && !fine {
        // whoever is in the middle goes away
        let rec = conn.borrow().rec.clone().unwrap();
        rec.kill();
    }
    if ended.is_none() && tokio::time::timeout(Duration::from_secs(30), &mut handle).await.is_err() {
        wrong("hang", "the client task does not end".into());
    }
    if fine && !conn.borrow().connects.is_empty() {
        let c = conn.borrow();
        let x = &c.connects[0];
        if x.cid != format!("secret{k}") || (s.auth && (x.user.as_deref() != Some("secret-user") || x.pass.as_deref() != Some(b"secret-pass"))) || s.will != x.will.is_some() {
            wrong("altered", format!("CONNECT {x:?}"));
        }
    }
    if client.connected().await {
        wrong("connected", "connected() after the end".into());
    }
    // what arrived is what was sent, from the first on
    for (i, (t, b)) in got.borrow().iter().enumerate() {
        if *t != format!("s/{k}") || *b != body(&format!("s{k}-{i}"), s.size) {
            wrong("altered", format!("the application received {t:?} with {}", hex(&b[..b.len().min(24)])));
        }
    }
    for (i, (t, b)) in conn.borrow().pubs.iter().enumerate() {
        if t != "secret/t" || *b != body(&format!("secret{k}-{i}"), s.size) {
            wrong("altered", format!("the server received {t:?} with {}", hex(&b[..b.len().min(24)])));
        }
    }
    let _ = sh.wrong.borrow();
    drop(client);
}

async fn client_main(scn: TScn, sh: Rc<CSh>) {
    for (a, port) in [(ADDR, 1883), (ADDR_TLS, 8883)] {
        let Ok(l) = TcpListener::bind(a).await else { return };
        tokio::task::spawn_local(listen(sh.clone(), scn.clone(), l, port));
    }
    for (k, s) in scn.clients.iter().enumerate() {
        one(&sh, k, s).await;
        tokio::time::sleep(Duration::from_millis(500)).await;
    }
}

fn check_client(scn: &TScn, sh: &CSh, v: &mut Vec<Violation>) {
    for (c, d) in sh.wrong.borrow().iter() {
        viol(v, "C11", c, d.clone());
    }
    for (k, fixed, c) in sh.conns.borrow().iter() {
        let c = c.borrow();
        let s = &scn.clients[*k];
        let rec = c.rec.as_ref().unwrap();
        let raw = rec.raw.borrow();
        if let Err(e) = only_tls(&raw) {
            viol(v, "C11", "clear", format!("session {k}: the client sent something else than TLS records {e}"));
        }
        if raw.windows(6).any(|w| w == b"secret") {
            viol(v, "C11", "clear", format!("session {k}: something confidential was sent in the clear"));
        }
        if c.port != if s.port > 0 { 1883 } else { 8883 } {
            viol(v, "C11", "port", format!("session {k}: connected to port {}", c.port));
        }
        if !*fixed && s.mitm == Mitm::default() && !trusted(s) && (!c.connects.is_empty() || matches!(c.hs, Some(Ok(())))) {
            viol(v, "C11", "trusted", format!("session {k}: finished the handshake with a server it cannot trust (trust {}, certificate {})", s.trust, s.cert));
        }
        if s.trust >= 2 && !raw.is_empty() && !c.connects.is_empty() {
            viol(v, "C11", "trusted", format!("session {k}: a CONNECT was sent with nobody to trust"));
        }
    }
}

// ---------------------------------------------------------------- both

pub fn run(scn: &TScn, dec: sim::Decider, entropy: u64) -> TOut {
    let l: Log = Default::default();
    let b = Rc::new(BSh { log: l.clone(), over: Cell::new(false), outs: scn.peers.iter().map(|_| Default::default()).collect() });
    let c = Rc::new(CSh { log: l.clone(), cur: Cell::new(0), fixed: Cell::new(false), conns: Default::default(), wrong: Default::default(), reached: Cell::new(false) });
    let (b2, c2, scn2) = (b.clone(), c.clone(), scn.clone());
    let out = sim::run(scn.knobs.cfg(), dec, entropy, async move {
        if scn2.clients.is_empty() {
            broker_main(scn2, b2).await
        } else {
            client_main(scn2, c2).await
        }
    });
    let mut v = vec![];
    let id = if scn.clients.is_empty() { "B19" } else { "C11" };
    match &out.end {
        sim::End::Done => {}
        sim::End::StepLimit | sim::End::TimeLimit => viol(&mut v, "HARNESS", "limit", format!("{:?}", out.end)),
        e => viol(&mut v, id, "hang", format!("the run ended with {e:?}")),
    }
    for p in &out.stats.panics {
        viol(&mut v, id, "panic", p.clone());
    }
    let reached;
    if out.end != sim::End::Done {
        reached = false;
    } else if scn.clients.is_empty() {
        check_broker(scn, &b, &mut v);
        reached = scn.peers.iter().zip(&b.outs).any(|(p, o)| !matches!(p.k, TK::Good { .. }) && o.rec.borrow().is_some())
            && scn.peers.iter().zip(&b.outs).any(|(p, o)| matches!(p.k, TK::Good { .. }) && o.up.get());
    } else {
        check_client(scn, &c, &mut v);
        reached = c.reached.get();
    }
    let lines: Vec<String> = l.borrow().iter().map(|(t, s)| format!("{:>12.6}s {s}", *t as f64 / 1e9)).collect();
    TOut { viols: v, events: lines.len() as u64, lines, end: out.end, stats: out.stats, trace: out.trace, reached }
}

fn mf(r: &mut Rng) -> MF {
    match r.below(9) {
        0..=2 => MF::Flip(1 << r.below(8)),
        3 => MF::Close,
        4 => MF::Rst,
        5 => MF::Mute,
        6 => MF::Insert(hex(*pick(r, &[&[0u8, 0][..], &[0x20, 3, 0, 0, 0], &[0x15, 3, 3, 0, 2, 2, 40], &[0x15, 3, 3, 0, 2, 1, 0], &[0x17, 3, 3, 0, 1, 0x30], &[0x30, 5, 0, 1, b'x', 0, b'y']]))),
        7 => MF::Cut(*pick(r, &[1, 2, 5, 40, 300])),
        _ => MF::Drip(*pick(r, &[5, 30, 200])),
    }
}
fn mitm(r: &mut Rng) -> Mitm {
    let at = |r: &mut Rng| *pick(r, &[8u64, 100, 300, 600, 1000, 1400]);
    let mut m = Mitm::default();
    let a = at(r);
    let x = Some((r.below(a) as u32, mf(r)));
    if r.chance(0.5) {
        m.to = x;
    } else {
        m.from = x;
    }
    if r.chance(0.1) {
        let a = at(r);
        m.to = Some((r.below(a) as u32, mf(r)));
    }
    m
}

pub fn generate(p: &str, r: &mut Rng, k: u64) -> TScn {
    let mut s = TScn { knobs: knobs(r), ..Default::default() };
    if p == "C11" {
        for _ in 0..r.range(1, 3) {
            let mut x = TSess {
                name: r.chance(0.4),
                wait: *pick(r, &[4000, 5000, 8000]),
                port: r.below(3) as u8,
                auth: r.chance(0.5),
                will: r.chance(0.3),
                npub: r.below(5) as u32,
                nspub: r.below(5) as u32,
                size: *pick(r, &[0, 20, 400, 3000]),
                again: r.chance(0.6),
                ..Default::default()
            };
            match r.below(8) {
                0 | 1 => {}
                2 | 3 => {
                    x.trust = *pick(r, &[0, 0, 0, 1, 2, 3]);
                    x.cert = *pick(r, &[0, 1, 2, 3, 4, 5, 5]);
                }
                4 => x.srv = r.range(1, 5) as u8,
                _ => x.mitm = mitm(r),
            }
            s.clients.push(x);
        }
        return s;
    }
    let good = |r: &mut Rng, at: u32| TPeer {
        at,
        k: TK::Good { n: r.range(1, 5) as u32, size: *pick(r, &[0, 30, 700]), gap: *pick(r, &[0, 10, 500, 3000]) },
        win: 0,
        gone: None,
        deaf: false,
    };
    s.knobs.window = s.knobs.window.max(8192);
    let mut v = vec![];
    let n = r.range(1, 3);
    for _ in 0..n {
        let at = *pick(r, &[0, 50, 1000, 5000, 50_000]);
        v.push(good(r, at));
    }
    let many = if k % 20 == 7 { r.range(20, 60) } else { r.range(1, 6) };
    let mut served = 0;
    for _ in 0..many {
        let mut x = TPeer { at: *pick(r, &[0, 0, 20, 200, 1000, 3000]), k: TK::Mute, win: 0, gone: None, deaf: false };
        x.k = match r.below(10) {
            0 | 1 => TK::Clear(r.below(4) as u8),
            2 | 3 => TK::Mute,
            4 => TK::Junk(hex(*pick(r, &[&[0u8; 5][..], &[0x16, 3, 1, 0x40], &[0x16, 3, 1, 0, 0], &[0x80, 0x2e, 1, 3, 1], b"GET / HTTP/1.1\r\n\r\n", &[0x15, 3, 3, 0, 2, 1, 0], &[0x17, 3, 3, 0, 4, 1, 2, 3, 4], &[0x16, 3, 1, 0x48, 0]]))),
            5 => TK::Shy,
            6 => TK::Tls { mitm: Mitm::default(), trust: r.range(1, 2) as u8 },
            _ => TK::Tls { mitm: mitm(r), trust: 0 },
        };
        if matches!(x.k, TK::Shy | TK::Tls { .. }) {
            served += 1;
        }
        if r.chance(0.15) {
            x.deaf = true;
            x.win = *pick(r, &[0, 0, 8, 300]);
        } else if r.chance(0.1) {
            x.win = *pick(r, &[8, 64, 300]);
        }
        if r.chance(0.2) {
            x.gone = Some(*pick(r, &[1, 10, 100, 3000, 20_000]));
        }
        v.push(x);
    }
    if r.chance(0.4) {
        s.max_active = Some(n as u32 + served);
    }
    s.peers = v;
    s
}
