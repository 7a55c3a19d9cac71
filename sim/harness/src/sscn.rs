//! Stream scenarios: the real PacketStream and codec at one end of a simulated connection, our own codec at the other.
use crate::bscn::Knobs;
use crate::hist::*;
use crate::mq::{self, *};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sim::{self, netctl, Rng};
use vaux_async::stream::{AsyncMqttStream, MqttStream, PacketStream, Received};

const NODE: u32 = 1;
const PEER: u32 = 10;
const ADDR: &str = "127.0.0.1:1884";

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Item {
    pub pk: Pk,
    /// payload bytes added to a PUBLISH
    #[serde(default)]
    pub pad: usize,
    /// leave out a property length of 0 where MQTT allows it
    #[serde(default)]
    pub brief: bool,
}
impl Item {
    fn full(&self) -> Pk {
        let mut p = self.pk.clone();
        if let Pk::Publish(x) = &mut p {
            x.payload.extend((0..self.pad).map(|i| (i * 7 + i / 251) as u8));
        }
        p
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = mq::encode(&self.full());
        let bare = match &self.pk {
            Pk::PubAck { reason, props, .. } | Pk::PubRec { reason, props, .. } | Pk::PubRel { reason, props, .. } | Pk::PubComp { reason, props, .. } | Pk::Disconnect { reason, props } => *reason != 0 && props.is_empty(),
            _ => false,
        };
        if self.brief && bare && b[1] < 0x80 && b.last() == Some(&0) {
            b.pop();
            b[1] -= 1;
        }
        b
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SEnd {
    Close,
    Rst,
    /// a valid packet cut off after so many bytes, then close
    Cut(Item, usize),
    /// bytes that are no packet
    Junk(String),
    /// a packet with bytes changed (position, bits), then close
    Mutant(Item, Vec<(usize, u8)>),
    /// the announced length of a packet that cannot fit, and so many bytes of it
    Huge(usize, usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ROp {
    /// read with `how` (0 read, 1 read_raw, 2 read_or_written), given up after `us` (0: after one poll), `n` times
    Read { how: u8, us: u32, n: u32 },
    Queue(Item),
    Write(Item, u32),
    Flush(u32),
    Wait(u32),
    /// send a packet with a text longer than MQTT allows: 0 topic, 1 content type, 2 user property, 3 filter, 4 reason, 5 correlation data; queued or written
    TooLong(u8, u32, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SScn {
    pub knobs: Knobs,
    pub init: Option<usize>,
    pub max: Option<usize>,
    pub items: Vec<Item>,
    /// sizes of the peer's writes and pauses between them (us), cycled
    pub cuts: Vec<(u32, u32)>,
    pub end: SEnd,
    /// the peer does not read for so many ms
    pub peer_stop: u32,
    pub ops: Vec<ROp>,
    /// the peer stays for so many ms after its last byte
    #[serde(default, skip_serializing_if = "is_zero")]
    pub linger: u32,
}
fn is_zero(x: &u32) -> bool {
    *x == 0
}

pub struct SOut {
    pub end: sim::End,
    pub stats: sim::Stats,
    pub trace: Vec<(u64, u32)>,
    pub lines: Vec<String>,
    pub viols: Vec<Violation>,
    pub got: usize,
}

/// The packet as our codec sees it after the library has encoded it again.
fn again(p: &vaux_mqtt::Packet) -> Result<Pk, String> {
    use vaux_mqtt::codec::Encode;
    let mut b = bytes::BytesMut::new();
    p.encode(&mut b).map_err(|e| format!("{e}"))?;
    let mut d = Decoder::default();
    d.feed(&b);
    let r = d.next()?.ok_or("incomplete")?;
    if d.leftover() > 0 {
        return Err("trailing bytes".into());
    }
    Ok(r)
}
/// Properties have no order, except user properties among themselves.
fn norm(p: &Pk) -> Pk {
    fn ps(v: &mut Props) {
        v.sort_by_key(|x| x.0);
        // payload format 0 is what it is without the property
        v.retain(|x| *x != (1, PV::U8(0)));
    }
    let mut p = p.clone();
    if let Pk::UnsubAck { props, .. } = &mut p {
        // the library has no way to tell an empty reason string from none here
        props.retain(|x| *x != (0x1f, PV::Str(String::new())));
    }
    match &mut p {
        Pk::Connect(c) => {
            ps(&mut c.props);
            if let Some(w) = &mut c.will {
                ps(&mut w.props);
            }
        }
        Pk::Publish(x) => ps(&mut x.props),
        Pk::ConnAck { props, .. }
        | Pk::PubAck { props, .. }
        | Pk::PubRec { props, .. }
        | Pk::PubRel { props, .. }
        | Pk::PubComp { props, .. }
        | Pk::Subscribe { props, .. }
        | Pk::SubAck { props, .. }
        | Pk::Unsub { props, .. }
        | Pk::UnsubAck { props, .. }
        | Pk::Disconnect { props, .. }
        | Pk::Auth { props, .. } => ps(props),
        _ => {}
    }
    p
}
fn short(p: &Pk) -> String {
    let s = format!("{p:?}");
    if s.len() > 300 {
        format!("{}... ({} bytes)", s.chars().take(300).collect::<String>(), mq::encode(p).len())
    } else {
        s
    }
}
/// a library packet for what our codec wrote
fn lib(b: &[u8]) -> Result<vaux_mqtt::Packet, String> {
    match vaux_mqtt::codec::decode(&mut bytes::BytesMut::from(b)) {
        Ok(Some((p, n))) if n == b.len() => Ok(p),
        x => Err(format!("{x:?}").chars().take(200).collect()),
    }
}

#[derive(Default)]
struct Log {
    v: Vec<Violation>,
    lines: Vec<String>,
    /// packets the stream returned
    got: usize,
    /// what it was asked to send
    sent: Vec<Pk>,
    /// how reading ended, and when
    ended: Option<(Result<(), String>, u64)>,
    /// the peer has sent everything
    all_sent: Option<u64>,
    back: Vec<Pk>,
    back_err: Option<String>,
    back_eof: bool,
    shut: bool,
    written: u64,
    /// packets read and whether an error was reported when the peer had waited
    lingered: Option<(usize, bool)>,
}
type L = Rc<RefCell<Log>>;
fn line(l: &L, s: String) {
    let mut l = l.borrow_mut();
    if l.lines.len() < 400 {
        l.lines.push(format!("{:.6}s {s}", sim::now_ns() as f64 / 1e9));
    }
}
fn bad(l: &L, class: &str, d: String) {
    line(l, format!("{class}: {d}"));
    viol(&mut l.borrow_mut().v, "B17", class, d);
}

fn mutate(it: &Item, m: &[(usize, u8)]) -> Vec<u8> {
    let mut b = it.bytes();
    let n = b.len();
    m.iter().for_each(|(i, x)| b[i % n] ^= x);
    b
}
/// how many packets our codec makes of the bytes, and what is wrong with the rest
fn ours(b: &[u8]) -> (usize, Option<String>) {
    let mut d = Decoder::default();
    d.feed(b);
    let mut n = 0;
    loop {
        match d.next() {
            Ok(Some(_)) => n += 1,
            Ok(None) => return (n, None),
            Err(e) => return (n, Some(e)),
        }
    }
}

fn got(l: &L, scn: &SScn, p: vaux_mqtt::Packet, raw: Option<Vec<u8>>) {
    let i = l.borrow().got;
    l.borrow_mut().got += 1;
    line(l, format!("read packet {i}"));
    let Some(it) = scn.items.get(i) else {
        if let SEnd::Mutant(it, m) = &scn.end {
            // may well be a packet still, or several
            let b = mutate(it, m);
            let (n, err) = ours(&b);
            if i - scn.items.len() >= n {
                bad(l, "accepted", format!("{} is malformed ({}) and was read as {}", hex(&b), err.unwrap_or("incomplete".into()), again(&p).map(|p| short(&p)).unwrap_or_default()));
            }
            return;
        }
        bad(l, "extra", format!("read a packet that was not sent: {}", again(&p).map(|p| short(&p)).unwrap_or_default()));
        return;
    };
    let max = scn.max.unwrap_or(4096 * 1024);
    let b = it.bytes();
    if b.len() > max {
        bad(l, "too-large", format!("packet {i} of {} bytes was decoded, the maximum is {max}", b.len()));
    }
    let want = norm(&it.full());
    match again(&p) {
        Ok(x) if norm(&x) == want => {}
        Ok(x) => bad(l, "wrong", format!("packet {i} was sent as {} and decoded as {}", short(&want), short(&norm(&x)))),
        Err(e) => bad(l, "wrong", format!("packet {i}, sent as {}, was decoded to something that cannot be encoded: {e}", short(&want))),
    }
    match lib(&b) {
        Ok(q) if q == p => {}
        Ok(_) => bad(l, "wrong", format!("packet {i} is not what decoding its bytes alone gives")),
        Err(e) => bad(l, "wrong", format!("packet {i} cannot be decoded alone: {e}")),
    }
    if let Some(r) = raw {
        if r != b {
            bad(l, "raw", format!("packet {i} came with {} bytes that are not the {} received", r.len(), b.len()));
        }
    }
}

fn too_long(kind: u8, n: usize) -> vaux_mqtt::Packet {
    use vaux_mqtt::{codec::QoSLevel, publish::Publish, Packet};
    let t = "x".repeat(n);
    let publ = |topic: &str| Publish::new_with_payload(Some(7), topic.into(), QoSLevel::AtLeastOnce, vec![1, 2, 3]).expect("publish");
    match kind {
        0 => Packet::Publish(publ(&t)),
        1 => {
            let mut p = publ("t");
            p.content_type = Some(t);
            Packet::Publish(p)
        }
        2 => {
            let mut p = publ("t");
            p.user_properties.add("k".into(), t);
            Packet::Publish(p)
        }
        3 => {
            Packet::Unsubscribe(vaux_mqtt::unsubscribe::Unsubscribe::new(3, vec!["a".into(), t]))
        }
        4 => {
            let mut d = vaux_mqtt::Disconnect::default();
            d.reason_string = Some(t);
            Packet::Disconnect(d)
        }
        _ => {
            let mut p = publ("t");
            p.correlation_data = vec![9; n];
            Packet::Publish(p)
        }
    }
}

/// How many whole packets the bytes begin with, and whether what follows is certainly no packet that more bytes could complete.
fn definite(b: &[u8], max: usize) -> (usize, bool) {
    let (mut o, mut n) = (0, 0);
    loop {
        let mut len = 0usize;
        let mut k = 1;
        loop {
            let Some(x) = b.get(o + k) else { return (n, false) };
            len |= ((x & 0x7f) as usize) << (7 * (k - 1));
            if x & 0x80 == 0 {
                break;
            }
            k += 1;
            if k > 4 {
                // noticed with the next byte
                return (n, b.len() > o + k);
            }
        }
        let end = o + k + 1 + len;
        if end - o > max {
            // noticed when there is no room for more
            return (n, b.len() - o >= max);
        }
        if end > b.len() {
            return (n, false);
        }
        match ours(&b[o..end]) {
            (1, None) => n += 1,
            _ => return (n, true),
        }
        o = end;
    }
}

async fn receiver(scn: Rc<SScn>, l: L, sock: TcpStream) {
    let mut st = PacketStream::new(AsyncMqttStream(MqttStream::TcpStream(sock)), scn.init, scn.max);
    let mut ended = false;
    let mut ops = scn.ops.iter();
    let mut todo: Option<(u8, u32, u32)> = None;
    let mut flushed = true;
    loop {
        let (how, us) = match &mut todo {
            Some((how, us, n)) if *n > 0 => {
                *n -= 1;
                (*how, Some(*us))
            }
            _ => match ops.next() {
                Some(ROp::Read { how, us, n }) => {
                    todo = Some((*how, *us, *n));
                    continue;
                }
                Some(ROp::Queue(it)) => {
                    if let Ok(p) = lib(&it.bytes()) {
                        match st.queue(&p) {
                            Ok(()) => l.borrow_mut().sent.push(it.full()),
                            Err(e) => bad(&l, "queue", format!("queue failed: {e}")),
                        }
                    }
                    continue;
                }
                Some(ROp::Write(it, us)) => {
                    if let Ok(mut p) = lib(&it.bytes()) {
                        l.borrow_mut().sent.push(it.full());
                        if *us > 0 {
                            let _ = tokio::time::timeout(Duration::from_micros(*us as u64), st.write(&mut p)).await;
                        } else if let Err(e) = st.write(&mut p).await {
                            line(&l, format!("write: {e}"));
                            flushed = false;
                        }
                    }
                    continue;
                }
                Some(ROp::Flush(us)) => {
                    match tokio::time::timeout(Duration::from_micros(*us as u64), st.flush()).await {
                        Ok(Ok(())) => {
                            if st.has_queued() {
                                bad(&l, "flush", "flush returned with packets queued".into());
                            }
                        }
                        Ok(Err(e)) => line(&l, format!("flush: {e}")),
                        Err(_) => {}
                    }
                    continue;
                }
                Some(ROp::TooLong(kind, n, queue)) => {
                    let mut p = too_long(*kind, *n as usize);
                    let had = st.has_queued();
                    let r = if *queue { st.queue(&p) } else { st.write(&mut p).await };
                    sim::count("too long to be sent");
                    if r.is_ok() {
                        bad(&l, "too-long", format!("a packet with a text of {n} bytes (kind {kind}) was taken as if it could be sent"));
                    } else if !had && st.has_queued() {
                        bad(&l, "too-long", "part of a packet that cannot be sent is queued".into());
                    }
                    continue;
                }
                Some(ROp::Wait(us)) => {
                    tokio::time::sleep(Duration::from_micros(*us as u64)).await;
                    continue;
                }
                None => (0, None),
            },
        };
        if ended {
            if us.is_none() {
                break;
            }
            continue;
        }
        enum G {
            P(vaux_mqtt::Packet, Option<Vec<u8>>),
            W,
            End,
            Err(String),
        }
        let f = async {
            match how {
                0 => match st.read().await {
                    Ok(Some(p)) => G::P(p, None),
                    Ok(None) => G::End,
                    Err(e) => G::Err(format!("{e:?}")),
                },
                1 => match st.read_raw().await {
                    Ok(Some((p, b))) => G::P(p, Some(b.to_vec())),
                    Ok(None) => G::End,
                    Err(e) => G::Err(format!("{e:?}")),
                },
                _ => match st.read_or_written().await {
                    Ok(Received::Packet(p, _)) => G::P(p, None),
                    Ok(Received::Written) => G::W,
                    Ok(Received::Closed) => G::End,
                    Err(e) => G::Err(format!("{e:?}")),
                },
            }
        };
        let g = match us {
            None => Some(f.await),
            Some(us) => tokio::time::timeout(Duration::from_micros(us as u64), f).await.ok(),
        };
        match g {
            None => {
                sim::count("read cancelled");
            }
            Some(G::P(p, b)) => got(&l, &scn, p, b),
            Some(G::W) => {
                if st.has_queued() {
                    bad(&l, "flush", "reported written with packets queued".into());
                }
            }
            Some(G::End) => {
                line(&l, "end of stream".into());
                l.borrow_mut().ended = Some((Ok(()), sim::now_ns()));
                ended = true;
            }
            Some(G::Err(e)) => {
                line(&l, format!("error {e}"));
                l.borrow_mut().ended = Some((Err(e), sim::now_ns()));
                ended = true;
            }
        }
    }
    // what is queued still goes out
    let f = tokio::time::timeout(Duration::from_secs(120), st.flush()).await;
    flushed &= matches!(f, Ok(Ok(())));
    let s = tokio::time::timeout(Duration::from_secs(10), st.shutdown()).await;
    if flushed && matches!(s, Ok(Ok(()))) {
        l.borrow_mut().shut = true;
    }
    tokio::time::sleep(Duration::from_secs(200)).await;
}

async fn peer(scn: Rc<SScn>, l: L, sock: TcpStream) {
    let (id, side) = (sock.sim_id(), sock.sim_side());
    let (mut rd, mut wr) = sock.into_split();
    let l2 = l.clone();
    let stop = scn.peer_stop;
    let h = tokio::task::spawn_node(PEER, "peer reader", async move {
        tokio::time::sleep(Duration::from_millis(stop as u64)).await;
        let mut d = Decoder::default();
        let mut buf = vec![0u8; 16384];
        loop {
            match rd.read(&mut buf).await {
                Ok(0) => {
                    let mut x = l2.borrow_mut();
                    x.back_eof = true;
                    if d.leftover() > 0 {
                        x.back_err.get_or_insert(format!("{} bytes of a packet", d.leftover()));
                    }
                    break;
                }
                Ok(n) => d.feed(&buf[..n]),
                Err(_) => break,
            }
            loop {
                match d.next() {
                    Ok(Some(p)) => l2.borrow_mut().back.push(p),
                    Ok(None) => break,
                    Err(e) => {
                        l2.borrow_mut().back_err.get_or_insert(e);
                        return;
                    }
                }
            }
        }
    });
    let mut data = vec![];
    for it in &scn.items {
        data.extend(it.bytes());
    }
    match &scn.end {
        SEnd::Cut(it, n) => {
            let b = it.bytes();
            data.extend(&b[..(*n).min(b.len() - 1)]);
        }
        SEnd::Mutant(it, m) => {
            data.extend(mutate(it, m));
        }
        SEnd::Junk(h) => data.extend(unhex(h)),
        SEnd::Huge(len, n) => {
            data.push(0x30);
            varb(&mut data, *len as u32);
            data.extend([0, 1, b't', 0]);
            data.extend(std::iter::repeat(b'x').take((*n).min(len.saturating_sub(4))));
        }
        _ => {}
    }
    let mut at = 0;
    let mut k = 0;
    while at < data.len() {
        let (n, gap) = if scn.cuts.is_empty() { (data.len() as u32, 0) } else { scn.cuts[k % scn.cuts.len()] };
        k += 1;
        let n = (n.max(1) as usize).min(data.len() - at);
        if wr.write_all(&data[at..at + n]).await.is_err() {
            break;
        }
        at += n;
        l.borrow_mut().written = at as u64;
        if gap > 0 {
            tokio::time::sleep(Duration::from_micros(gap as u64)).await;
        }
    }
    line(&l, format!("peer has written {at} of {} bytes", data.len()));
    if at == data.len() {
        l.borrow_mut().all_sent = Some(sim::now_ns());
    }
    if scn.linger > 0 && at == data.len() {
        tokio::time::sleep(Duration::from_millis(scn.linger as u64)).await;
        let mut x = l.borrow_mut();
        let e = matches!(x.ended, Some((Err(_), _)));
        x.lingered = Some((x.got, e));
    }
    match scn.end {
        SEnd::Rst => netctl::rst(id, side),
        _ => {
            let _ = wr.shutdown().await;
        }
    }
    let _ = tokio::time::timeout(Duration::from_secs(190), h).await;
}

pub fn run(scn: &SScn, dec: sim::Decider, entropy: u64) -> SOut {
    let l: L = Default::default();
    let l2 = l.clone();
    let s = Rc::new(scn.clone());
    let mut knobs = scn.knobs.clone();
    knobs.max_time_s = 4000;
    let out = sim::run(knobs.cfg(), dec, entropy, async move {
        let lst = TcpListener::bind(ADDR).await.unwrap();
        let (s2, l3) = (s.clone(), l2.clone());
        let p = tokio::task::spawn_node(PEER, "peer", async move {
            let c = TcpStream::connect(ADDR).await.unwrap();
            peer(s2, l3, c).await;
        });
        let (sock, _) = lst.accept().await.unwrap();
        let (s2, l3) = (s.clone(), l2.clone());
        let r = tokio::task::spawn_node(NODE, "receiver", receiver(s2, l3, sock));
        let _ = p.await;
        let _ = r.await;
    });
    let mut log = l.borrow_mut();
    let log = &mut *log;
    let mut v = std::mem::take(&mut log.v);
    match &out.end {
        sim::End::Done => {}
        sim::End::Livelock(t) => viol(&mut v, "B17", "spin", format!("task '{t}' keeps running although nothing happens")),
        sim::End::StepLimit => viol(&mut v, "B17", "spin", "step limit reached".into()),
        e => viol(&mut v, "B17", "stuck", format!("the run ended with {e:?}")),
    }
    for p in &out.stats.panics {
        viol(&mut v, "B17", "panic", format!("panic: {p}"));
    }
    if out.end == sim::End::Done && out.stats.panics.is_empty() {
        let max = scn.max.unwrap_or(4096 * 1024);
        // packets that fit, up to the first that does not
        let fit = scn.items.iter().take_while(|i| i.bytes().len() <= max).count();
        let all = fit == scn.items.len();
        match &log.ended {
            None => viol(&mut v, "B17", "stuck", format!("reading has not ended; {} of {} packets read, all sent: {:?}", log.got, scn.items.len(), log.all_sent)),
            Some((r, _)) => {
                if log.got < fit && scn.end != SEnd::Rst {
                    viol(&mut v, "B17", "lost", format!("reading ended with {r:?} after {} of {fit} packets", log.got));
                }
                if log.got > fit && !matches!(scn.end, SEnd::Mutant(..)) {
                    viol(&mut v, "B17", "too-large", format!("{} packets read, the one after {fit} exceeds the maximum", log.got));
                }
                if !all && r.is_ok() {
                    viol(&mut v, "B17", "no-error", "a packet larger than the maximum was reported as the end of the stream".into());
                }
                if all {
                    match (&scn.end, r) {
                        (SEnd::Close, Err(e)) => viol(&mut v, "B17", "false-error", format!("valid packets and a regular end were reported as {e}")),
                        (SEnd::Junk(h), Ok(())) => viol(&mut v, "B17", "no-error", format!("{h} was reported as the end of the stream")),
                        (SEnd::Mutant(it, m), Ok(())) => {
                            if let (n, Some(e)) = ours(&mutate(it, m)) {
                                viol(&mut v, "B17", "no-error", format!("{} ({e} after {n} packets) was reported as the end of the stream", hex(&mutate(it, m))));
                            }
                        }
                        (SEnd::Huge(..), Ok(())) => viol(&mut v, "B17", "no-error", "a packet that cannot fit was reported as the end of the stream".into()),
                        _ => {}
                    }
                }
            }
        }
        // nothing waits for more bytes than it needs
        if let Some((got, err)) = log.lingered {
            let mut data: Vec<u8> = scn.items.iter().flat_map(|i| i.bytes()).collect();
            match &scn.end {
                SEnd::Cut(it, n) => {
                    let b = it.bytes();
                    data.extend(&b[..(*n).min(b.len() - 1)]);
                }
                SEnd::Mutant(it, m) => data.extend(mutate(it, m)),
                SEnd::Junk(h) => data.extend(unhex(h)),
                SEnd::Huge(len, n) => {
                    data.push(0x30);
                    varb(&mut data, *len as u32);
                    data.extend(std::iter::repeat(b'x').take((*n).min(*len)));
                }
                _ => {}
            }
            let (n, wrong) = definite(&data, max);
            if got < n.min(fit) {
                viol(&mut v, "B17", "late", format!("{got} of {} packets were read although all had arrived {} s before", n.min(fit), scn.linger / 1000));
            } else if wrong && !err {
                viol(&mut v, "B17", "late", format!("bytes that are no packet had arrived {} s before, no error was reported", scn.linger / 1000));
            }
        }
        // the other direction
        let want: Vec<Pk> = log.sent.iter().map(norm).collect();
        let have: Vec<Pk> = log.back.iter().map(norm).collect();
        if let Some(i) = (0..have.len().min(want.len())).find(|i| have[*i] != want[*i]) {
            viol(&mut v, "B17", "sent-wrong", format!("packet {i} sent as {} arrived as {}", short(&want[i]), short(&have[i])));
        } else if have.len() > want.len() {
            viol(&mut v, "B17", "sent-twice", format!("{} packets sent, {} arrived", want.len(), have.len()));
        } else if have.len() < want.len() && log.shut && log.back_eof && scn.end != SEnd::Rst {
            viol(&mut v, "B17", "sent-lost", format!("{} packets sent and flushed, {} arrived", want.len(), have.len()));
        }
        if let (Some(e), true) = (&log.back_err, log.shut && scn.end != SEnd::Rst) {
            viol(&mut v, "B17", "sent-wrong", format!("what was sent cannot be decoded: {e}"));
        }
    }
    SOut { end: out.end, stats: out.stats, trace: out.trace, lines: std::mem::take(&mut log.lines), viols: v, got: log.got }
}

// ---------------------------------------------------------------- generator
fn word(r: &mut Rng) -> String {
    const W: &[&str] = &["a", "topic", "x/y/z", "\u{e9}t\u{e9}", "\u{65e5}\u{672c}", "with space", "\u{1f980}", "0"];
    match r.below(12) {
        0 => "w".repeat(r.range(1, 140) as usize),
        1 => "l".repeat(*[120usize, 127, 128, 129, 255, 256, 300].get(r.below(7) as usize).unwrap()),
        2 if r.chance(0.05) => "v".repeat(*[16383usize, 16384, 65535].get(r.below(3) as usize).unwrap()),
        _ => W[r.below(W.len() as u64) as usize].to_string(),
    }
}
fn val(r: &mut Rng, id: u8) -> PV {
    match id {
        0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2a => PV::U8(r.below(2) as u8),
        0x13 | 0x22 if r.chance(0.15) => PV::U16(0),
        0x02 | 0x11 | 0x18 if r.chance(0.15) => PV::U32(0),
        0x13 | 0x21 | 0x22 | 0x23 => PV::U16(*[1u16, 2, 255, 256, 65535].get(r.below(5) as usize).unwrap()),
        0x02 | 0x11 | 0x18 | 0x27 => PV::U32(*[1u32, 60, 65536, u32::MAX].get(r.below(4) as usize).unwrap()),
        0x0b => PV::Var(*[1u32, 127, 128, 16383, 16384, 2097151, 2097152, 268435455].get(r.below(8) as usize).unwrap()),
        0x09 | 0x16 => PV::Bin((0..r.range(1, 40)).map(|i| (i * 31) as u8).collect()),
        0x26 => {
            let mut w = |r: &mut Rng| if r.chance(0.05) { String::new() } else { word(r) };
            PV::Pair(w(r), w(r))
        }
        _ => PV::Str(if r.chance(0.05) { String::new() } else { word(r) }),
    }
}
fn props(r: &mut Rng, ids: &[u8], p: f64) -> Props {
    let mut v = vec![];
    for id in ids {
        if r.chance(p) {
            let n = if *id == 0x26 { r.range(1, 4) } else { 1 };
            for _ in 0..n {
                v.push((*id, val(r, *id)));
            }
        }
    }
    // any order
    for i in (1..v.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
    v
}
fn many(r: &mut Rng) -> u64 {
    if r.chance(0.1) {
        r.range(6, 40)
    } else {
        r.range(1, 5)
    }
}
fn pid(r: &mut Rng) -> u16 {
    *[1u16, 2, 10, 127, 128, 255, 256, 4097, 65535].get(r.below(9) as usize).unwrap()
}
pub fn packet(r: &mut Rng) -> Pk {
    let dens = *[0.0, 0.0, 0.2, 0.6].get(r.below(4) as usize).unwrap();
    let p4 = &[0x1f, 0x26][..];
    let code = |r: &mut Rng| *[0u8, 0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99].get(r.below(10) as usize).unwrap();
    match r.below(20) {
        0 => {
            let mut c = ConnectP { cid: if r.chance(0.2) { String::new() } else { word(r) }, clean: r.chance(0.5), ka: pid(r), props: props(r, &[0x11, 0x21, 0x27, 0x22, 0x19, 0x17, 0x15, 0x16, 0x26], dens), ..Default::default() };
            if r.chance(0.4) {
                c.will = Some(WillP { topic: word(r), payload: vec![7; r.below(200) as usize], qos: r.below(3) as u8, retain: r.chance(0.5), props: props(r, &[0x18, 0x01, 0x02, 0x03, 0x08, 0x09, 0x26], dens) });
            }
            if r.chance(0.3) {
                c.user = Some(if r.chance(0.15) { String::new() } else { word(r) });
            }
            if r.chance(if c.user.is_some() { 0.5 } else { 0.05 }) {
                c.pass = Some(vec![1; r.below(20) as usize]);
            }
            Pk::Connect(c)
        }
        1 => Pk::ConnAck { sp: r.chance(0.5), reason: *[0u8, 0, 0x80, 0x97, 0x9f].get(r.below(5) as usize).unwrap(), props: props(r, &[0x11, 0x21, 0x24, 0x25, 0x27, 0x12, 0x22, 0x1f, 0x26, 0x28, 0x29, 0x2a, 0x13, 0x1a, 0x1c, 0x15, 0x16], dens) },
        2 => Pk::PubAck { pid: pid(r), reason: code(r), props: props(r, p4, dens) },
        3 => Pk::PubRec { pid: pid(r), reason: code(r), props: props(r, p4, dens) },
        4 => Pk::PubRel { pid: pid(r), reason: *[0u8, 0x92].get(r.below(2) as usize).unwrap(), props: props(r, p4, dens) },
        5 => Pk::PubComp { pid: pid(r), reason: *[0u8, 0x92].get(r.below(2) as usize).unwrap(), props: props(r, p4, dens) },
        6 | 7 => Pk::Subscribe {
            pid: pid(r),
            filters: (0..many(r)).map(|_| (word(r), r.below(3) as u8 | (r.below(2) as u8) << 2 | (r.below(2) as u8) << 3 | (r.below(3) as u8) << 4)).collect(),
            props: props(r, &[0x0b, 0x26], dens),
        },
        8 => Pk::SubAck { pid: pid(r), codes: (0..many(r)).map(|_| *[0u8, 1, 2, 0x80, 0x87].get(r.below(5) as usize).unwrap()).collect(), props: props(r, p4, dens) },
        9 => Pk::Unsub { pid: pid(r), filters: (0..many(r)).map(|_| word(r)).collect(), props: props(r, &[0x26], dens) },
        10 => Pk::UnsubAck { pid: pid(r), codes: (0..many(r)).map(|_| *[0u8, 0x11, 0x80].get(r.below(3) as usize).unwrap()).collect(), props: props(r, p4, dens) },
        11 => Pk::PingReq,
        12 => Pk::PingResp,
        13 => Pk::Disconnect { reason: *[0u8, 4, 0x80, 0x8e, 0x93].get(r.below(5) as usize).unwrap(), props: props(r, &[0x11, 0x1f, 0x1c, 0x26], dens) },
        _ => {
            let qos = r.below(3) as u8;
            Pk::Publish(PublishP {
                dup: qos > 0 && r.chance(0.2),
                qos,
                retain: r.chance(0.2),
                topic: word(r),
                pid: if qos > 0 { Some(pid(r)) } else { None },
                props: props(r, &[0x02, 0x01, 0x23, 0x08, 0x09, 0x0b, 0x03, 0x26], dens),
                payload: vec![0x55; r.below(60) as usize],
            })
        }
    }
}
fn item(r: &mut Rng, max: usize, big: f64) -> Item {
    let pk = packet(r);
    let mut it = Item { pk, pad: 0, brief: r.chance(0.5) };
    if let Pk::Publish(_) = it.pk {
        if r.chance(big) {
            // sizes around what fits, and around the steps of the length encoding
            let base = it.bytes().len();
            let aim = match r.below(6) {
                0 => *[127usize, 128, 129, 130, 131, 16383, 16384, 16386, 16388].get(r.below(9) as usize).unwrap(),
                1 => max.min(70_000),
                2 => (max.min(70_000)) / 2 + r.below(5) as usize,
                _ => r.below(max.min(20_000) as u64) as usize,
            };
            it.pad = aim.saturating_sub(base);
            let mut n = 0;
            while it.bytes().len() > max && it.pad > 0 && n < 8 {
                it.pad -= (it.bytes().len() - max).min(it.pad);
                n += 1;
            }
        }
    }
    it
}

/// each of them wrong in one way
const JUNK: &[&str] = &[
    "00", "00ff", "f0ffffffff", "3fffffffff", "36050001740001", "8000", "10ff", "3080808080", "ffff", "30ffffffff01", "c08080808000", "d08080808000", "4082808080000001", "c1", "4400", "3606000174000161",
    // bytes after the end of what the packet holds
    "400600010000ffff", "c00100", "d00100", "d0020000", "e0030000ff", "620500010000ff",
    // too short for what it announces
    "3003000574", "30020005", "320400017400", "82050001000005", "8205000100000a", "820400010000", "a20400010001", "20020000", "2000", "4000", "40010a", "100600044d515454", "100a00044d5154540502003c",
    // not UTF-8
    "30060002fffe0078", "30060002c3280078", "82090001000003edbfbf00", "a206000100000180",
    // properties: longer than the packet, unknown, cut off
    "30050001740a02", "3006000174020a00", "30080001740402000000", "300700017403080005",
];

pub fn generate(r: &mut Rng, k: u64) -> SScn {
    let mut knobs = crate::bgen::knobs(r);
    knobs.split_p = *[0.0, 0.1, 0.5, 0.9].get(r.below(4) as usize).unwrap();
    let init = *[None, Some(1usize), Some(2), Some(7), Some(16), Some(64), Some(1024), Some(4096)].get(r.below(8) as usize).unwrap();
    let mut max = *[None, Some(64usize), Some(127), Some(128), Some(200), Some(1000), Some(4096), Some(20_000)].get(r.below(8) as usize).unwrap();
    let whole = k % 4000 == 77;
    if whole {
        max = None;
    }
    let m = max.unwrap_or(4096 * 1024);
    let n = if whole { 2 } else { r.range(1, 30) };
    let big = *[0.1, 0.1, 0.3, 0.6].get(r.below(4) as usize).unwrap();
    let mut items: Vec<Item> = vec![];
    while (items.len() as u64) < n {
        let it = item(r, m, big);
        if it.bytes().len() <= m {
            items.push(it);
        } else if m < 64 {
            break;
        }
    }
    if whole {
        // exactly the default maximum
        let mut it = Item { pk: Pk::Publish(PublishP { topic: "t".into(), ..Default::default() }), pad: 0, brief: false };
        it.pad = m - 9 + r.below(3) as usize;
        items.push(it);
        items.push(Item { pk: Pk::PingReq, pad: 0, brief: false });
        knobs.window = 65536;
        knobs.split_p = 0.0;
        knobs.jitter_us = 0;
    } else if r.chance(0.15) {
        // too large by a little
        let mut it = Item { pk: Pk::Publish(PublishP { topic: "t".into(), ..Default::default() }), pad: 0, brief: false };
        if m <= 100_000 {
            it.pad = m;
            while it.bytes().len() > m + 1 && it.pad > 0 && r.chance(0.95) {
                it.pad -= 1;
            }
            items.push(it);
            items.push(Item { pk: Pk::PingReq, pad: 0, brief: false });
        }
    }
    let tiny = !whole && items.iter().map(|i| i.bytes().len()).sum::<usize>() < 3000 && r.chance(0.35);
    let cuts = match r.below(4) {
        _ if whole => vec![(*[60_000u32, 4096 * 1024].get(r.below(2) as usize).unwrap(), 0)],
        0 => vec![],
        _ if tiny => (0..r.range(1, 4)).map(|_| (r.range(1, 5) as u32, *[0u32, 0, 10, 1000].get(r.below(4) as usize).unwrap())).collect(),
        _ => (0..r.range(1, 6)).map(|_| (*[1u32, 2, 3, 5, 64, 100, 1000, 4096, 9999].get(r.below(9) as usize).unwrap() + if items.len() > 5 { 20 } else { 0 }, *[0u32, 0, 0, 100, 20_000].get(r.below(5) as usize).unwrap())).collect(),
    };
    let end = match r.below(14) {
        12 | 13 => {
            let it = item(r, m.min(1000), 0.05);
            let n = it.bytes().len() as u64;
            let muts = (0..r.range(1, 4)).map(|_| (if r.chance(0.3) { r.below(n.min(4)) } else { r.below(n) } as usize, if r.chance(0.5) { 1 << r.below(8) } else { r.range(1, 256) as u8 })).collect();
            SEnd::Mutant(it, muts)
        }
        0 => SEnd::Rst,
        1 | 2 => {
            let it = item(r, m, 0.1);
            let n = it.bytes().len();
            SEnd::Cut(it, r.range(1, (n as u64).max(2)) as usize)
        }
        3 => SEnd::Junk(JUNK[r.below(JUNK.len() as u64) as usize].to_string()),
        4 => SEnd::Huge((m + 1 + r.below(3000) as usize).min(268_435_000), if m > 100_000 { 100 } else { m + r.below(4000) as usize }),
        _ => SEnd::Close,
    };
    let end = match end {
        // too much to send in full: cut off, which is an error either way
        SEnd::Huge(..) if m > 100_000 => SEnd::Close,
        e => e,
    };
    let mut ops = vec![];
    for _ in 0..r.below(14) {
        ops.push(match r.below(10) {
            0 | 1 => ROp::Queue(item(r, 100_000, 0.3)),
            2 => ROp::Write(item(r, 100_000, 0.2), *[0u32, 1, 100, 5000].get(r.below(4) as usize).unwrap()),
            3 => ROp::Flush(*[0u32, 50, 2000, 100_000].get(r.below(4) as usize).unwrap()),
            4 => ROp::Wait(*[1u32, 100, 5000, 100_000].get(r.below(4) as usize).unwrap()),
            _ => ROp::Read { how: r.below(3) as u8, us: *[0u32, 0, 1, 50, 300, 3000, 50_000].get(r.below(7) as usize).unwrap(), n: r.range(1, 25) as u32 },
        });
    }
    if r.chance(0.05) {
        let n = *[65_536u32, 65_537, 65_600, 70_000, 131_072, 131_080, 200_000].get(r.below(7) as usize).unwrap();
        ops.insert(r.below(ops.len() as u64 + 1) as usize, ROp::TooLong(r.below(6) as u8, n, r.chance(0.5)));
    }
    let linger = if r.chance(0.3) { 120_000 } else { 0 };
    let how = r.below(3) as u8;
    ops.push(ROp::Read { how, us: 1_000_000, n: r.range(0, 40) as u32 });
    SScn { knobs, init, max, items, cuts, end, peer_stop: *[0u32, 0, 0, 300, 3000].get(r.below(5) as usize).unwrap(), ops, linger }
}
