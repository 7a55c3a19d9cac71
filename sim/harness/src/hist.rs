//! The recorded history of one run.
use crate::mq::Pk;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    /// TCP connection established (simulated connection id, our side)
    Open { sim: u64, side: usize },
    OpenFail(String),
    /// first byte of a packet offered to the transport; `SendDone(i)` refers to the index of this event
    Send(Pk),
    SendDone(usize),
    SendFail(usize, String),
    /// bytes that are not (known to be) a packet
    Raw(Vec<u8>),
    RawDone(usize),
    Recv(Pk),
    Undecodable(String),
    /// the broker closed its side
    Eof,
    /// connection error seen by our reader
    Reset(String),
    /// what the peer itself does to the connection
    Close,
    Shut,
    Rst,
    Crash { lose: usize, rst: bool },
    HalfOpen,
    Stall(u64),
    ReadStop,
    ReadResume,
    AckMode(String),
    AwaitOk,
    AwaitTimeout,
    Note(String),
    AcceptErr(i32),
    /// the maximum session expiry interval is changed while the broker runs, event i is done
    SetExpiry(u64),
    SetExpiryDone(usize),
    /// application level (clients of the library)
    App(String),
    /// the application offers item i to the producer channel, it is accepted, it is refused
    Q(usize),
    QDone(usize),
    QFail(usize),
    /// a packet arrived at the application's consumer
    Got(usize, String),
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub t: u64,
    pub actor: usize,
    pub conn: usize,
    pub k: K,
}

#[derive(Clone, Default)]
pub struct Hist(pub Rc<RefCell<Vec<Ev>>>);
impl Hist {
    pub fn log(&self, actor: usize, conn: usize, k: K) -> usize {
        let t = tokio::sim::now_ns();
        let mut h = self.0.borrow_mut();
        h.push(Ev { t, actor, conn, k });
        h.len() - 1
    }
    pub fn now(&self) -> usize {
        self.0.borrow().len()
    }
}

pub fn show(h: &[Ev], max: usize) -> Vec<String> {
    let mut v = vec![];
    for (i, e) in h.iter().enumerate() {
        if let K::SendDone(_) | K::RawDone(_) = e.k {
            continue;
        }
        let k = match &e.k {
            K::Send(p) => format!("-> {}", p.short()),
            K::Recv(p) => format!("<- {}", p.short()),
            K::Raw(b) => format!("-> raw {} bytes {}", b.len(), hex(&b[..b.len().min(24)])),
            k => format!("{k:?}"),
        };
        v.push(format!("{i:5} {:>12.6}s a{} c{} {k}", e.t as f64 / 1e9, e.actor, e.conn));
    }
    if v.len() > max {
        let cut = v.len() - max;
        let mut w: Vec<String> = v[..max / 2].to_vec();
        w.push(format!("... {cut} lines ..."));
        w.extend_from_slice(&v[v.len() - max / 2..]);
        return w;
    }
    v
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Violation {
    pub property: String,
    /// kind of violation; used to keep shrinking on the same one and to match known findings
    pub class: String,
    pub detail: String,
}
pub fn viol(v: &mut Vec<Violation>, p: &str, c: &str, d: String) {
    if v.iter().filter(|x| x.property == p && x.class == c).count() < 3 {
        v.push(Violation { property: p.into(), class: c.into(), detail: d });
    }
}
