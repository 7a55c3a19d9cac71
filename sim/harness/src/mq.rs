//! A small MQTT 5 codec of our own for simulated peers.  Deliberately independent of the code under test.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum PV {
    U8(u8),
    U16(u16),
    U32(u32),
    Var(u32),
    Str(String),
    Bin(Vec<u8>),
    Pair(String, String),
}
pub type Props = Vec<(u8, PV)>;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WillP {
    pub topic: String,
    pub payload: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ConnectP {
    pub cid: String,
    pub clean: bool,
    pub ka: u16,
    pub props: Props,
    pub will: Option<WillP>,
    pub user: Option<String>,
    pub pass: Option<Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct PublishP {
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub topic: String,
    pub pid: Option<u16>,
    pub props: Props,
    pub payload: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pk {
    Connect(ConnectP),
    ConnAck { sp: bool, reason: u8, props: Props },
    Publish(PublishP),
    PubAck { pid: u16, reason: u8, props: Props },
    PubRec { pid: u16, reason: u8, props: Props },
    PubRel { pid: u16, reason: u8, props: Props },
    PubComp { pid: u16, reason: u8, props: Props },
    Subscribe { pid: u16, filters: Vec<(String, u8)>, props: Props },
    SubAck { pid: u16, codes: Vec<u8>, props: Props },
    Unsub { pid: u16, filters: Vec<String>, props: Props },
    UnsubAck { pid: u16, codes: Vec<u8>, props: Props },
    PingReq,
    PingResp,
    Disconnect { reason: u8, props: Props },
    Auth { reason: u8, props: Props },
}

impl Pk {
    pub fn name(&self) -> &'static str {
        match self {
            Pk::Connect(_) => "CONNECT",
            Pk::ConnAck { .. } => "CONNACK",
            Pk::Publish(_) => "PUBLISH",
            Pk::PubAck { .. } => "PUBACK",
            Pk::PubRec { .. } => "PUBREC",
            Pk::PubRel { .. } => "PUBREL",
            Pk::PubComp { .. } => "PUBCOMP",
            Pk::Subscribe { .. } => "SUBSCRIBE",
            Pk::SubAck { .. } => "SUBACK",
            Pk::Unsub { .. } => "UNSUBSCRIBE",
            Pk::UnsubAck { .. } => "UNSUBACK",
            Pk::PingReq => "PINGREQ",
            Pk::PingResp => "PINGRESP",
            Pk::Disconnect { .. } => "DISCONNECT",
            Pk::Auth { .. } => "AUTH",
        }
    }
    pub fn short(&self) -> String {
        match self {
            Pk::Connect(c) => format!("CONNECT cid={} clean={} ka={} will={}", c.cid, c.clean, c.ka, c.will.is_some()),
            Pk::ConnAck { sp, reason, .. } => format!("CONNACK sp={sp} reason={reason:#04x}"),
            Pk::Publish(p) => format!(
                "PUBLISH q{} pid={:?} dup={} topic={} payload={}",
                p.qos,
                p.pid,
                p.dup,
                p.topic,
                String::from_utf8_lossy(&p.payload[..p.payload.len().min(24)])
            ),
            Pk::PubAck { pid, .. } => format!("PUBACK {pid}"),
            Pk::PubRec { pid, .. } => format!("PUBREC {pid}"),
            Pk::PubRel { pid, .. } => format!("PUBREL {pid}"),
            Pk::PubComp { pid, .. } => format!("PUBCOMP {pid}"),
            Pk::Subscribe { pid, filters, .. } => format!("SUBSCRIBE {pid} {filters:?}"),
            Pk::SubAck { pid, codes, .. } => format!("SUBACK {pid} {codes:?}"),
            Pk::Unsub { pid, filters, .. } => format!("UNSUBSCRIBE {pid} {filters:?}"),
            Pk::UnsubAck { pid, codes, .. } => format!("UNSUBACK {pid} {codes:?}"),
            Pk::Disconnect { reason, .. } => format!("DISCONNECT {reason:#04x}"),
            Pk::Auth { reason, .. } => format!("AUTH {reason:#04x}"),
            p => p.name().to_string(),
        }
    }
}

fn u16b(v: &mut Vec<u8>, x: u16) {
    v.extend_from_slice(&x.to_be_bytes());
}
fn strb(v: &mut Vec<u8>, s: &str) {
    u16b(v, s.len() as u16);
    v.extend_from_slice(s.as_bytes());
}
fn binb(v: &mut Vec<u8>, s: &[u8]) {
    u16b(v, s.len() as u16);
    v.extend_from_slice(s);
}
pub fn varb(v: &mut Vec<u8>, mut x: u32) {
    loop {
        let mut b = (x & 0x7f) as u8;
        x >>= 7;
        if x > 0 {
            b |= 0x80;
        }
        v.push(b);
        if x == 0 {
            break;
        }
    }
}
fn propsb(v: &mut Vec<u8>, p: &Props) {
    let mut b = vec![];
    for (id, val) in p {
        b.push(*id);
        match val {
            PV::U8(x) => b.push(*x),
            PV::U16(x) => u16b(&mut b, *x),
            PV::U32(x) => b.extend_from_slice(&x.to_be_bytes()),
            PV::Var(x) => varb(&mut b, *x),
            PV::Str(s) => strb(&mut b, s),
            PV::Bin(s) => binb(&mut b, s),
            PV::Pair(k, s) => {
                strb(&mut b, k);
                strb(&mut b, s);
            }
        }
    }
    varb(v, b.len() as u32);
    v.extend(b);
}

pub fn encode(p: &Pk) -> Vec<u8> {
    let mut b = vec![];
    let first;
    match p {
        Pk::Connect(c) => {
            first = 0x10;
            strb(&mut b, "MQTT");
            b.push(5);
            let mut f = 0u8;
            if c.clean {
                f |= 2;
            }
            if let Some(w) = &c.will {
                f |= 4 | (w.qos << 3);
                if w.retain {
                    f |= 0x20;
                }
            }
            if c.user.is_some() {
                f |= 0x80;
            }
            if c.pass.is_some() {
                f |= 0x40;
            }
            b.push(f);
            u16b(&mut b, c.ka);
            propsb(&mut b, &c.props);
            strb(&mut b, &c.cid);
            if let Some(w) = &c.will {
                propsb(&mut b, &w.props);
                strb(&mut b, &w.topic);
                binb(&mut b, &w.payload);
            }
            if let Some(u) = &c.user {
                strb(&mut b, u);
            }
            if let Some(u) = &c.pass {
                binb(&mut b, u);
            }
        }
        Pk::ConnAck { sp, reason, props } => {
            first = 0x20;
            b.push(*sp as u8);
            b.push(*reason);
            propsb(&mut b, props);
        }
        Pk::Publish(p) => {
            first = 0x30 | ((p.dup as u8) << 3) | (p.qos << 1) | p.retain as u8;
            strb(&mut b, &p.topic);
            if let Some(i) = p.pid {
                u16b(&mut b, i);
            }
            propsb(&mut b, &p.props);
            b.extend_from_slice(&p.payload);
        }
        Pk::PubAck { pid, reason, props }
        | Pk::PubRec { pid, reason, props }
        | Pk::PubRel { pid, reason, props }
        | Pk::PubComp { pid, reason, props } => {
            first = match p {
                Pk::PubAck { .. } => 0x40,
                Pk::PubRec { .. } => 0x50,
                Pk::PubRel { .. } => 0x62,
                _ => 0x70,
            };
            u16b(&mut b, *pid);
            if *reason != 0 || !props.is_empty() {
                b.push(*reason);
                propsb(&mut b, props);
            }
        }
        Pk::Subscribe { pid, filters, props } => {
            first = 0x82;
            u16b(&mut b, *pid);
            propsb(&mut b, props);
            for (f, o) in filters {
                strb(&mut b, f);
                b.push(*o);
            }
        }
        Pk::SubAck { pid, codes, props } => {
            first = 0x90;
            u16b(&mut b, *pid);
            propsb(&mut b, props);
            b.extend(codes);
        }
        Pk::Unsub { pid, filters, props } => {
            first = 0xa2;
            u16b(&mut b, *pid);
            propsb(&mut b, props);
            for f in filters {
                strb(&mut b, f);
            }
        }
        Pk::UnsubAck { pid, codes, props } => {
            first = 0xb0;
            u16b(&mut b, *pid);
            propsb(&mut b, props);
            b.extend(codes);
        }
        Pk::PingReq => first = 0xc0,
        Pk::PingResp => first = 0xd0,
        Pk::Disconnect { reason, props } | Pk::Auth { reason, props } => {
            first = if matches!(p, Pk::Disconnect { .. }) { 0xe0 } else { 0xf0 };
            if *reason != 0 || !props.is_empty() {
                b.push(*reason);
                propsb(&mut b, props);
            }
        }
    }
    let mut v = vec![first];
    varb(&mut v, b.len() as u32);
    v.extend(b);
    v
}

struct Rd<'a>(&'a [u8]);
type R<T> = Result<T, String>;
impl<'a> Rd<'a> {
    fn u8(&mut self) -> R<u8> {
        let (a, r) = self.0.split_first().ok_or("short")?;
        self.0 = r;
        Ok(*a)
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.0.len() < n {
            return Err("short".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u16(&mut self) -> R<u16> {
        let a = self.take(2)?;
        Ok(u16::from_be_bytes([a[0], a[1]]))
    }
    fn u32(&mut self) -> R<u32> {
        let a = self.take(4)?;
        Ok(u32::from_be_bytes([a[0], a[1], a[2], a[3]]))
    }
    fn var(&mut self) -> R<u32> {
        let mut x = 0u32;
        for i in 0..4 {
            let b = self.u8()?;
            x |= ((b & 0x7f) as u32) << (7 * i);
            if b & 0x80 == 0 {
                return Ok(x);
            }
        }
        Err("bad varint".into())
    }
    fn bin(&mut self) -> R<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn str(&mut self) -> R<String> {
        String::from_utf8(self.bin()?).map_err(|_| "utf8".to_string())
    }
    fn props(&mut self) -> R<Props> {
        let n = self.var()? as usize;
        let mut r = Rd(self.take(n)?);
        let mut v = vec![];
        while !r.0.is_empty() {
            let id = r.u8()?;
            let pv = match id {
                0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2a => PV::U8(r.u8()?),
                0x13 | 0x21 | 0x22 | 0x23 => PV::U16(r.u16()?),
                0x02 | 0x11 | 0x18 | 0x27 => PV::U32(r.u32()?),
                0x0b => PV::Var(r.var()?),
                0x03 | 0x08 | 0x12 | 0x15 | 0x1a | 0x1c | 0x1f => PV::Str(r.str()?),
                0x09 | 0x16 => PV::Bin(r.bin()?),
                0x26 => PV::Pair(r.str()?, r.str()?),
                x => return Err(format!("property {x:#x}")),
            };
            v.push((id, pv));
        }
        Ok(v)
    }
}

fn decode_body(first: u8, body: &[u8]) -> R<Pk> {
    let mut r = Rd(body);
    let fl = first & 0x0f;
    let want = |w: u8| if fl == w { Ok(()) } else { Err(format!("reserved flags {fl:#x}")) };
    let pk = match first >> 4 {
        1 => {
            want(0)?;
            if r.str()? != "MQTT" || r.u8()? != 5 {
                return Err("protocol".into());
            }
            let f = r.u8()?;
            let ka = r.u16()?;
            let props = r.props()?;
            let cid = r.str()?;
            let mut c = ConnectP { cid, clean: f & 2 != 0, ka, props, ..Default::default() };
            if f & 4 != 0 {
                let props = r.props()?;
                let topic = r.str()?;
                let payload = r.bin()?;
                c.will = Some(WillP { topic, payload, props, qos: (f >> 3) & 3, retain: f & 0x20 != 0 });
            }
            if f & 0x80 != 0 {
                c.user = Some(r.str()?);
            }
            if f & 0x40 != 0 {
                c.pass = Some(r.bin()?);
            }
            Pk::Connect(c)
        }
        2 => {
            want(0)?;
            let sp = r.u8()?;
            if sp > 1 {
                return Err("connack flags".into());
            }
            Pk::ConnAck { sp: sp == 1, reason: r.u8()?, props: r.props()? }
        }
        3 => {
            let qos = (fl >> 1) & 3;
            if qos == 3 {
                return Err("qos 3".into());
            }
            let topic = r.str()?;
            let pid = if qos > 0 { Some(r.u16()?) } else { None };
            let props = r.props()?;
            let payload = std::mem::take(&mut r.0).to_vec();
            Pk::Publish(PublishP { dup: fl & 8 != 0, qos, retain: fl & 1 != 0, topic, pid, props, payload })
        }
        k @ 4..=7 => {
            want(if k == 6 { 2 } else { 0 })?;
            let pid = r.u16()?;
            let reason = if r.0.is_empty() { 0 } else { r.u8()? };
            let props = if r.0.is_empty() { vec![] } else { r.props()? };
            match k {
                4 => Pk::PubAck { pid, reason, props },
                5 => Pk::PubRec { pid, reason, props },
                6 => Pk::PubRel { pid, reason, props },
                _ => Pk::PubComp { pid, reason, props },
            }
        }
        8 => {
            want(2)?;
            let pid = r.u16()?;
            let props = r.props()?;
            let mut filters = vec![];
            while !r.0.is_empty() {
                filters.push((r.str()?, r.u8()?));
            }
            Pk::Subscribe { pid, filters, props }
        }
        9 => {
            want(0)?;
            let pid = r.u16()?;
            let props = r.props()?;
            Pk::SubAck { pid, props, codes: std::mem::take(&mut r.0).to_vec() }
        }
        10 => {
            want(2)?;
            let pid = r.u16()?;
            let props = r.props()?;
            let mut filters = vec![];
            while !r.0.is_empty() {
                filters.push(r.str()?);
            }
            Pk::Unsub { pid, filters, props }
        }
        11 => {
            want(0)?;
            let pid = r.u16()?;
            let props = r.props()?;
            Pk::UnsubAck { pid, props, codes: std::mem::take(&mut r.0).to_vec() }
        }
        12 => {
            want(0)?;
            Pk::PingReq
        }
        13 => {
            want(0)?;
            Pk::PingResp
        }
        k @ (14 | 15) => {
            want(0)?;
            let reason = if r.0.is_empty() { 0 } else { r.u8()? };
            let props = if r.0.is_empty() { vec![] } else { r.props()? };
            if k == 14 {
                Pk::Disconnect { reason, props }
            } else {
                Pk::Auth { reason, props }
            }
        }
        _ => return Err("packet type 0".into()),
    };
    if !r.0.is_empty() {
        return Err(format!("{} trailing bytes in {}", r.0.len(), pk.name()));
    }
    Ok(pk)
}

#[derive(Default)]
pub struct Decoder {
    buf: Vec<u8>,
}
impl Decoder {
    pub fn feed(&mut self, b: &[u8]) {
        self.buf.extend_from_slice(b);
    }
    pub fn leftover(&self) -> usize {
        self.buf.len()
    }
    pub fn next(&mut self) -> R<Option<Pk>> {
        if self.buf.len() < 2 {
            return Ok(None);
        }
        let mut len = 0usize;
        let mut i = 1;
        loop {
            if i > 4 {
                return Err("remaining length".into());
            }
            let Some(b) = self.buf.get(i) else { return Ok(None) };
            len |= ((b & 0x7f) as usize) << (7 * (i - 1));
            i += 1;
            if b & 0x80 == 0 {
                break;
            }
        }
        if self.buf.len() < i + len {
            return Ok(None);
        }
        let body: Vec<u8> = self.buf.drain(..i + len).collect();
        decode_body(body[0], &body[i..]).map(Some)
    }
}

/// MQTT 5 filter matching (4.7).
pub fn matches(filter: &str, topic: &str) -> bool {
    if topic.starts_with('$') && (filter.starts_with('+') || filter.starts_with('#')) {
        return false;
    }
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    let mut i = 0;
    loop {
        if i < f.len() && f[i] == "#" {
            return true;
        }
        if i == f.len() || i == t.len() {
            return i == f.len() && i == t.len();
        }
        if f[i] != "+" && f[i] != t[i] {
            return false;
        }
        i += 1;
    }
}
