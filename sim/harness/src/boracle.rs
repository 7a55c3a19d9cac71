//! Checks over the history of a broker run.  Everything is judged from what the peers saw on the wire; where the
//! history leaves room for more than one correct outcome, all of them are accepted.
use crate::bscn::*;
use crate::hist::*;
use crate::mq::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

const INF: u64 = u64::MAX / 4;
const S: u64 = 1_000_000_000;
const MS: u64 = 1_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HowEnd {
    Close,
    Rst,
    Crash,
    HalfOpen,
}

pub struct CV {
    pub idx: usize,
    pub actor: usize,
    pub cid: String,
    pub open: usize,
    /// first CONNECT: event, completion, packet
    pub connect: Option<(usize, Option<usize>, ConnectP)>,
    pub connects: Vec<usize>,
    pub connack: Option<(usize, bool, u8, Props)>,
    pub sends: Vec<(usize, Option<usize>, Pk)>,
    /// position in `sends` -> index of the response event
    pub resp: Vec<Option<usize>>,
    pub recvs: Vec<(usize, Pk)>,
    pub raw: Option<usize>,
    pub eof: Option<usize>,
    pub reset: Option<usize>,
    pub undec: Option<usize>,
    pub our_end: Option<(usize, HowEnd)>,
    pub shut: Option<usize>,
    pub disc: Option<(usize, Option<usize>, u8)>,
    pub disc_recv: Option<(usize, u8)>,
    pub stops: Vec<(usize, Option<usize>)>,
    pub stall: Option<(usize, u64)>,
    /// keep-alive in force, ns (0: none)
    pub ka: u64,
    /// expiry in force, seconds
    pub exp: u32,
    /// next connection of the same client id that was accepted (position in `H::cs`)
    pub next: Option<usize>,
    pub prev: Option<usize>,
    pub era: usize,
    /// first CONNECT of the same client id sent after ours
    pub taken: Option<usize>,
    pub calm: usize,
    pub calm_t: u64,
    pub end_lo: u64,
    pub end_hi: u64,
}
impl CV {
    fn est(&self) -> bool {
        matches!(self.connack, Some((_, _, 0, _)))
    }
}

pub struct Pub {
    pub c: usize,
    pub pos: usize,
    pub i: usize,
    pub topic: String,
    pub qos: u8,
    pub payload: Vec<u8>,
    pub props: Props,
    pub acked: Option<usize>,
    /// time by which the broker has certainly finished routing it
    pub handled: Option<u64>,
    pub will: bool,
}

#[derive(Clone)]
struct SubEv {
    c: usize,
    i: usize,
    ack: Option<usize>,
    ok: bool,
    sub: Option<u8>, // None: unsubscribe
}

pub struct H<'a> {
    pub h: &'a [Ev],
    pub scn: &'a BScn,
    pub out: &'a BOut,
    pub cs: Vec<CV>,
    pub pubs: Vec<Pub>,
    pub by_payload: HashMap<u64, usize>,
    subs: BTreeMap<(String, String), Vec<SubEv>>,
    /// client ids whose connections cannot be put in one order
    racy: BTreeSet<String>,
    pub bound: u64,
    pub end_t: u64,
    ids: BTreeMap<String, Vec<usize>>,
}

fn pid_of(payload: &[u8]) -> Option<u64> {
    if payload.len() >= 10 && payload[0] == b'm' && payload[9] == b'.' {
        std::str::from_utf8(&payload[1..9]).ok()?.parse().ok()
    } else {
        None
    }
}

impl<'a> H<'a> {
    pub fn new(scn: &'a BScn, out: &'a BOut) -> H<'a> {
        let h = &out.hist[..];
        let mut cs: Vec<CV> = vec![];
        let mut pos: HashMap<usize, usize> = HashMap::new();
        let mut sendpos: HashMap<usize, (usize, usize)> = HashMap::new();
        let bound = 5 * S + 4 * scn.knobs.max_lat();
        for (i, e) in h.iter().enumerate() {
            if let K::Open { .. } = e.k {
                pos.insert(e.conn, cs.len());
                cs.push(CV {
                    idx: e.conn,
                    actor: e.actor,
                    cid: String::new(),
                    open: i,
                    connect: None,
                    connects: vec![],
                    connack: None,
                    sends: vec![],
                    resp: vec![],
                    recvs: vec![],
                    raw: None,
                    eof: None,
                    reset: None,
                    undec: None,
                    our_end: None,
                    shut: None,
                    disc: None,
                    disc_recv: None,
                    stops: vec![],
                    stall: None,
                    ka: 0,
                    exp: 0,
                    next: None,
                    prev: None,
                    era: 0,
                    taken: None,
                    calm: 0,
                    calm_t: 0,
                    end_lo: INF,
                    end_hi: INF,
                });
                continue;
            }
            let Some(&p) = pos.get(&e.conn) else { continue };
            let c = &mut cs[p];
            match &e.k {
                K::Send(pk) => {
                    sendpos.insert(i, (p, c.sends.len()));
                    c.sends.push((i, None, pk.clone()));
                    c.resp.push(None);
                    match pk {
                        Pk::Connect(k) => {
                            if c.connect.is_none() {
                                c.connect = Some((i, None, k.clone()));
                            }
                            c.connects.push(i);
                        }
                        Pk::Disconnect { reason, .. } if c.disc.is_none() => c.disc = Some((i, None, *reason)),
                        _ => {}
                    }
                }
                K::SendDone(j) => {
                    if let Some(&(_, s)) = sendpos.get(j) {
                        c.sends[s].1 = Some(i);
                        if let Some(x) = &mut c.connect {
                            if x.0 == *j {
                                x.1 = Some(i);
                            }
                        }
                        if let Some(x) = &mut c.disc {
                            if x.0 == *j {
                                x.1 = Some(i);
                            }
                        }
                    }
                }
                K::Recv(pk) => {
                    match pk {
                        Pk::ConnAck { sp, reason, props } if c.connack.is_none() => {
                            c.connack = Some((i, *sp, *reason, props.clone()))
                        }
                        Pk::Disconnect { reason, .. } if c.disc_recv.is_none() => c.disc_recv = Some((i, *reason)),
                        _ => {}
                    }
                    c.recvs.push((i, pk.clone()));
                }
                K::Raw(_) => c.raw = c.raw.or(Some(i)),
                K::Eof => c.eof = c.eof.or(Some(i)),
                K::Reset(_) => c.reset = c.reset.or(Some(i)),
                K::Undecodable(_) => c.undec = c.undec.or(Some(i)),
                K::Close => c.our_end = c.our_end.or(Some((i, HowEnd::Close))),
                K::Rst => c.our_end = c.our_end.or(Some((i, HowEnd::Rst))),
                K::Crash { rst: true, .. } => c.our_end = c.our_end.or(Some((i, HowEnd::Crash))),
                K::Crash { rst: false, .. } | K::HalfOpen => c.our_end = c.our_end.or(Some((i, HowEnd::HalfOpen))),
                K::Shut => c.shut = c.shut.or(Some(i)),
                K::ReadStop => c.stops.push((i, None)),
                K::ReadResume => {
                    if let Some(x) = c.stops.last_mut() {
                        x.1 = x.1.or(Some(i));
                    }
                }
                K::Stall(ms) => c.stall = c.stall.or(Some((i, e.t + ms * 1_000_000))),
                _ => {}
            }
        }
        let end_t = out.stats.sim_ns;
        // what goes through a small window takes one round trip for every window
        let most = cs
            .iter()
            .map(|c| {
                let size = |pk: &Pk| if let Pk::Publish(x) = pk { x.payload.len() + x.topic.len() + 10 } else { 10 };
                c.sends.iter().map(|s| size(&s.2)).sum::<usize>().max(c.recvs.iter().map(|r| size(&r.1)).sum())
            })
            .max()
            .unwrap_or(0);
        let bound = bound + 2 * scn.knobs.max_lat() * (most / scn.knobs.window.max(1) as usize) as u64;
        // parameters in force
        for c in cs.iter_mut() {
            if let Some((_, _, k)) = &c.connect {
                c.cid = k.cid.clone();
                let mut ka = k.ka;
                let mut exp = 0;
                for (id, v) in &k.props {
                    if let (0x11, PV::U32(x)) = (*id, v) {
                        exp = *x;
                    }
                }
                if let Some((_, _, _, props)) = &c.connack {
                    for (id, v) in props {
                        match (*id, v) {
                            (0x13, PV::U16(x)) => ka = *x,
                            (0x11, PV::U32(x)) => exp = *x,
                            (0x12, PV::Str(s)) => c.cid = s.clone(),
                            _ => {}
                        }
                    }
                }
                c.ka = ka as u64 * S;
                c.exp = exp;
            }
        }
        let mut ids: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for (p, c) in cs.iter().enumerate() {
            if c.connect.is_some() && !c.cid.is_empty() {
                ids.entry(c.cid.clone()).or_default().push(p);
            }
        }
        let mut racy = BTreeSet::new();
        for (cid, v) in ids.iter_mut() {
            v.sort_by_key(|p| cs[*p].connect.as_ref().unwrap().0);
            let mut era = 0;
            let mut prev: Option<usize> = None;
            for k in 0..v.len() {
                let p = v[k];
                if k + 1 < v.len() {
                    let nxt = cs[v[k + 1]].connect.as_ref().unwrap().0;
                    cs[p].taken = Some(nxt);
                    // the previous attempt has to be decided before the next starts
                    match &cs[p].connack {
                        Some((i, ..)) if *i < nxt => {}
                        _ => {
                            racy.insert(cid.clone());
                        }
                    }
                }
                if cs[p].est() {
                    if !cs[p].connack.as_ref().unwrap().1 {
                        era += 1;
                    }
                    cs[p].era = era;
                    if let Some(q) = prev {
                        cs[q].next = Some(p);
                        cs[p].prev = Some(q);
                    }
                    prev = Some(p);
                } else if cs[p].connack.is_some() {
                    // refused: changes nothing, but took no session over either
                    cs[p].era = era;
                }
            }
        }
        // a refused newcomer does not take over
        for (_, v) in &ids {
            for k in 0..v.len() {
                let mut t = None;
                for q in &v[k + 1..] {
                    let refused = matches!(cs[*q].connack, Some((_, _, r, _)) if r != 0);
                    if !refused {
                        t = Some(cs[*q].connect.as_ref().unwrap().0);
                        break;
                    }
                }
                let p = v[k];
                // an earlier attempt may be handled after this one
                let own = cs[p].connect.as_ref().unwrap().0;
                for q in &v[..k] {
                    let o = &cs[*q];
                    let open = match &o.connack {
                        Some((i, _, 0, _)) => *i > own,
                        Some(_) => false,
                        None => {
                            let gone = [o.our_end.map(|x| x.0), o.eof, o.reset].iter().flatten().min().copied();
                            gone.map(|g| h[g].t + bound > h[own].t).unwrap_or(true)
                        }
                    };
                    if open {
                        t = Some(own);
                    }
                }
                cs[p].taken = t;
            }
        }
        let idx_at = |t: u64| h.partition_point(|e| e.t < t);
        let n = h.len();
        for c in cs.iter_mut() {
            // responses
            let mut pa: Vec<(u16, usize)> = vec![];
            let mut sa: Vec<(u16, usize)> = vec![];
            let mut ua: Vec<(u16, usize)> = vec![];
            let mut pi: Vec<usize> = vec![];
            for (i, pk) in &c.recvs {
                match pk {
                    Pk::PubAck { pid, .. } => pa.push((*pid, *i)),
                    Pk::SubAck { pid, .. } => sa.push((*pid, *i)),
                    Pk::UnsubAck { pid, .. } => ua.push((*pid, *i)),
                    Pk::PingResp => pi.push(*i),
                    _ => {}
                }
            }
            let (mut a, mut b, mut d, mut e) = (0, 0, 0, 0);
            for (k, (_, _, pk)) in c.sends.iter().enumerate() {
                let r = match pk {
                    Pk::Publish(x) if x.qos == 1 => {
                        a += 1;
                        pa.get(a - 1).filter(|y| Some(y.0) == x.pid).map(|y| y.1)
                    }
                    Pk::Subscribe { pid, .. } => {
                        b += 1;
                        sa.get(b - 1).filter(|y| y.0 == *pid).map(|y| y.1)
                    }
                    Pk::Unsub { pid, .. } => {
                        d += 1;
                        ua.get(d - 1).filter(|y| y.0 == *pid).map(|y| y.1)
                    }
                    Pk::PingReq => {
                        e += 1;
                        pi.get(e - 1).copied()
                    }
                    _ => None,
                };
                c.resp[k] = r;
            }
            // when did the peer stop being a well-behaved, connected client
            let mut calm = n;
            let mut m = |x: Option<usize>| {
                if let Some(x) = x {
                    calm = calm.min(x)
                }
            };
            m(c.our_end.map(|x| x.0));
            m(c.shut);
            m(c.eof);
            m(c.reset);
            m(c.undec);
            m(c.raw);
            m(c.disc.map(|x| x.0));
            m(c.disc_recv.map(|x| x.0));
            m(c.connects.get(1).copied());
            m(c.taken);
            m(c.stall.map(|x| x.0));
            m(c.stops.first().map(|x| x.0));
            if let Some((i0, _, _)) = c.connect {
                if c.sends.first().map(|x| x.0) != Some(i0) {
                    m(c.sends.first().map(|x| x.0));
                }
            }
            // silence
            if c.ka > 0 {
                let mut last = c.connack.as_ref().map(|x| h[x.0].t);
                for (i, _, _) in c.sends.iter() {
                    if let (Some(l), Some(k)) = (last, &c.connack) {
                        if *i > k.0 {
                            if h[*i].t > l + c.ka {
                                break;
                            }
                            last = Some(h[*i].t);
                        }
                    }
                }
                if let Some(l) = last {
                    // `ka` after the last packet that was on time
                    if l + c.ka <= end_t {
                        let x = idx_at(l + c.ka);
                        calm = calm.min(x);
                    }
                }
            }
            c.calm = calm;
            c.calm_t = if calm >= n { end_t } else { h[calm].t };
            // the silence bound in time, not in events
            if c.ka > 0 {
                if let Some((k, ..)) = &c.connack {
                    let mut l = h[*k].t;
                    for (i, _, _) in c.sends.iter() {
                        if *i > *k {
                            if h[*i].t > l + c.ka {
                                break;
                            }
                            l = h[*i].t;
                        }
                    }
                    c.calm_t = c.calm_t.min(l + c.ka);
                }
            }
            // when did the connection end for the broker
            let ka_hi = |from: u64| if c.ka > 0 { from + c.ka * 3 / 2 + bound } else { INF };
            let last_send = c
                .sends
                .iter()
                .filter_map(|x| x.1)
                .filter(|x| c.our_end.map(|e| *x < e.0).unwrap_or(true))
                .map(|x| h[x].t)
                .max()
                .unwrap_or(h[c.open].t);
            // what the broker ended reaches the client a delay later
            let lag = 2 * scn.knobs.max_lat();
            let stall_until = c.stall.map(|x| x.1).unwrap_or(0);
            let mut lo = INF;
            let mut hi = INF;
            let mut f = |i: Option<usize>, up: u64| {
                if let Some(i) = i {
                    lo = lo.min(h[i].t);
                    hi = hi.min(up);
                }
            };
            f(c.eof, c.eof.map(|i| h[i].t + bound).unwrap_or(INF));
            f(c.reset, c.reset.map(|i| h[i].t + bound).unwrap_or(INF));
            if let Some((i, how)) = c.our_end {
                let up = match how {
                    HowEnd::HalfOpen => ka_hi(last_send.max(h[i].t)),
                    _ => h[i].t.max(stall_until) + bound,
                };
                f(Some(i), up);
            }
            f(c.shut, c.shut.map(|i| h[i].t.max(stall_until) + bound).unwrap_or(INF));
            if let Some((i, d, _)) = c.disc {
                let half = matches!(c.our_end, Some((_, HowEnd::HalfOpen)));
                f(Some(i), match d {
                    Some(d) if !half && c.raw.is_none() => h[d].t.max(stall_until) + bound,
                    _ => INF,
                });
            }
            f(c.disc_recv.map(|x| x.0), c.disc_recv.map(|x| h[x.0].t + bound).unwrap_or(INF));
            f(c.connects.get(1).copied(), INF);
            f(c.raw, INF);
            f(c.undec, INF);
            for i in [c.eof, c.reset, c.disc_recv.map(|x| x.0)].iter().flatten() {
                lo = lo.min(h[*i].t.saturating_sub(lag));
            }
            if c.ka > 0 && c.connack.is_some() {
                let l = last_send.max(stall_until);
                if l + c.ka * 3 / 2 <= end_t {
                    let up = ka_hi(l);
                    lo = lo.min(l + c.ka);
                    hi = hi.min(up);
                }
                if c.calm_t < end_t {
                    lo = lo.min(c.calm_t);
                }
            }
            if let Some(s) = c.stops.first() {
                lo = lo.min(h[s.0].t);
            }
            c.end_lo = lo;
            c.end_hi = hi;
        }
        // takeover ends the old connection
        for p in 0..cs.len() {
            if let Some(t) = cs[p].taken {
                cs[p].end_lo = cs[p].end_lo.min(h[t].t);
            }
            if let Some(nx) = cs[p].next {
                let t = h[cs[nx].connack.as_ref().unwrap().0].t;
                cs[p].end_hi = cs[p].end_hi.min(t + bound);
            }
        }
        // publishes and wills
        let mut pubs = vec![];
        let mut by_payload = HashMap::new();
        let mut subs: BTreeMap<(String, String), Vec<SubEv>> = BTreeMap::new();
        for (p, c) in cs.iter().enumerate() {
            // response to a later request proves that an earlier one was finished
            let mut later: Option<usize> = None;
            let mut hb = vec![None; c.sends.len()];
            for k in (0..c.sends.len()).rev() {
                hb[k] = later;
                if let Some(r) = c.resp[k] {
                    later = Some(later.map_or(r, |l| l.min(r)));
                }
            }
            for (k, (i, _, pk)) in c.sends.iter().enumerate() {
                match pk {
                    Pk::Publish(x) => {
                        let handled = match (hb[k], c.resp[k]) {
                            (Some(r), Some(a)) => Some(h[r].t.min(h[a].t + bound)),
                            (Some(r), None) => Some(h[r].t),
                            (None, Some(a)) => Some(h[a].t + bound),
                            _ => None,
                        };
                        if let Some(id) = pid_of(&x.payload) {
                            by_payload.insert(id, pubs.len());
                        }
                        pubs.push(Pub {
                            c: p,
                            pos: k,
                            i: *i,
                            topic: x.topic.clone(),
                            qos: x.qos,
                            payload: x.payload.clone(),
                            props: x.props.clone(),
                            acked: c.resp[k],
                            handled,
                            will: false,
                        });
                    }
                    Pk::Connect(x) => {
                        if let Some(w) = &x.will {
                            if let Some(id) = pid_of(&w.payload) {
                                by_payload.insert(id, pubs.len());
                            }
                            pubs.push(Pub {
                                c: p,
                                pos: k,
                                i: *i,
                                topic: w.topic.clone(),
                                qos: w.qos,
                                payload: w.payload.clone(),
                                props: w.props.clone(),
                                acked: None,
                                handled: None,
                                will: true,
                            });
                        }
                    }
                    Pk::Subscribe { filters, .. } => {
                        let codes = c.resp[k].and_then(|r| match &h[r].k {
                            K::Recv(Pk::SubAck { codes, .. }) => Some(codes.clone()),
                            _ => None,
                        });
                        for (n, (f, o)) in filters.iter().enumerate() {
                            let ok = codes.as_ref().map(|v| v.get(n).copied().unwrap_or(0x80) < 0x80).unwrap_or(true);
                            subs.entry((c.cid.clone(), f.clone())).or_default().push(SubEv {
                                c: p,
                                i: *i,
                                ack: c.resp[k],
                                ok,
                                sub: Some(*o),
                            });
                        }
                    }
                    Pk::Unsub { filters, .. } => {
                        for f in filters {
                            subs.entry((c.cid.clone(), f.clone())).or_default().push(SubEv {
                                c: p,
                                i: *i,
                                ack: c.resp[k],
                                ok: true,
                                sub: None,
                            });
                        }
                    }
                    _ => {}
                }
            }
        }
        for v in subs.values_mut() {
            v.sort_by_key(|e| e.i);
        }
        H { h, scn, out, cs, pubs, by_payload, subs, racy, bound, end_t, ids }
    }

    fn t(&self, i: usize) -> u64 {
        if i >= self.h.len() {
            self.end_t
        } else {
            self.h[i].t
        }
    }
    fn name(&self, p: usize) -> String {
        let c = &self.cs[p];
        format!("connection {} (actor {}, id '{}')", c.idx, c.actor, c.cid)
    }
    /// was the event sent on a connection that had visibly been replaced, or before/after its session
    fn void(&self, e: &SubEv) -> bool {
        let c = &self.cs[e.c];
        if !matches!(&c.connack, Some((_, _, 0, _))) {
            // never accepted (or not known to be): cannot have had an effect if refused or sent before CONNECT
            if c.connack.is_some() || c.connect.as_ref().map(|x| x.0 > e.i).unwrap_or(true) {
                return true;
            }
        }
        if let Some(x) = &c.connect {
            if e.i < x.0 {
                return true;
            }
        }
        if let Some(d) = c.disc {
            if e.i > d.0 {
                return true;
            }
        }
        if let (Some(n), false) = (c.next, self.racy.contains(&c.cid)) {
            if e.i > self.cs[n].connack.as_ref().unwrap().0 {
                return true;
            }
        }
        false
    }
    /// options a subscription of connection `p`'s session may have had somewhere between the events `a` and `b`
    fn possible(&self, p: usize, filter: &str, a: usize, b: usize) -> Vec<u8> {
        let c = &self.cs[p];
        let Some(v) = self.subs.get(&(c.cid.clone(), filter.to_string())) else { return vec![] };
        let racy = self.racy.contains(&c.cid);
        let mut cur: Vec<u8> = vec![];
        // requests of two connections of the session that overlap may be handled in either order
        let either = |e: &SubEv| {
            v.iter().filter(|o| o.c != e.c && o.i < e.i && o.ack.map(|x| x > e.i).unwrap_or(true) && (racy || self.cs[o.c].era == c.era)).filter_map(|o| o.sub).collect::<Vec<u8>>()
        };
        for e in v {
            if e.i >= b || !e.ok || self.void(e) {
                continue;
            }
            if !racy && self.cs[e.c].era != c.era {
                continue;
            }
            let settled = e.ack.map(|x| x < a).unwrap_or(false) && !racy;
            match e.sub {
                Some(o) => {
                    if settled {
                        cur = either(e);
                    }
                    cur.push(o);
                }
                None => {
                    if settled {
                        cur = either(e);
                    }
                }
            }
        }
        cur
    }
    /// options of the subscription if it was certainly in force, unchanged, from event `a` to event `b`
    fn definite(&self, p: usize, filter: &str, a: usize, b: usize) -> Option<(u8, bool)> {
        let c = &self.cs[p];
        if self.racy.contains(&c.cid) {
            return None;
        }
        let v = self.subs.get(&(c.cid.clone(), filter.to_string()))?;
        let mut cur: Option<(u8, bool)> = None;
        for e in v {
            if e.i >= b || self.void(e) {
                continue;
            }
            if self.cs[e.c].era != c.era {
                continue;
            }
            let settled = e.ack.map(|x| x < a).unwrap_or(false);
            if !settled || !e.ok {
                return None;
            }
            if v.iter().any(|o| o.c != e.c && o.i < e.i && self.cs[o.c].era == c.era && o.ack.map(|x| x > e.i).unwrap_or(true)) {
                return None;
            }
            cur = e.sub.map(|o| (o, e.c != p));
        }
        cur
    }
    fn filters_of(&self, cid: &str) -> Vec<String> {
        self.subs
            .range((cid.to_string(), String::new())..)
            .take_while(|((c, _), _)| c == cid)
            .map(|((_, f), _)| f.clone())
            .collect()
    }
    fn idx_at(&self, t: u64) -> usize {
        self.h.partition_point(|e| e.t <= t)
    }
    /// how many messages may have been queued for connection `p` altogether
    fn routed_max(&self, p: usize) -> usize {
        let c = &self.cs[p];
        let fs = self.filters_of(&c.cid);
        let mut n = 0;
        let from = c.connect.as_ref().map(|x| self.t(x.0)).unwrap_or(0);
        for q in &self.pubs {
            // before this connection, or after it
            if !q.will && (q.handled.map(|t| t < from).unwrap_or(false) || self.t(q.i) > c.end_hi) {
                continue;
            }
            for f in &fs {
                if matches(f, &q.topic) {
                    n += 1;
                }
            }
        }
        n
    }
    /// the most messages routed to `p` that can be waiting at once
    fn overflow_possible(&self, p: usize) -> bool {
        self.routed_max(p) > self.scn.cfg.channel
    }
    fn others_raw(&self, p: usize) -> bool {
        self.cs.iter().enumerate().any(|(q, c)| q != p && c.raw.is_some())
    }
    /// the maximum session expiry intervals that can have been in force between two events
    fn max_expiries(&self, from: usize, to: usize) -> Vec<u32> {
        let cap = |x: u64| x.min(u32::MAX as u64) as u32;
        let mut v = vec![cap(self.scn.cfg.expiry as u64 + self.scn.cfg.exp_extra)];
        for (i, e) in self.h.iter().enumerate().take(to) {
            match e.k {
                K::SetExpiry(x) => v.push(cap(x)),
                K::SetExpiryDone(j) if i < from => {
                    let K::SetExpiry(x) = self.h[j].k else { unreachable!() };
                    v = vec![cap(x)];
                }
                _ => {}
            }
        }
        v
    }
    fn accept_faults(&self) -> bool {
        self.h.iter().any(|e| matches!(e.k, K::AcceptErr(_)))
    }
    fn stalled_others(&self, p: usize) -> bool {
        self.cs.iter().enumerate().any(|(q, c)| q != p && (!c.stops.is_empty() || matches!(c.our_end, Some((_, HowEnd::HalfOpen)))))
    }
    fn takeovers(&self) -> bool {
        self.cs.iter().any(|c| c.taken.map(|t| self.t(t) <= c.end_hi).unwrap_or(false))
    }
    /// properties a service failure counts against, besides the first
    fn blame(&self, p: usize, first: &[&'static str]) -> Vec<&'static str> {
        let mut v: Vec<&'static str> = first.to_vec();
        let mut add = |x: &'static str, b: bool| {
            if b && !v.contains(&x) {
                v.push(x)
            }
        };
        add("B12", self.stalled_others(p));
        add("B13", self.others_raw(p));
        add("B14", self.accept_faults());
        add("B06", self.takeovers());
        add("B18", self.rmax(p) > 0);
        v
    }
    /// receive maximum the peer asked for; 0: none
    fn rmax(&self, p: usize) -> usize {
        let Some((_, _, k)) = &self.cs[p].connect else { return 0 };
        k.props
            .iter()
            .find_map(|x| match x {
                (0x21, PV::U16(n)) => Some(*n as usize),
                _ => None,
            })
            .unwrap_or(0)
    }
    /// the peer had room for more deliveries long enough before `p` was disturbed
    fn room(&self, p: usize) -> bool {
        let n = self.rmax(p);
        if n == 0 {
            return true;
        }
        let c = &self.cs[p];
        let mut held: BTreeSet<u16> = BTreeSet::new();
        let mut last = 0;
        for (i, pk, done) in self.flow_events(p) {
            if self.t(i) > c.calm_t {
                break;
            }
            last = last.max(self.t(i));
            match pk {
                Pk::Publish(x) => {
                    held.insert(x.pid.unwrap_or(0));
                }
                Pk::PubAck { pid, .. } if done => {
                    held.remove(pid);
                }
                _ => {}
            }
        }
        held.len() < n && c.calm_t.min(self.end_t) > last + self.bound
    }
    /// QoS 1 deliveries and acknowledgements of a connection: event, packet, written completely
    fn flow_events(&self, p: usize) -> Vec<(usize, &Pk, bool)> {
        let c = &self.cs[p];
        let mut ev: Vec<(usize, &Pk, bool)> = c.recvs.iter().filter(|x| matches!(&x.1, Pk::Publish(y) if y.qos > 0)).map(|x| (x.0, &x.1, true)).collect();
        ev.extend(c.sends.iter().filter(|x| matches!(x.2, Pk::PubAck { .. })).map(|x| (x.0, &x.2, x.1.is_some())));
        ev.sort_by_key(|x| x.0);
        ev
    }
    // ------------------------------------------------------------ B18
    fn flow(&self, v: &mut Vec<Violation>) {
        for (p, c) in self.cs.iter().enumerate() {
            let n = self.rmax(p);
            if n == 0 || !c.est() || c.raw.is_some() || c.connects.len() > 1 {
                continue;
            }
            let ev = self.flow_events(p);
            // an acknowledgement on its way when the delivery was sent does not count
            let trip = 2 * self.scn.knobs.latency_us as u64 * 1000;
            let mut out: BTreeMap<u16, usize> = BTreeMap::new();
            let mut next_ack = 0;
            let acks: Vec<(usize, u16)> = ev
                .iter()
                .filter_map(|x| match x.1 {
                    Pk::PubAck { pid, .. } => Some((x.0, *pid)),
                    _ => None,
                })
                .collect();
            for (i, pk, _) in &ev {
                let Pk::Publish(x) = pk else { continue };
                while next_ack < acks.len() && acks[next_ack].0 < *i && self.t(acks[next_ack].0) + trip <= self.t(*i) {
                    out.remove(&acks[next_ack].1);
                    next_ack += 1;
                }
                out.insert(x.pid.unwrap_or(0), *i);
                if out.len() > n {
                    viol(v, "B18", "exceeded", format!("{} with receive maximum {n} received {} while {} earlier deliveries were not acknowledged", self.name(p), pk.short(), out.len() - 1));
                    break;
                }
            }
        }
    }

    pub fn check(&self) -> Vec<Violation> {
        let mut v = vec![];
        self.ended(&mut v);
        self.service(&mut v);
        self.acks(&mut v);
        self.identifiers(&mut v);
        if self.scn.tag == "long" {
            return v;
        }
        if self.scn.tag == "wrap" {
            self.wrapped(&mut v);
            return v;
        }
        self.deliveries(&mut v);
        self.order(&mut v);
        self.redelivery(&mut v);
        self.flow(&mut v);
        self.takeover(&mut v);
        self.wills(&mut v);
        self.sessions(&mut v);
        self.limit(&mut v);
        self.keepalive(&mut v);
        self.slow(&mut v);
        self.protocol(&mut v);
        self.ends(&mut v);
        v
    }

    /// One publisher, one subscriber with one subscription, too many messages for the general checks: what was not
    /// acknowledged comes back on the next connection, in order, before anything new.
    fn wrapped(&self, v: &mut Vec<Violation>) {
        let Some(ids) = self.ids.get("sub") else { return };
        // message -> identifier
        let mut open: BTreeMap<u64, u16> = BTreeMap::new();
        let mut unsure: BTreeSet<u64> = BTreeSet::new();
        let mut top = 0;
        for &p in ids {
            let c = &self.cs[p];
            if !c.est() {
                continue;
            }
            let acks: BTreeMap<usize, u16> = c.sends.iter().filter_map(|(i, _, k)| if let Pk::PubAck { pid, .. } = k { Some((*i, *pid)) } else { None }).collect();
            let end = c.our_end.map(|x| self.t(x.0)).unwrap_or(INF);
            let mut owed = open.clone();
            let mut last = 0;
            let mut fresh: Option<u64> = None;
            let mut by_pid: HashMap<u16, u64> = HashMap::new();
            let mut ev: Vec<(usize, Option<&PublishP>, u16)> = acks.iter().map(|(i, a)| (*i, None, *a)).collect();
            ev.extend(c.recvs.iter().filter_map(|(i, k)| if let Pk::Publish(x) = k { Some((*i, Some(x), x.pid.unwrap_or(0))) } else { None }));
            ev.sort_by_key(|x| x.0);
            for (i, x, pid) in ev {
                let Some(x) = x else {
                    if let Some(n) = by_pid.get(&pid) {
                        open.remove(n);
                        if self.t(i) + 200 * MS > end {
                            unsure.insert(*n);
                        }
                    }
                    continue;
                };
                let Some(n) = pid_of(&x.payload) else { continue };
                by_pid.insert(pid, n);
                if n <= last {
                    for q in if n <= top { ["B04", "B02"] } else { ["B02", "B01"] } {
                        viol(v, q, "order", format!("{}: m{n:08} received after m{last:08}", self.name(p)));
                    }
                }
                last = n;
                if n > top {
                    fresh = fresh.or(Some(n));
                    if let Some((m, _)) = owed.iter().next() {
                        viol(v, "B04", "after-new", format!("{}: m{n:08} is new and was received before m{m:08}, which is to be redelivered", self.name(p)));
                        owed.clear();
                    }
                } else {
                    match owed.remove(&n) {
                        Some(id) => {
                            if !x.dup {
                                viol(v, "B04", "dup-clear", format!("{}: m{n:08} redelivered without DUP", self.name(p)));
                            }
                            if id != pid {
                                viol(v, "B04", "new-id", format!("{}: m{n:08} redelivered with identifier {pid} instead of {id}", self.name(p)));
                            }
                        }
                        None if !unsure.contains(&n) => viol(v, "B04", "acknowledged-again", format!("{}: m{n:08} received again although its PUBACK had been processed", self.name(p))),
                        None => {}
                    }
                }
                open.insert(n, pid);
                top = top.max(n);
            }
            if let Some((m, _)) = owed.iter().next() {
                if end > self.t(c.connack.as_ref().unwrap().0) + 900 * MS {
                    viol(v, "B04", "lost", format!("{}: {} messages are not redelivered, the first is m{m:08}", self.name(p), owed.len()));
                }
            }
        }
    }

    // ------------------------------------------------------------ the run itself
    fn ended(&self, v: &mut Vec<Violation>) {
        use tokio::sim::End;
        match &self.out.end {
            End::Done => {}
            End::Livelock(l) => viol(v, "B16", "livelock", format!("task '{l}' keeps running although nothing happens")),
            End::StepLimit => viol(v, "B16", "steplimit", "step limit reached: a task keeps working".to_string()),
            e => viol(v, "HARNESS", "end", format!("{e:?}")),
        }
        if self.out.stats.spins > 0 {
            viol(
                v,
                "B16",
                "spin",
                format!("tasks yield in a loop while nothing happens: {:?}", self.out.stats.spin_tasks),
            );
        }
        if let Some(p) = self.out.idle_polls {
            let live = self.out.open_at_end.iter().filter(|x| x.1).count() as u64;
            if p > 4 + 4 * live {
                viol(v, "B16", "idle-polls", format!("broker tasks were polled {p} times in 0.9 s in which no packet arrived and no timer was due"));
            }
        }
        for p in &self.out.stats.panics {
            viol(v, "B13", "panic", p.clone());
        }
        for (p, c) in self.cs.iter().enumerate() {
            if let Some(u) = c.undec {
                if let K::Undecodable(e) = &self.h[u].k {
                    let first = if c.connack.is_none() { "B08" } else { "B12" };
                    for x in ["B01", "B03", first] {
                        viol(v, x, "undecodable", format!("{} received bytes that are not a valid packet: {e}", self.name(p)));
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------ every request is answered in time
    fn service(&self, v: &mut Vec<Violation>) {
        for (p, c) in self.cs.iter().enumerate() {
            if let Some((i, Some(d), _)) = &c.connect {
                if c.sends[0].0 == *i && c.raw.is_none() {
                    let t = self.t(*d);
                    let answered = c.connack.is_some() || c.eof.is_some() || c.reset.is_some();
                    let by = c.connack.as_ref().map(|x| self.t(x.0)).unwrap_or(INF);
                    let quiet_until = [
                        c.our_end.map(|x| x.0),
                        c.stops.first().map(|x| x.0),
                        c.stall.map(|x| x.0),
                        c.shut,
                        c.connects.get(1).copied(),
                        c.disc.map(|x| x.0),
                        c.taken,
                    ]
                    .iter()
                    .flatten()
                    .map(|x| self.t(*x))
                    .min()
                    .unwrap_or(self.end_t);
                    let taken = self.ids.get(&c.cid).map(|v| v.iter().any(|q| *q != p && self.cs[*q].connect.as_ref().unwrap().0 < *i && self.cs[*q].end_hi > t)).unwrap_or(false);
                    if !answered || by > t + self.bound {
                        if quiet_until > t + self.bound {
                            let mut b = self.blame(p, &["B14", "B03"]);
                            if taken {
                                b.push("B06");
                            }
                            for x in b {
                                viol(v, x, "connect-unanswered", format!("{}: CONNECT sent at {:.3}s has no CONNACK within {:.1}s", self.name(p), t as f64 / 1e9, self.bound as f64 / 1e9));
                            }
                        }
                    } else if c.connack.is_none() && quiet_until > t + self.bound {
                        for x in self.blame(p, &["B14", "B03"]) {
                            viol(v, x, "connect-dropped", format!("{}: closed without a CONNACK", self.name(p)));
                        }
                    }
                }
            }
            if !c.est() {
                continue;
            }
            for (k, (_, d, pk)) in c.sends.iter().enumerate() {
                let wants = match pk {
                    Pk::Subscribe { .. } | Pk::Unsub { .. } | Pk::PingReq => true,
                    Pk::Publish(x) => x.qos == 1,
                    _ => false,
                };
                let Some(d) = d else { continue };
                if !wants || *d > c.calm {
                    continue;
                }
                let t = self.t(*d);
                let late = match c.resp[k] {
                    Some(r) => self.t(r) > t + self.bound,
                    None => true,
                };
                if late && c.calm_t > t + self.bound {
                    for x in self.blame(p, &["B03"]) {
                        viol(v, x, "request-unanswered", format!("{}: {} sent at {:.3}s not answered within {:.1}s", self.name(p), pk.short(), t as f64 / 1e9, self.bound as f64 / 1e9));
                    }
                }
            }
            // closed although it did nothing wrong
            let gone = [c.eof, c.reset, c.disc_recv.map(|x| x.0)].iter().flatten().min().copied();
            if let Some(g) = gone {
                let early = [
                    c.our_end.map(|x| x.0),
                    c.shut,
                    c.undec,
                    c.raw,
                    c.disc.map(|x| x.0),
                    c.connects.get(1).copied(),
                    c.taken,
                    c.stall.map(|x| x.0),
                    c.stops.first().map(|x| x.0),
                ]
                .iter()
                .flatten()
                .min()
                .copied()
                .unwrap_or(usize::MAX);
                let silent = self.silent_before(p, self.t(g));
                let first_ok = c.connect.as_ref().map(|x| c.sends[0].0 == x.0).unwrap_or(false);
                if early > g && !silent && first_ok && self.h[g].conn == c.idx {
                    let reason = c.disc_recv.map(|x| x.1);
                    if reason == Some(0x97) || self.overflow_possible(p) {
                        if !self.overflow_possible(p) {
                            viol(v, "B12", "falsely-slow", format!("{} was disconnected as slow (reason {:?}) although at most {} messages were ever due to it and its queue holds {}", self.name(p), reason, self.routed_max(p), self.scn.cfg.channel));
                        }
                    } else {
                        let mut b = self.blame(p, &["B11"]);
                        match reason {
                            Some(0x8e) => b.push("B06"),
                            _ => {}
                        }
                        if c.resp.iter().zip(&c.sends).any(|(r, s)| r.is_none() && matches!(s.2, Pk::Subscribe { .. } | Pk::Unsub { .. } | Pk::PingReq)) {
                            b.push("B03");
                        }
                        if c.prev.is_some() && !b.contains(&"B06") {
                            b.push("B06");
                        }
                        for x in b {
                            viol(v, x, "unexpected-close", format!("{}: the broker ended it at {:.3}s (DISCONNECT reason {:?}) although the client sent valid packets and kept its keep-alive", self.name(p), self.t(g) as f64 / 1e9, reason));
                        }
                    }
                }
            }
        }
    }
    /// was there a gap longer than the keep-alive (as the broker may see it) before `t`
    fn silent_before(&self, p: usize, t: u64) -> bool {
        let c = &self.cs[p];
        if c.ka == 0 {
            return false;
        }
        let Some((k, ..)) = &c.connack else { return true };
        // the broker's clock may start when it wrote the CONNACK
        let mut l = c.connect.as_ref().map(|x| self.t(x.0)).unwrap_or(self.t(*k));
        let smooth = c.stops.is_empty() && c.stall.is_none() && self.scn.knobs.timer_late_us == 0;
        let lim = if smooth { c.ka * 3 / 2 } else { c.ka };
        let lat = if smooth { 2 * self.scn.knobs.max_lat() + S / 20 } else { 0 };
        for (i, d, _) in &c.sends {
            let s = self.t(*i);
            if s > t {
                break;
            }
            let Some(d) = d else { return true };
            let in_by = if smooth { self.t(*d) + lat } else { s };
            if in_by > l + lim {
                return true;
            }
            l = s;
        }
        t + if smooth { S / 1000 } else { 0 } > l + lim
    }

    // ------------------------------------------------------------ B03
    fn acks(&self, v: &mut Vec<Violation>) {
        for (p, c) in self.cs.iter().enumerate() {
            let stop = c.raw.unwrap_or(usize::MAX);
            let mut pubs: Vec<(usize, u16)> = vec![];
            let mut subs: Vec<(usize, u16, usize, usize)> = vec![];
            let mut uns: Vec<(usize, u16, usize, usize)> = vec![];
            let mut pings: Vec<usize> = vec![];
            let acc = c.connack.as_ref().map(|x| x.2 == 0).unwrap_or(false);
            for (k, (i, _, pk)) in c.sends.iter().enumerate() {
                match pk {
                    Pk::Publish(x) if x.qos == 1 => pubs.push((*i, x.pid.unwrap())),
                    Pk::Subscribe { pid, filters, .. } => subs.push((*i, *pid, filters.len(), k)),
                    Pk::Unsub { pid, filters, .. } => uns.push((*i, *pid, filters.len(), k)),
                    Pk::PingReq => pings.push(*i),
                    _ => {}
                }
            }
            let (mut a, mut s, mut u, mut g, mut ca) = (0, 0, 0, 0, 0);
            for (i, pk) in &c.recvs {
                if *i > stop {
                    break;
                }
                let mut bad = |cl: &str, d: String| viol(v, "B03", cl, format!("{}: {d}", self.name(p)));
                match pk {
                    Pk::PubAck { pid, .. } => {
                        match pubs.get(a) {
                            Some((j, x)) if j < i && x == pid => {}
                            e => bad("puback", format!("PUBACK {pid} received, expected {e:?}")),
                        }
                        a += 1;
                    }
                    Pk::SubAck { pid, codes, .. } => {
                        match subs.get(s) {
                            Some((j, x, n, k)) if j < i && x == pid && codes.len() == *n => {
                                if let Pk::Subscribe { filters, .. } = &c.sends[*k].2 {
                                    for (q, (f, o)) in filters.iter().enumerate() {
                                        if codes[q] < 0x80 && codes[q] != o & 3 {
                                            bad("suback-code", format!("filter '{f}' requested QoS {} granted {}", o & 3, codes[q]));
                                        }
                                        if codes[q] >= 0x80 && good_filter(f) {
                                            bad("suback-code", format!("filter '{f}' refused with {:#x}", codes[q]));
                                        }
                                    }
                                }
                            }
                            e => bad("suback", format!("SUBACK {pid} with {} codes received, expected {e:?}", codes.len())),
                        }
                        s += 1;
                    }
                    Pk::UnsubAck { pid, codes, .. } => {
                        match uns.get(u) {
                            Some((j, x, n, k)) if j < i && x == pid && codes.len() == *n => {
                                if let Pk::Unsub { filters, .. } = &c.sends[*k].2 {
                                    for (q, f) in filters.iter().enumerate() {
                                        // state just before this request
                                        if filters[..q].contains(f) {
                                            continue;
                                        }
                                        let d = self.known(p, f, *j);
                                        match d {
                                            _ if codes[q] != 0 && codes[q] != 0x11 && good_filter(f) => bad("unsuback-code", format!("filter '{f}': UNSUBACK says {:#x}", codes[q])),
                                            Some(true) if codes[q] != 0 => bad("unsuback-code", format!("filter '{f}' was subscribed but UNSUBACK says {:#x}", codes[q])),
                                            Some(false) if codes[q] == 0 => bad("unsuback-code", format!("filter '{f}' was not subscribed but UNSUBACK says success")),
                                            _ => {}
                                        }
                                    }
                                }
                            }
                            e => bad("unsuback", format!("UNSUBACK {pid} with {} codes received, expected {e:?}", codes.len())),
                        }
                        u += 1;
                    }
                    Pk::PingResp => {
                        match pings.get(g) {
                            Some(j) if j < i => {}
                            _ => bad("pingresp", "PINGRESP without PINGREQ".to_string()),
                        }
                        g += 1;
                    }
                    Pk::ConnAck { .. } => {
                        ca += 1;
                        if ca > 1 {
                            bad("connack", "second CONNACK".to_string());
                        }
                    }
                    Pk::PubRec { .. } | Pk::PubComp { .. } => {
                        // acknowledgement of a QoS 2 publish, if any was sent
                        if !c.sends.iter().any(|(j, _, q)| j < i && matches!(q, Pk::Publish(x) if x.qos == 2)) {
                            bad("ack-kind", format!("unexpected {}", pk.short()));
                        }
                    }
                    Pk::Publish(_) | Pk::Disconnect { .. } => {}
                    Pk::PubRel { .. } => {}
                    k => bad("kind", format!("unexpected packet {}", k.short())),
                }
                let _ = acc;
            }
        }
    }
    /// is the filter subscribed when the request at event `i` of connection `p` is processed; None: unknown
    fn known(&self, p: usize, f: &str, i: usize) -> Option<bool> {
        let c = &self.cs[p];
        if self.racy.contains(&c.cid) || !c.est() {
            return None;
        }
        let mut st = Some(false);
        if let Some(v) = self.subs.get(&(c.cid.clone(), f.to_string())) {
            for e in v {
                if e.i >= i || self.void(e) || self.cs[e.c].era != c.era {
                    continue;
                }
                // earlier requests on this very connection are processed before
                if e.c == p || e.ack.map(|x| x < c.connect.as_ref().unwrap().0).unwrap_or(false) {
                    st = if e.ok { Some(e.sub.is_some()) } else { None };
                } else {
                    st = None;
                }
            }
        }
        st
    }

    // ------------------------------------------------------------ B05
    fn identifiers(&self, v: &mut Vec<Violation>) {
        // per session: identifier -> (message, copy count)
        for (cid, conns) in &self.ids {
            if self.racy.contains(cid) {
                continue;
            }
            let mut inuse: HashMap<u16, (u64, usize)> = HashMap::new();
            let mut era = usize::MAX;
            for &p in conns {
                let c = &self.cs[p];
                if !c.est() {
                    continue;
                }
                if c.era != era {
                    inuse.clear();
                    era = c.era;
                }
                // merge our acknowledgements and deliveries in order
                let mut a = c.sends.iter().filter(|s| matches!(s.2, Pk::PubAck { .. })).peekable();
                for (i, pk) in &c.recvs {
                    while let Some((j, _, Pk::PubAck { pid, .. })) = a.peek() {
                        if j < i {
                            inuse.remove(pid);
                            a.next();
                        } else {
                            break;
                        }
                    }
                    if let Pk::Publish(x) = pk {
                        if x.qos == 0 {
                            if x.pid.is_some() {
                                viol(v, "B05", "qos0-id", format!("{}: QoS 0 publish with identifier", self.name(p)));
                            }
                            continue;
                        }
                        let m = pid_of(&x.payload).unwrap_or(u64::MAX);
                        match x.pid {
                            None | Some(0) => viol(v, "B05", "zero-id", format!("{}: {} has no valid packet identifier", self.name(p), pk.short())),
                            Some(id) => {
                                if let Some((o, q)) = inuse.get(&id) {
                                    if *o != m || *q == p {
                                        viol(v, "B05", "id-in-use", format!("{}: {} uses identifier {id}, which still awaits the PUBACK of message m{o:08} (received on connection {})", self.name(p), pk.short(), self.cs[*q].idx));
                                    }
                                }
                                inuse.insert(id, (m, p));
                            }
                        }
                    }
                }
                for (_, _, pk) in a {
                    if let Pk::PubAck { pid, .. } = pk {
                        inuse.remove(pid);
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------ B01 (with B06, B08, B09)
    fn source(&self, x: &PublishP) -> Option<usize> {
        pid_of(&x.payload).and_then(|id| self.by_payload.get(&id).copied())
    }
    /// first event of the session `p` belongs to
    fn era_start(&self, p: usize) -> usize {
        let mut q = p;
        while let Some(r) = self.cs[q].prev {
            if self.cs[r].era != self.cs[p].era {
                break;
            }
            q = r;
        }
        self.cs[q].connect.as_ref().map(|x| x.0).unwrap_or(0)
    }
    /// may the raw bytes of this connection contain a packet with this first byte
    fn raw_may(&self, p: usize, first: u8) -> bool {
        let c = &self.cs[p];
        c.raw.is_some() && !self.raw_dead(p) && self.h.iter().any(|e| e.conn == c.idx && matches!(&e.k, K::Raw(b) if b.iter().any(|x| x & 0xf0 == first)))
    }
    fn pub_void(&self, q: &Pub) -> Option<&'static str> {
        let c = &self.cs[q.c];
        match &c.connect {
            None if self.raw_may(q.c, 0x10) => return None,
            None => return Some("was sent without CONNECT"),
            Some(x) if q.i < x.0 => return Some("was sent before CONNECT"),
            _ => {}
        }
        if matches!(c.connack, Some((_, _, r, _)) if r != 0) {
            return Some("was sent on a refused connection");
        }
        if let Some(d) = c.disc {
            if q.i > d.0 {
                return Some("was sent after DISCONNECT");
            }
        }
        if let Some(d) = c.connects.get(1) {
            if q.i > *d {
                return Some("was sent after a second CONNECT");
            }
        }
        None
    }
    fn deliveries(&self, v: &mut Vec<Violation>) {
        for (p, c) in self.cs.iter().enumerate() {
            let mut count: BTreeMap<usize, Vec<(usize, u8, bool)>> = BTreeMap::new();
            for (i, pk) in &c.recvs {
                let Pk::Publish(x) = pk else { continue };
                if !c.est() {
                    viol(v, "B15", "delivery-without-session", format!("{} received {}", self.name(p), pk.short()));
                    continue;
                }
                let Some(q) = self.source(x) else {
                    // mutated packets may well be valid messages
                    if pid_of(&x.payload).unwrap_or(0) == 0 && (0..self.cs.len()).any(|p| self.raw_may(p, 0x30) || self.raw_may(p, 0x10)) {
                        continue;
                    }
                    viol(v, "B01", "unknown-message", format!("{} received {} that nobody published", self.name(p), pk.short()));
                    continue;
                };
                let m = &self.pubs[q];
                if m.topic != x.topic || m.payload != x.payload {
                    for w in if m.will { &["B01", "B07"][..] } else { &["B01"][..] } {
                        viol(v, w, "altered", format!("{} received {} but topic '{}' with {} bytes was published", self.name(p), pk.short(), m.topic, m.payload.len()));
                    }
                }
                let life = |p: &Props| p.iter().find_map(|x| if let (0x02, PV::U32(n)) = x { Some(*n) } else { None });
                let late = match (life(&m.props), life(&x.props)) {
                    (Some(a), Some(b)) => b > a,
                    (a, b) => a != b,
                };
                if owed_props(&m.props) != owed_props(&x.props) || late || x.props.iter().any(|x| matches!(x.0, 0x18 | 0x23)) {
                    for w in if m.will { &["B01", "B07"][..] } else { &["B01"][..] } {
                        viol(v, w, "properties", format!("{} received {} with properties {:?}, published with {:?}", self.name(p), pk.short(), x.props, m.props));
                    }
                }
                if x.qos == 0 && x.pid.is_some() {
                    viol(v, "B01", "qos0-id", format!("{} received {}", self.name(p), pk.short()));
                }
                if !m.will {
                    if let Some(w) = self.pub_void(m) {
                        if !w.contains("refused") || true {
                            viol(v, "B15", "void-publish", format!("{} received {} which {w} on {}", self.name(p), pk.short(), self.name(m.c)));
                        }
                    }
                    // published on a connection that had been replaced long before
                }
                count.entry(q).or_default().push((*i, x.qos, x.dup));
            }
            if !c.est() {
                continue;
            }
            let fs = self.filters_of(&c.cid);
            let est = self.era_start(p);
            let room = self.room(p);
            for (q, m) in self.pubs.iter().enumerate() {
                let got = count.get(&q).cloned().unwrap_or_default();
                let mf: Vec<&String> = fs.iter().filter(|f| matches(f, &m.topic)).collect();
                if got.is_empty() && mf.is_empty() {
                    continue;
                }
                let own = !m.will && self.cs[m.c].cid == c.cid;
                // ---- nothing that was not asked for
                if let Some(last) = got.last() {
                    let lo = if m.will { m.i } else { m.i };
                    let mut poss: Vec<Vec<u8>> = vec![];
                    for f in &mf {
                        let o: Vec<u8> = self
                            .possible(p, f, lo, last.0)
                            .into_iter()
                            .filter(|o| !(o & 4 != 0 && own))
                            .collect();
                        if !o.is_empty() {
                            poss.push(o);
                        }
                    }
                    let handled_i = m.handled.map(|t| self.idx_at(t)).unwrap_or(usize::MAX);
                    let old = !m.will && handled_i < est && !self.racy.contains(&c.cid);
                    if poss.is_empty() || old {
                        let mut who = vec![];
                        let sub_elsewhere = mf.iter().any(|f| {
                            self.subs.get(&(c.cid.clone(), f.to_string())).map(|v| v.iter().any(|e| e.sub.is_some() && e.i < last.0 && self.void(e) && self.cs[e.c].est() && self.cs[e.c].disc.is_none())).unwrap_or(false)
                        });
                        let earlier = mf.iter().any(|f| {
                            self.subs.get(&(c.cid.clone(), f.to_string())).map(|v| v.iter().any(|e| e.sub.is_some() && self.cs[e.c].era < c.era)).unwrap_or(false)
                        });
                        let pre = mf.iter().any(|f| {
                            self.subs.get(&(c.cid.clone(), f.to_string())).map(|v| v.iter().any(|e| e.sub.is_some() && self.void(e) && (!self.cs[e.c].est() || self.cs[e.c].disc.is_some() || self.cs[e.c].connect.as_ref().map(|x| e.i < x.0).unwrap_or(true)))).unwrap_or(false)
                        });
                        if sub_elsewhere {
                            who.push("B06");
                        }
                        if earlier || old {
                            who.push("B08");
                            who.push("B09");
                        }
                        if pre {
                            who.push("B15");
                        }
                        if !old && (who.is_empty() || !earlier) {
                            who.push("B01");
                        }
                        for w in who {
                            viol(v, w, "not-subscribed", format!("{} received {} ('{}') without a subscription of its session covering it{}", self.name(p), String::from_utf8_lossy(&m.payload[..10.min(m.payload.len())]), m.topic, if old { " (published before the session began)" } else { "" }));
                        }
                    } else {
                        if got.len() > poss.len() {
                            for w in ["B02", "B01"] {
                                viol(v, w, "duplicate", format!("{} received message {} {} times on one connection with {} matching subscriptions", self.name(p), String::from_utf8_lossy(&m.payload[..10.min(m.payload.len())]), got.len(), poss.len()));
                            }
                            if m.will {
                                viol(v, "B07", "will-repeated", format!("{} received the will of {} {} times", self.name(p), self.name(m.c), got.len()));
                            }
                        }
                        for g in &got {
                            if !poss.iter().flatten().any(|o| (o & 3).min(m.qos) == g.1) {
                                for w in if m.will { &["B01", "B07"][..] } else { &["B01"][..] } {
                                    viol(v, w, "qos", format!("{} received message {} (published at QoS {}) at QoS {}, granted {:?}", self.name(p), String::from_utf8_lossy(&m.payload[..10.min(m.payload.len())]), m.qos, g.1, poss));
                                }
                            }
                            if g.2 && g.1 == 0 {
                                viol(v, "B01", "dup-qos0", format!("{} received a QoS 0 message with DUP", self.name(p)));
                            }
                            // DUP on what cannot be a redelivery
                            if g.2 && m.i > c.connack.as_ref().unwrap().0 {
                                viol(v, "B01", "dup-first", format!("{} received the first delivery of {} with DUP set", self.name(p), String::from_utf8_lossy(&m.payload[..10.min(m.payload.len())])));
                            }
                        }
                        // exact multiset where nothing is in doubt
                        if poss.iter().all(|o| o.len() == 1) && got.len() == poss.len() {
                            let mut a: Vec<u8> = poss.iter().map(|o| (o[0] & 3).min(m.qos)).collect();
                            let mut b: Vec<u8> = got.iter().map(|g| g.1).collect();
                            a.sort();
                            b.sort();
                            if a != b {
                                viol(v, "B01", "qos", format!("{} received message {} at QoS {b:?}, subscriptions call for {a:?}", self.name(p), String::from_utf8_lossy(&m.payload[..10.min(m.payload.len())])));
                            }
                        }
                    }
                }
                // ---- everything that was asked for
                if m.will || m.qos == 2 || self.pub_void(m).is_some() {
                    continue;
                }
                let Some(ht) = m.handled else { continue };
                let k = c.connack.as_ref().unwrap().0;
                if m.i < k || self.superseded(m) {
                    continue;
                }
                if c.calm_t < ht + self.bound || self.end_t < ht + self.bound || !room {
                    continue;
                }
                let hi = self.idx_at(ht);
                let mut want = 0;
                let mut inherited = false;
                for f in &mf {
                    if let Some((o, inh)) = self.definite(p, f, m.i, hi) {
                        if o & 4 != 0 && own {
                            continue;
                        }
                        want += 1;
                        inherited |= inh;
                    }
                }
                if got.len() < want {
                    let mut who = self.blame(p, &["B01"]);
                    if inherited {
                        who.push("B08");
                        who.push("B09");
                    }
                    for w in who {
                        viol(v, w, "missing", format!("{} received message {} ('{}', QoS {}, published on {}) {} times, {} subscriptions match", self.name(p), String::from_utf8_lossy(&m.payload[..10.min(m.payload.len())]), m.topic, m.qos, self.name(m.c), got.len(), want));
                    }
                }
            }
        }
    }
    /// sent on a connection after another one had taken its session over
    fn superseded(&self, m: &Pub) -> bool {
        let c = &self.cs[m.c];
        c.taken.map(|t| m.i > t).unwrap_or(false) || c.raw.map(|t| m.i > t).unwrap_or(false)
    }

    // ------------------------------------------------------------ B02
    fn order(&self, v: &mut Vec<Violation>) {
        for (p, c) in self.cs.iter().enumerate() {
            if !c.est() {
                continue;
            }
            // j-th copies of the messages of one publishing connection come in sending order
            let mut seen: HashMap<usize, usize> = HashMap::new();
            let mut last: HashMap<(usize, usize, bool), (usize, u64)> = HashMap::new();
            for (_, pk) in &c.recvs {
                let Pk::Publish(x) = pk else { continue };
                let Some(q) = self.source(x) else { continue };
                let m = &self.pubs[q];
                if m.will {
                    continue;
                }
                let n = seen.entry(q).or_insert(0);
                let copy = *n;
                *n += 1;
                let redel = x.dup;
                let key = (m.c, copy, redel);
                if let Some((lp, lm)) = last.get(&key) {
                    if *lp > m.pos {
                        viol(v, "B02", "order", format!("{} received m{:08} after m{lm:08} although {} sent it before", self.name(p), pid_of(&x.payload).unwrap_or(0), self.name(m.c)));
                        if redel {
                            viol(v, "B04", "order", format!("{}: redelivery of m{:08} after that of m{lm:08}", self.name(p), pid_of(&x.payload).unwrap_or(0)));
                        }
                    }
                }
                last.insert(key, (m.pos, pid_of(&x.payload).unwrap_or(0)));
            }
        }
    }

    // ------------------------------------------------------------ B04
    fn redelivery(&self, v: &mut Vec<Violation>) {
        #[derive(Clone)]
        struct Out {
            pid: u16,
            q: usize,
            /// definitely received by the peer (else only certainly queued)
            got: bool,
            maybe_acked: bool,
            seq: usize,
        }
        for (cid, conns) in &self.ids {
            if self.racy.contains(cid) {
                continue;
            }
            let mut out: Vec<Out> = vec![];
            let mut done: HashMap<usize, usize> = HashMap::new(); // message -> connection on which the PUBACK was certainly processed
            let mut era = usize::MAX;
            let mut seq = 0;
            for &p in conns {
                let c = &self.cs[p];
                if !c.est() {
                    continue;
                }
                let (ki, sp, _, _) = c.connack.as_ref().unwrap().clone();
                if c.era != era {
                    out.clear();
                    done.clear();
                    era = c.era;
                }
                let fs = self.filters_of(cid);
                let multi = |q: usize| fs.iter().filter(|f| matches(f, &self.pubs[q].topic)).count() > 1;
                // messages published after this CONNACK: they are "new"
                let first_new = c.recvs.iter().find(|(_, pk)| match pk {
                    Pk::Publish(x) => self.source(x).map(|q| !self.pubs[q].will && self.pubs[q].i > ki).unwrap_or(false),
                    _ => false,
                });
                let overflow = self.routed_max(p) > self.scn.cfg.channel;
                if sp {
                    let calm_enough = c.calm_t > self.t(ki) + self.bound && !overflow && self.room(p);
                    let mut lastseq: Option<(usize, usize)> = None;
                    for (i, pk) in &c.recvs {
                        let Pk::Publish(x) = pk else { continue };
                        let Some(q) = self.source(x) else { continue };
                        if let Some(dp) = done.get(&q) {
                            if !multi(q) {
                                viol(v, "B04", "acknowledged-again", format!("{} received m{:08} again although its PUBACK had been processed on connection {}", self.name(p), pid_of(&x.payload).unwrap_or(0), self.cs[*dp].idx));
                            }
                        }
                        let mut cand: Vec<&Out> = out.iter().filter(|o| o.q == q).collect();
                        if cand.is_empty() || self.pubs[q].i > ki {
                            continue;
                        }
                        if cand.len() > 1 || multi(q) {
                            cand.retain(|o| Some(o.pid) == x.pid);
                            if cand.is_empty() {
                                continue;
                            }
                        }
                        let o = cand[0];
                        if o.got {
                            if !x.dup {
                                viol(v, "B04", "dup-clear", format!("{}: m{:08} redelivered without DUP", self.name(p), pid_of(&x.payload).unwrap_or(0)));
                            }
                            if x.pid != Some(o.pid) {
                                viol(v, "B04", "new-id", format!("{}: m{:08} redelivered with identifier {:?} instead of {}", self.name(p), pid_of(&x.payload).unwrap_or(0), x.pid, o.pid));
                            }
                            if let Some((ls, lq)) = lastseq {
                                if ls > o.seq {
                                    viol(v, "B04", "order", format!("{}: m{:08} redelivered after {}, the original order was the other way round", self.name(p), pid_of(&x.payload).unwrap_or(0), String::from_utf8_lossy(&self.pubs[lq].payload[..9])));
                                }
                            }
                            lastseq = Some((o.seq, q));
                            if let Some((fi, _)) = first_new {
                                if fi < i {
                                    viol(v, "B04", "after-new", format!("{}: m{:08} redelivered after a new message", self.name(p), pid_of(&x.payload).unwrap_or(0)));
                                }
                            }
                        }
                    }
                    if calm_enough && self.end_t > self.t(ki) + self.bound {
                        for o in &out {
                            if o.maybe_acked {
                                continue;
                            }
                            let got = c.recvs.iter().any(|(_, pk)| match pk {
                                Pk::Publish(x) => self.source(x) == Some(o.q) && (!o.got || x.pid == Some(o.pid)),
                                _ => false,
                            });
                            if !got {
                                for w in self.blame(p, &["B04", "B08"]) {
                                    if w == "B12" || w == "B04" || w == "B08" || w == "B18" {
                                        viol(v, w, "not-redelivered", format!("{}: {} (identifier {}, {}) was not redelivered on resume", self.name(p), String::from_utf8_lossy(&self.pubs[o.q].payload[..9]), o.pid, if o.got { "received before, not acknowledged" } else { "routed to the session while it was connected" }));
                                    }
                                }
                            }
                        }
                    }
                }
                // ---- account for this connection
                let mut ev: Vec<(usize, usize, bool)> = vec![]; // (event, index, is_recv)
                for (n, (i, pk)) in c.recvs.iter().enumerate() {
                    if let Pk::Publish(x) = pk {
                        if x.qos >= 1 {
                            ev.push((*i, n, true));
                        }
                    }
                }
                for (n, (i, _, pk)) in c.sends.iter().enumerate() {
                    if matches!(pk, Pk::PubAck { .. }) {
                        ev.push((*i, n, false));
                    }
                }
                ev.sort();
                for (_, n, is_recv) in ev {
                    if is_recv {
                        let Pk::Publish(x) = &c.recvs[n].1 else { continue };
                        let (Some(q), Some(pid)) = (self.source(x), x.pid) else { continue };
                        if x.qos != 1 {
                            continue;
                        }
                        if let Some(o) = out.iter_mut().find(|o| o.q == q && (o.pid == pid || !o.got)) {
                            o.pid = pid;
                            if !o.got {
                                seq += 1;
                                o.seq = seq;
                            }
                            o.got = true;
                        } else {
                            seq += 1;
                            out.push(Out { pid, q, got: true, maybe_acked: false, seq });
                        }
                    } else {
                        let (i, d, Pk::PubAck { pid, .. }) = &c.sends[n] else { continue };
                        // processed for sure: answered request sent later on the same connection
                        let sure = d.is_some()
                            && c.raw.is_none()
                            && (n + 1..c.sends.len()).any(|k| c.resp[k].map(|r| r > *i).unwrap_or(false));
                        if let Some(k) = out.iter().position(|o| o.got && o.pid == *pid) {
                            if sure {
                                let o = out.remove(k);
                                done.insert(o.q, p);
                            } else {
                                out[k].maybe_acked = true;
                            }
                        }
                    }
                }
                // certainly routed to this connection, although perhaps never received
                let from = self.t(c.connect.as_ref().map(|x| x.0).unwrap_or(0));
                let due: Vec<(u64, usize)> = self
                    .pubs
                    .iter()
                    .filter(|o| o.will || o.handled.map(|t| t >= from).unwrap_or(true))
                    .map(|o| (self.t(o.i), fs.iter().filter(|f| matches(f, &o.topic)).count()))
                    .filter(|x| x.1 > 0)
                    .collect();
                for (q, m) in self.pubs.iter().enumerate() {
                    if !m.will && (self.pub_void(m).is_some() || self.superseded(m) || m.i < ki) {
                        continue;
                    }
                    let poss = fs.iter().filter(|f| matches(f, &m.topic)).count();
                    if poss != 1 || m.qos != 1 || m.will {
                        continue;
                    }
                    let Some(ht) = m.handled else { continue };
                    let stop_only = c.stops.first().map(|s| s.0) == Some(c.calm) && c.stops.len() == 1;
                    let quiet = if stop_only {
                        // reading stopped: still connected until the queue is full
                        let next_calm = [c.our_end.map(|x| x.0), c.shut, c.eof, c.reset, c.raw, c.disc.map(|x| x.0), c.disc_recv.map(|x| x.0), c.taken]
                            .iter()
                            .flatten()
                            .min()
                            .copied()
                            .map(|i| self.t(i))
                            .unwrap_or(self.end_t);
                        // the message that does not fit is still due
                        let nq: usize = due.iter().filter(|x| x.0 <= ht).map(|x| x.1).sum();
                        (nq <= self.scn.cfg.channel + 1 || self.lone(p, q, &fs)) && next_calm > ht && !self.silent_before(p, ht)
                    } else {
                        c.calm_t > ht && !overflow
                    };
                    if !quiet {
                        continue;
                    }
                    let hi = self.idx_at(ht);
                    let f = fs.iter().find(|f| matches(f, &m.topic)).unwrap();
                    if let Some((o, _)) = self.definite(p, f, m.i, hi) {
                        if o & 3 == 0 || (o & 4 != 0 && self.cs[m.c].cid == c.cid) {
                            continue;
                        }
                        if done.contains_key(&q) || out.iter().any(|x| x.q == q) {
                            continue;
                        }
                        seq += 1;
                        out.push(Out { pid: 0, q, got: false, maybe_acked: false, seq });
                    }
                }
            }
        }
    }

    /// nothing else was routed to `p` for so long before the message was sent that the session cannot have ended
    /// unnoticed: somebody would have received its will
    fn lone(&self, p: usize, q: usize, fs: &[String]) -> bool {
        let c = &self.cs[p];
        let m = &self.pubs[q];
        let Some(ht) = m.handled else { return false };
        let st = self.t(m.i);
        if self.racy.contains(&c.cid) || self.accept_faults() {
            return false;
        }
        let others = self.pubs.iter().enumerate().all(|(k, o)| {
            k == q || !fs.iter().any(|f| matches(f, &o.topic)) || o.i < c.open || self.t(o.i) > ht || o.handled.map(|t| t + 2 * self.bound < st).unwrap_or(false)
        });
        if !others || self.pubs.iter().any(|o| o.will && fs.iter().any(|f| matches(f, &o.topic))) {
            return false;
        }
        let Some(w) = self.pubs.iter().position(|o| o.will && o.c == p && Some(o.i) == c.connect.as_ref().map(|x| x.0)) else { return false };
        let will = &self.pubs[w];
        let delay = c.connect.as_ref().and_then(|x| x.2.will.as_ref()).map(|x| x.props.iter().any(|p| p.0 == 0x18)).unwrap_or(true);
        if delay {
            return false;
        }
        // a witness that would have seen it
        self.cs.iter().enumerate().any(|(o, oc)| {
            oc.est()
                && o != p
                && oc.calm_t > ht
                && self.filters_of(&oc.cid).iter().any(|f| matches(f, &will.topic) && self.definite(o, f, c.open, m.i).is_some())
                && !oc.recvs.iter().any(|(i, pk)| *i < m.i && matches!(pk, Pk::Publish(x) if self.source(x) == Some(w)))
        })
    }

    // ------------------------------------------------------------ B06
    fn takeover(&self, v: &mut Vec<Violation>) {
        for (p, c) in self.cs.iter().enumerate() {
            let Some(n) = c.next else { continue };
            if !c.est() || self.racy.contains(&c.cid) {
                continue;
            }
            let nx = &self.cs[n];
            let (ci, ka) = (nx.connect.as_ref().unwrap().0, nx.connack.as_ref().unwrap().0);
            // still connected when the newcomer was answered
            let ended = [c.our_end.map(|x| x.0), c.shut, c.raw, c.disc.map(|x| x.0), c.connects.get(1).copied(), c.undec]
                .iter()
                .flatten()
                .min()
                .copied()
                .unwrap_or(usize::MAX);
            let gone = [c.eof, c.reset].iter().flatten().min().copied().unwrap_or(usize::MAX);
            // deliveries after the hand-over
            for (i, pk) in &c.recvs {
                if let Pk::Publish(x) = pk {
                    if let Some(q) = self.source(x) {
                        if !self.pubs[q].will && self.pubs[q].i > ka {
                            viol(v, "B06", "old-delivered", format!("{} received {} published after connection {} had taken its session over", self.name(p), pk.short(), nx.idx));
                        }
                    }
                }
                let _ = i;
            }
            if ended > ka && gone > ci && !self.silent_before(p, self.t(ka)) {
                let until = if ended == usize::MAX { self.end_t } else { self.t(ended) };
                let t0 = self.t(ka);
                let reading = c.stops.is_empty() && c.stall.is_none() && !self.overflow_possible(p);
                let own_end = [c.our_end.map(|x| x.0)].iter().flatten().min().map(|i| self.t(*i)).unwrap_or(self.end_t);
                if reading && own_end > t0 + self.bound {
                    match c.disc_recv {
                        Some((_, 0x8e)) => {}
                        r => viol(v, "B06", "no-notice", format!("{} was taken over by connection {} but received {} instead of a session-taken-over DISCONNECT", self.name(p), nx.idx, match r { Some((_, x)) => format!("DISCONNECT {x:#x}"), None => "nothing".into() })),
                    }
                    if !c.eof.or(c.reset).map(|i| self.t(i) <= t0 + self.bound).unwrap_or(false) {
                        viol(v, "B06", "old-not-closed", format!("{} was taken over by connection {} and not closed within {:.1}s", self.name(p), nx.idx, self.bound as f64 / 1e9));
                    }
                }
                let _ = until;
            }
            // whatever the peer does, the broker lets go of the old connection
            if self.end_t > self.t(ka) + self.bound {
                if let Some((_, true)) = self.out.open_at_end.iter().find(|x| x.0 == c.idx) {
                    viol(v, "B06", "old-kept-open", format!("the broker still holds {} open after connection {} took its session over", self.name(p), nx.idx));
                }
            }
        }
    }

    // ------------------------------------------------------------ B07
    fn wills(&self, v: &mut Vec<Violation>) {
        for (w, m) in self.pubs.iter().enumerate() {
            if !m.will {
                continue;
            }
            let c = &self.cs[m.c];
            let p = m.c;
            // second CONNECTs carry wills that never count
            let main = c.connect.as_ref().map(|x| x.0) == Some(m.i);
            let delay = c
                .connect
                .as_ref()
                .and_then(|x| x.2.will.as_ref())
                .and_then(|x| x.props.iter().find_map(|(k, v)| match (k, v) {
                    (0x18, PV::U32(d)) => Some(*d as u64 * S),
                    _ => None,
                }))
                .unwrap_or(0);
            let first_recv = self
                .cs
                .iter()
                .enumerate()
                .flat_map(|(o, c)| c.recvs.iter().filter_map(move |(i, pk)| match pk {
                    Pk::Publish(x) if self.source(x) == Some(w) => Some((*i, o)),
                    _ => None,
                }))
                .min();
            let mut why_not: Option<String> = None;
            let mut must = false;
            let refused = matches!(c.connack, Some((_, _, r, _)) if r != 0);
            let before_connect = c.connect.as_ref().map(|x| c.sends[0].0 != x.0).unwrap_or(true);
            let lo = c.end_lo;
            let hi = c.end_hi;
            if !main || refused || before_connect {
                why_not = Some("its CONNECT was not accepted".into());
            } else if c.est() {
                let taken_t = c.taken.map(|t| self.t(t));
                let other_end = [
                    c.our_end.map(|x| x.0),
                    c.shut,
                    c.raw,
                    c.connects.get(1).copied(),
                    c.stops.first().map(|x| x.0),
                    c.eof,
                    c.reset,
                    c.disc_recv.map(|x| x.0),
                ]
                .iter()
                .flatten()
                .min()
                .copied()
                .unwrap_or(usize::MAX);
                let clean = match c.disc {
                    Some((i, Some(d), 0)) if c.stall.is_none() => {
                        let e = c.eof.or(c.reset);
                        let seen = match (e, c.our_end) {
                            (Some(e), _) if e > d => c.reset.is_none(),
                            (_, Some((x, HowEnd::HalfOpen))) => self.t(x) > self.t(d) + self.bound,
                            (_, Some((x, _))) => self.t(x) > self.t(d) + self.bound,
                            (None, None) => self.end_t > self.t(d) + self.bound,
                            _ => false,
                        };
                        let first = other_end > i && !self.silent_before(p, self.t(d)) && taken_t.map(|t| t > self.t(d)).unwrap_or(true);
                        if seen && first {
                            Some(true)
                        } else {
                            None
                        }
                    }
                    Some((_, _, 0)) => None,
                    _ => Some(false),
                };
                match clean {
                    Some(true) => why_not = Some("the client sent DISCONNECT with reason 0".into()),
                    None => {}
                    Some(false) => {
                        if lo >= INF || lo > self.end_t {
                            why_not = Some("its connection has not ended".into());
                        } else if hi < INF {
                            let by = hi + delay + self.bound;
                            // an end the takeover did not cause
                            let own = match taken_t {
                                Some(t) => hi < t,
                                None => true,
                            };
                            if own && self.end_t > by {
                                must = true;
                            }
                            if delay > 0 {
                                // a clean start is no resume: the will of the session it replaces stays due
                                let replaced = c.next.is_some_and(|n| {
                                    let nx = self.cs[n].connect.as_ref().unwrap();
                                    c.taken.is_none_or(|t| t == nx.0) && nx.2.clean && self.t(nx.0) > hi
                                });
                                if let Some(n) = c.next.filter(|_| !replaced) {
                                    let nx = &self.cs[n];
                                    let (_, sp, _, _) = nx.connack.as_ref().unwrap();
                                    let nt = self.t(nx.connack.as_ref().unwrap().0);
                                    // taken over or resumed
                                    if nt < lo + delay {
                                        must = false;
                                        if *sp {
                                            why_not = Some("the client resumed the session before the delay had passed".into());
                                        }
                                    } else if self.t(nx.connect.as_ref().unwrap().0) <= by {
                                        must = false;
                                    }
                                }
                                // an attempt that was never answered may have resumed it
                                if let Some(t) = taken_t.filter(|_| !replaced) {
                                    if t <= by {
                                        must = false;
                                    }
                                }
                                // a session that ends before the delay may publish at either moment, or with it
                            }
                        }
                    }
                }
                // raw bytes may be, or contain, a DISCONNECT
                if self.raw_may(p, 0xe0) {
                    must = false;
                }
                if self.racy.contains(&c.cid) {
                    must = false;
                    if !matches!(clean, Some(true)) {
                        why_not = None;
                    }
                }
                // not too early
                if let (Some((i, o)), None) = (first_recv, &why_not) {
                    let e = lo.saturating_add(delay.min(c.exp.max(0) as u64 * S));
                    if !self.racy.contains(&c.cid) && self.t(i) < e.saturating_sub(S / 20) && clean == Some(false) {
                        viol(v, "B07", "will-early", format!("the will of {} arrived at {} at {:.3}s, before its end at {:.3}s plus delay", self.name(p), self.name(o), self.t(i) as f64 / 1e9, lo as f64 / 1e9));
                    }
                }
            }
            if let (Some((i, o)), Some(why)) = (first_recv, &why_not) {
                let mut who = vec!["B07"];
                if c.prev.is_some() {
                    who.push("B06");
                }
                if !main || before_connect {
                    who.push("B15");
                }
                for x in who {
                    viol(v, x, "will-published", format!("the will of {} was published (received by {} at {:.3}s) although {why}", self.name(p), self.name(o), self.t(i) as f64 / 1e9));
                }
            }
            if must {
                let by = hi + delay + self.bound;
                for (o, oc) in self.cs.iter().enumerate() {
                    if !oc.est() || o == p {
                        continue;
                    }
                    if self.t(oc.connack.as_ref().unwrap().0) >= lo || oc.calm_t < by {
                        continue;
                    }
                    let a = self.idx_at(lo.saturating_sub(1));
                    let b = self.idx_at(by);
                    let n = self.filters_of(&oc.cid).iter().filter(|f| matches(f, &m.topic)).filter(|f| self.definite(o, f, a, b).is_some()).count();
                    if n == 0 {
                        continue;
                    }
                    let got = oc.recvs.iter().filter(|(_, pk)| matches!(pk, Pk::Publish(x) if self.source(x) == Some(w))).collect::<Vec<_>>();
                    if got.len() < n {
                        let mut who = vec!["B07"];
                        if c.raw.is_some() {
                            who.push("B13");
                        }
                        if c.connects.len() > 1 {
                            who.push("B15");
                        }
                        if !c.stops.is_empty() {
                            who.push("B12");
                        }
                        if c.our_end.map(|e| e.1 == HowEnd::HalfOpen).unwrap_or(false) {
                            who.push("B11");
                        }
                        for x in who {
                            viol(v, x, "will-missing", format!("{} ended abnormally between {:.3}s and {:.3}s but its will reached {} {} times by {:.3}s", self.name(p), lo as f64 / 1e9, hi as f64 / 1e9, self.name(o), got.len(), by as f64 / 1e9));
                        }
                    } else if got.iter().any(|g| self.t(g.0) > by) {
                        viol(v, "B07", "will-late", format!("the will of {} arrived too late", self.name(p)));
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------ B08, B09
    fn sessions(&self, v: &mut Vec<Violation>) {
        let mut assigned: BTreeSet<String> = BTreeSet::new();
        for (p, c) in self.cs.iter().enumerate() {
            let (Some((_, _, k)), Some((ai, sp, reason, props))) = (&c.connect, &c.connack) else { continue };
            if *reason != 0 {
                if *sp {
                    viol(v, "B08", "refused-present", format!("{}: refusing CONNACK with session present", self.name(p)));
                }
                continue;
            }
            let get = |id: u8| props.iter().find(|x| x.0 == id).map(|x| x.1.clone());
            match (k.cid.is_empty(), get(0x12)) {
                (true, Some(PV::Str(s))) => {
                    if s.is_empty() || !assigned.insert(s.clone()) {
                        viol(v, "B08", "assigned-id", format!("{}: assigned identifier '{s}' is empty or not fresh", self.name(p)));
                    }
                    if *sp {
                        viol(v, "B08", "present", format!("{}: session present for an assigned identifier", self.name(p)));
                    }
                }
                (true, _) => viol(v, "B08", "assigned-id", format!("{}: no assigned identifier in the CONNACK", self.name(p))),
                (false, Some(_)) => viol(v, "B08", "assigned-id", format!("{}: identifier assigned although the client sent one", self.name(p))),
                _ => {}
            }
            // negotiation
            let req = k.props.iter().find_map(|x| match x {
                (0x11, PV::U32(e)) => Some(*e),
                _ => None,
            });
            // the maximum may be changed while the CONNECT is on its way
            let maxs = self.max_expiries(c.connect.as_ref().unwrap().0, *ai);
            let m = maxs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" or ");
            match (req, get(0x11)) {
                (Some(r), Some(PV::U32(g))) if maxs.iter().any(|x| r > *x && g == *x) => {}
                (Some(r), g) if maxs.iter().all(|x| r > *x) => viol(v, "B09", "expiry-limit", format!("{}: requested expiry {r} above the maximum {m}, CONNACK says {g:?}", self.name(p))),
                (r, Some(PV::U32(g))) if Some(g) != r && !(r.is_none() && g == 0) => viol(v, "B09", "expiry-limit", format!("{}: requested expiry {r:?} within the maximum {m}, CONNACK says {g}", self.name(p))),
                _ => {}
            }
            let (d, mx) = (self.scn.cfg.def_ka, (self.scn.cfg.max_ka as u32 + self.scn.cfg.ka_extra).min(65_535) as u16);
            let want = if k.ka < d { Some(d) } else if k.ka > mx { Some(mx) } else { None };
            match (want, get(0x13)) {
                (Some(w), Some(PV::U16(g))) if g == w => {}
                (Some(w), g) => viol(v, "B11", "negotiation", format!("{}: keep-alive {} requested, limits {d}..{mx}, CONNACK should say {w} and says {g:?}", self.name(p), k.ka)),
                (None, Some(PV::U16(g))) if g != k.ka => viol(v, "B11", "negotiation", format!("{}: keep-alive {} is within the limits {d}..{mx}, CONNACK says {g}", self.name(p), k.ka)),
                _ => {}
            }
            // session present
            if self.racy.contains(&c.cid) || k.cid.is_empty() {
                continue;
            }
            if k.clean {
                if *sp {
                    viol(v, "B08", "present", format!("{}: session present after a clean start", self.name(p)));
                }
                continue;
            }
            let Some(q) = c.prev else {
                if *sp {
                    viol(v, "B08", "present", format!("{}: session present for an identifier never connected before", self.name(p)));
                }
                continue;
            };
            let o = &self.cs[q];
            let ci = c.connect.as_ref().unwrap().0;
            let (ct, at) = (self.t(ci), self.t(*ai));
            let e = o.exp as u64 * S;
            let lo = o.end_lo;
            let lo_own = lo < ct; // ended before the newcomer, at the earliest
            if !*sp {
                // must exist: either still connected, or ended less than the interval ago
                if o.exp > 0 && (!lo_own || at < lo + e) {
                    for x in ["B08", "B09"] {
                        viol(v, x, "lost", format!("{}: the session of connection {} (expiry {}s, ended no earlier than {:.3}s) is not present at {:.3}s", self.name(p), o.idx, o.exp, lo as f64 / 1e9, at as f64 / 1e9));
                    }
                }
            } else if let Some(t) = self.quiet_end(q).filter(|t| ct > *t + e) {
                viol(v, "B09", "kept", format!("{}: the session of connection {} (expiry {}s, ended no later than {:.3}s) is still present at {:.3}s", self.name(p), o.idx, o.exp, t as f64 / 1e9, ct as f64 / 1e9));
            } else if o.end_hi < ct && ct > o.end_hi + e + S {
                viol(v, "B09", "kept", format!("{}: the session of connection {} (expiry {}s, ended no later than {:.3}s) is still present at {:.3}s", self.name(p), o.idx, o.exp, o.end_hi as f64 / 1e9, ct as f64 / 1e9));
            }
        }
    }

    /// when a connection that had been idle ended for the broker at the latest: it only has to notice the end
    fn quiet_end(&self, p: usize) -> Option<u64> {
        let c = &self.cs[p];
        if c.stall.is_some() || !c.stops.is_empty() || c.raw.is_some() || c.connects.len() > 1 || c.shut.is_some() {
            return None;
        }
        let (i, how) = c.our_end?;
        if !std::matches!(how, HowEnd::Close | HowEnd::Rst) {
            return None;
        }
        let t = self.t(i);
        let idle = S + 4 * self.scn.knobs.max_lat();
        let busy = |x: &usize| self.t(*x) + idle > t;
        if c.disc.is_some() || c.eof.is_some() || c.reset.is_some() || c.sends.iter().any(|x| busy(&x.0)) || c.recvs.iter().any(|x| busy(&x.0)) {
            return None;
        }
        // nothing was on its way to it either
        if self.pubs.iter().any(|m| self.t(m.i) + idle > t && self.t(m.i) < t + idle && self.filters_of(&c.cid).iter().any(|f| matches(f, &m.topic))) {
            return None;
        }
        Some(t + self.scn.knobs.max_lat() + S / 10)
    }

    // ------------------------------------------------------------ B10
    fn limit(&self, v: &mut Vec<Violation>) {
        let Some(max) = self.scn.cfg.max_active else {
            for (p, c) in self.cs.iter().enumerate() {
                if let Some((_, _, 0x97, _)) = &c.connack {
                    viol(v, "B10", "refused-without-limit", self.name(p));
                }
            }
            return;
        };
        // certainly connected intervals, by event index
        let mut ev: Vec<(usize, i32, usize)> = vec![];
        for (p, c) in self.cs.iter().enumerate() {
            if let Some((i, _, 0, _)) = &c.connack {
                ev.push((*i, 1, p));
                let mut e = c.calm.min(c.end_index(self));
                if e <= *i {
                    e = *i;
                }
                ev.push((e, -1, p));
            }
        }
        ev.sort();
        let mut n = 0i32;
        for (_, d, p) in &ev {
            n += d;
            if *d > 0 && n > max as i32 {
                viol(v, "B10", "exceeded", format!("{} accepted as number {n} with a limit of {max}", self.name(*p)));
            }
        }
        for (p, c) in self.cs.iter().enumerate() {
            let Some((ai, _, r, _)) = &c.connack else { continue };
            if *r == 0 {
                continue;
            }
            if *r != 0x97 {
                viol(v, "B10", "refusal-reason", format!("{} refused with {r:#x}", self.name(p)));
                continue;
            }
            let ct = self.t(c.connect.as_ref().unwrap().0);
            // could the limit have been reached at any moment of the attempt
            let mut ids: BTreeSet<String> = BTreeSet::new();
            for (q, o) in self.cs.iter().enumerate() {
                if q == p {
                    continue;
                }
                let Some((oi, _, _)) = &o.connect else { continue };
                if matches!(o.connack, Some((_, _, x, _)) if x != 0) {
                    continue;
                }
                if *oi < *ai && o.end_hi >= ct {
                    ids.insert(if o.cid.is_empty() { format!("#{q}") } else { o.cid.clone() });
                }
            }
            let own = ids.contains(&c.cid) && {
                // certainly connected under the same identifier during the whole attempt
                self.cs.iter().enumerate().any(|(q, o)| q != p && o.cid == c.cid && o.est() && o.connack.as_ref().unwrap().0 < c.connect.as_ref().unwrap().0 && o.calm_t > self.t(*ai))
            };
            if (ids.len() as u32) < max || own {
                let mut who = vec!["B10"];
                if self.others_raw(p) {
                    who.push("B13");
                }
                if self.takeovers() {
                    who.push("B06");
                }
                for x in who {
                    viol(v, x, "refused", format!("{} refused with quota-exceeded although at most {} other sessions can have been connected (limit {max}{})", self.name(p), ids.len(), if own { ", and its own session was connected" } else { "" }));
                }
            }
            // refused connections are closed
            let closed = c.eof.or(c.reset).map(|i| self.t(i) <= self.t(*ai) + self.bound).unwrap_or(false);
            let own_end = c.our_end.map(|x| self.t(x.0)).unwrap_or(self.end_t);
            if !closed && own_end > self.t(*ai) + self.bound && c.stops.is_empty() {
                viol(v, "B10", "refused-open", format!("{} was refused but not closed", self.name(p)));
            }
        }
    }

    // ------------------------------------------------------------ B11
    fn keepalive(&self, v: &mut Vec<Violation>) {
        for (p, c) in self.cs.iter().enumerate() {
            if c.raw.is_some() && c.est() {
                // bytes that are no packets do not count, but they may have ended it already
            }
            let (base, ka) = if c.est() {
                (self.t(c.connack.as_ref().unwrap().0), c.ka)
            } else if c.connack.is_none() && c.sends.is_empty() {
                (self.t(c.open), 30 * S)
            } else {
                continue;
            };
            if ka == 0 {
                continue;
            }
            let mut last = base.max(c.stall.map(|x| x.1).unwrap_or(0));
            for (_, d, _) in &c.sends {
                if let Some(d) = d {
                    if c.our_end.map(|e| *d < e.0).unwrap_or(true) {
                        last = last.max(self.t(*d));
                    }
                }
            }
            // raw bytes may have completed a packet
            if c.raw.is_some() {
                for e in self.h.iter().filter(|e| e.conn == c.idx) {
                    if matches!(e.k, K::RawDone(_)) {
                        last = last.max(e.t);
                    }
                }
            }
            let due = last + ka * 3 / 2 + self.bound;
            if due > self.end_t {
                continue;
            }
            let closed_by_peer = c.our_end.map(|e| e.1 != HowEnd::HalfOpen && self.t(e.0) <= due).unwrap_or(false);
            if closed_by_peer || c.shut.is_some() {
                continue;
            }
            let seen = c.eof.or(c.reset).map(|i| self.t(i));
            let can_see = c.stops.is_empty() && !matches!(c.our_end, Some((_, HowEnd::HalfOpen)));
            let open = self.out.open_at_end.iter().find(|x| x.0 == c.idx).map(|x| x.1).unwrap_or(false);
            let late = if can_see { seen.map(|t| t > due).unwrap_or(true) } else { open };
            if late {
                let mut who = vec!["B11"];
                if !c.est() {
                    who.push("B16");
                }
                if !c.stops.is_empty() {
                    who.push("B12");
                }
                for x in who {
                    viol(v, x, "silent-kept", format!("{}: silent since {:.3}s with a keep-alive of {}s and still not disconnected at {:.3}s", self.name(p), last as f64 / 1e9, ka / S, due.min(self.end_t) as f64 / 1e9));
                }
            }
        }
    }

    // ------------------------------------------------------------ B12
    fn slow(&self, v: &mut Vec<Violation>) {
        // a peer that stopped reading for good and to which far more is due than buffers and queue hold
        for (p, c) in self.cs.iter().enumerate() {
            let Some((s, None)) = c.stops.last() else { continue };
            if !c.est() || c.our_end.is_some() || c.shut.is_some() || c.disc.is_some() || c.raw.is_some() {
                continue;
            }
            let win = self.win(p);
            let fs = self.filters_of(&c.cid);
            let mut n = 0usize;
            let mut bytes = 0usize;
            let mut least = usize::MAX / 2;
            let mut last = 0u64;
            for m in &self.pubs {
                if m.will || m.i < *s || self.pub_void(m).is_some() || self.superseded(m) {
                    continue;
                }
                let Some(ht) = m.handled else { continue };
                for f in &fs {
                    if !matches(f, &m.topic) {
                        continue;
                    }
                    if let Some((o, _)) = self.definite(p, f, m.i, self.idx_at(ht)) {
                        if o & 4 != 0 && self.cs[m.c].cid == c.cid {
                            continue;
                        }
                        bytes += m.payload.len() + m.topic.len();
                        n += 1;
                        least = least.min(m.payload.len());
                        if bytes > 2 * win && n > self.scn.cfg.channel + 2 + 2 * win / (least + 1) {
                            if last == 0 {
                                last = ht;
                            }
                        }
                    }
                }
            }
            if last > 0 && self.end_t > last + self.bound {
                if let Some((_, true)) = self.out.open_at_end.iter().find(|x| x.0 == c.idx) {
                    viol(v, "B12", "slow-kept", format!("{} stopped reading, {} messages ({} bytes) were due to it with a window of {} and a queue of {}, and it is still connected", self.name(p), n, bytes, win, self.scn.cfg.channel));
                }
            }
        }
    }
    fn win(&self, p: usize) -> usize {
        // windows are set per connection in the scenario; take the largest of the actor
        let a = self.cs[p].actor;
        let mut w = 0;
        fn walk(ops: &[Op], w: &mut usize, d: usize) {
            for o in ops {
                match o {
                    Op::Connect(c) => *w = (*w).max(if c.win == 0 { d } else { c.win }),
                    Op::Open { win } => *w = (*w).max(if *win == 0 { d } else { *win }),
                    Op::On { op, .. } => walk(std::slice::from_ref(&**op), w, d),
                    _ => {}
                }
            }
        }
        if let Some(ops) = self.scn.actors.get(a) {
            walk(ops, &mut w, self.scn.knobs.window);
        }
        if w == 0 {
            self.scn.knobs.window
        } else {
            w
        }
    }

    // ------------------------------------------------------------ B15 and B13's "answered only with an error"
    fn protocol(&self, v: &mut Vec<Violation>) {
        for (p, c) in self.cs.iter().enumerate() {
            let own_end = [c.our_end.map(|x| x.0), c.stops.first().map(|x| x.0), c.stall.map(|x| x.0), c.shut]
                .iter()
                .flatten()
                .min()
                .map(|i| self.t(*i))
                .unwrap_or(self.end_t);
            let closed = c.eof.or(c.reset).map(|i| self.t(i)).unwrap_or(INF);
            let mut must_close = |from: Option<usize>, what: &str, who: &str| {
                if let Some(d) = from {
                    let t = self.t(d);
                    if own_end > t + self.bound && closed > t + self.bound {
                        viol(v, who, "not-closed", format!("{}: {what} at {:.3}s and the broker did not close the connection", self.name(p), t as f64 / 1e9));
                    }
                }
            };
            // first packet is not CONNECT
            let first_send = c.sends.first();
            let raw_first = c.raw.map(|r| first_send.map(|s| r < s.0).unwrap_or(true)).unwrap_or(false);
            let mut never = false;
            if !raw_first {
                if let Some((_, d, pk)) = first_send {
                    if !matches!(pk, Pk::Connect(_)) {
                        never = true;
                        must_close(*d, &format!("the first packet was {}", pk.name()), "B15");
                    }
                }
            }
            if c.est() {
                if let Some(j) = c.connects.get(1) {
                    let d = c.sends.iter().find(|s| s.0 == *j).and_then(|s| s.1);
                    if c.taken.is_none() && c.raw.is_none() {
                        must_close(d, "a second CONNECT was sent", "B15");
                    }
                }
                if let Some((_, d, _)) = c.disc {
                    if c.raw.is_none() {
                        must_close(d, "the client sent DISCONNECT", "B15");
                    }
                }
            }
            if never || raw_first && c.connect.is_none() {
                for (_, pk) in &c.recvs {
                    match pk {
                        Pk::Disconnect { .. } => {}
                        Pk::ConnAck { reason, .. } if *reason >= 0x80 => {}
                        k => {
                            if never {
                                viol(v, "B15", "answered", format!("{}: the first packet was not CONNECT, yet the broker answered {}", self.name(p), k.short()));
                            } else if self.raw_invalid(p) {
                                viol(v, "B13", "answered", format!("{}: bytes that start no valid packet were answered with {}", self.name(p), k.short()));
                            }
                        }
                    }
                }
            }
            // nothing after broken bytes is acted on
            if let Some(ri) = c.raw {
                if c.est() && self.raw_dead(p) {
                    let sent = |f: &dyn Fn(&Pk) -> bool| c.sends.iter().filter(|s| s.0 < ri && f(&s.2)).count();
                    let got = |f: &dyn Fn(&Pk) -> bool| c.recvs.iter().filter(|s| f(&s.1)).count();
                    for (what, asked, answered) in [
                        ("PINGRESP", sent(&|k| matches!(k, Pk::PingReq)), got(&|k| matches!(k, Pk::PingResp))),
                        ("PUBACK", sent(&|k| matches!(k, Pk::Publish(x) if x.qos == 1)), got(&|k| matches!(k, Pk::PubAck { .. }))),
                        ("SUBACK", sent(&|k| matches!(k, Pk::Subscribe { .. })), got(&|k| matches!(k, Pk::SubAck { .. }))),
                        ("UNSUBACK", sent(&|k| matches!(k, Pk::Unsub { .. })), got(&|k| matches!(k, Pk::UnsubAck { .. }))),
                        ("CONNACK", 1, got(&|k| matches!(k, Pk::ConnAck { .. }))),
                    ] {
                        if answered > asked {
                            viol(v, "B13", "answered", format!("{}: bytes that start no valid packet, or what followed them, were answered with {what}", self.name(p)));
                        }
                    }
                }
            }
            // nothing after DISCONNECT is acted on
            if let Some((di, _, _)) = c.disc {
                if c.est() {
                    for (k, (i, _, pk)) in c.sends.iter().enumerate() {
                        if *i > di && c.resp[k].is_some() {
                            viol(v, "B15", "after-disconnect", format!("{}: {} sent after DISCONNECT was answered", self.name(p), pk.short()));
                        }
                    }
                }
            }
        }
    }
    fn raw_invalid(&self, p: usize) -> bool {
        let c = &self.cs[p];
        let mut b = vec![];
        for e in self.h.iter().filter(|e| e.conn == c.idx) {
            if let K::Raw(x) = &e.k {
                b.extend_from_slice(x);
            }
        }
        if b.is_empty() {
            return false;
        }
        no_start(&b)
    }
    /// the first raw bytes of the connection start no packet: nothing after them is one
    fn raw_dead(&self, p: usize) -> bool {
        matches!(self.cs[p].raw.map(|i| &self.h[i].k), Some(K::Raw(b)) if no_start(b))
    }

    // ------------------------------------------------------------ B16: every ended connection is let go
    fn ends(&self, v: &mut Vec<Violation>) {
        for (p, c) in self.cs.iter().enumerate() {
            let by = match (c.our_end, c.shut) {
                (Some((_, HowEnd::HalfOpen)), _) => continue, // B11
                (Some((i, _)), s) => self.t(s.unwrap_or(i).min(i)),
                (None, Some(s)) => self.t(s),
                _ => continue,
            };
            let by = by.max(c.stall.map(|x| x.1).unwrap_or(0)) + self.bound;
            if by > self.end_t {
                continue;
            }
            if let Some((_, true)) = self.out.open_at_end.iter().find(|x| x.0 == c.idx) {
                viol(v, "B16", "left-open", format!("{}: the peer closed at {:.3}s and the broker still holds the connection at the end ({:.3}s)", self.name(p), (by - self.bound) as f64 / 1e9, self.end_t as f64 / 1e9));
            }
        }
    }
}
impl CV {
    /// first event after which the session may no longer count as connected
    fn end_index(&self, h: &H) -> usize {
        [self.eof, self.reset, self.our_end.map(|x| x.0), self.disc.map(|x| x.0), self.shut, self.raw, self.connects.get(1).copied(), self.taken]
            .iter()
            .flatten()
            .min()
            .copied()
            .unwrap_or(h.h.len())
    }
}

pub fn good_filter(f: &str) -> bool {
    if f.is_empty() || f.contains('\0') {
        return false;
    }
    let segs: Vec<&str> = f.split('/').collect();
    segs.iter().enumerate().all(|(i, s)| {
        if *s == "#" {
            i + 1 == segs.len()
        } else if *s == "+" {
            true
        } else {
            !s.contains('#') && !s.contains('+')
        }
    }) && !f.starts_with("$share/")
}

/// packet type 0, wrong reserved flags, QoS 3, or a remaining length of more than four bytes
fn no_start(b: &[u8]) -> bool {
    let Some(&x) = b.first() else { return false };
    let flags = match x >> 4 {
        0 => true,
        3 => x & 6 == 6,
        6 | 8 | 10 => x & 15 != 2,
        _ => x & 15 != 0,
    };
    flags && b.len() >= 2 || b.len() >= 5 && b[1..5].iter().all(|x| x & 0x80 != 0)
}
