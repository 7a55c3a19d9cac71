//! What a client run has to satisfy.
use crate::cscn::*;
use crate::hist::*;
use crate::mq::*;
use std::collections::{BTreeMap, BTreeSet};
use tokio::sim::End;
use vaux_client::ErrorKind;

const S: u64 = 1_000_000_000;
const MS: u64 = 1_000_000;

pub struct CO<'a> {
    scn: &'a CScn,
    out: &'a COut,
    /// indices of events per session
    ev: Vec<Vec<usize>>,
    lat: u64,
}

struct Flags {
    /// the server stopped reading or the client's path stood still
    srv_impaired: bool,
    /// the path to the client stood still
    down_stall: bool,
    cli_stall: bool,
    cons_impaired: bool,
    bytes: u64,
}

impl<'a> CO<'a> {
    pub fn new(scn: &'a CScn, out: &'a COut) -> Self {
        let mut ev = vec![vec![]; scn.sessions.len()];
        for (i, e) in out.hist.iter().enumerate() {
            if e.conn < ev.len() {
                ev[e.conn].push(i);
            }
        }
        CO { scn, out, ev, lat: scn.knobs.max_lat() }
    }
    fn e(&self, i: usize) -> &Ev {
        &self.out.hist[i]
    }
    fn flags(&self, k: usize) -> Flags {
        let s = &self.scn.sessions[k];
        let mut f = Flags {
            srv_impaired: false,
            down_stall: false,
            cli_stall: false,
            cons_impaired: s.acts.iter().chain(&s.pre).any(|a| matches!(a, Act::Pause | Act::Slow(_))),
            bytes: 0,
        };
        for &i in &self.ev[k] {
            let e = self.e(i);
            match &e.k {
                K::ReadStop | K::HalfOpen => f.srv_impaired = true,
                K::Stall(_) if e.actor == 1 => {
                    f.srv_impaired = true;
                    f.cli_stall = true;
                }
                K::Raw(b) => f.bytes += b.len() as u64,
                K::Stall(_) => f.down_stall = true,
                K::Send(p) | K::Recv(p) => f.bytes += encode(p).len() as u64,
                _ => {}
            }
        }
        f
    }
    /// how long a response may take when nothing is impaired
    fn bound(&self, k: usize, f: &Flags) -> u64 {
        let s = &self.scn.sessions[k];
        let w = self.scn.knobs.window as u64;
        let pick = |x: usize| if x > 0 { (x as u64).min(w) } else { w };
        let win = pick(s.win.0).min(pick(s.win.1)).max(1);
        // what the application sent may not have arrived at all
        let sent: u64 = self.scn.sessions[..=k]
            .iter()
            .flat_map(|x| x.pre.iter().chain(&x.acts))
            .map(|a| match a {
                Act::Pub { n, size, .. } => *n as u64 * (*size as u64 + 40),
                _ => 40,
            })
            .sum();
        let bytes = f.bytes.max(sent);
        2 * S + self.lat * (8 + 4 * bytes / win)
    }
    fn connack(&self, k: usize) -> Option<(usize, bool)> {
        self.ev[k].iter().find_map(|&i| match &self.e(i).k {
            K::Send(Pk::ConnAck { sp, reason: 0, .. }) if self.out.sess[k].t_connack.is_some() => Some((i, *sp)),
            _ => None,
        })
    }
    fn connect(&self, k: usize) -> Option<(usize, &ConnectP)> {
        self.ev[k].iter().find_map(|&i| match &self.e(i).k {
            K::Recv(Pk::Connect(c)) => Some((i, c)),
            _ => None,
        })
    }
    fn settled(&self, k: usize) -> Option<usize> {
        let o = &self.out.sess[k];
        o.t_settle.map(|_| o.i_settled)
    }
    fn rmax(&self, k: usize) -> usize {
        match &self.scn.sessions[k].hs {
            Hs::Ok { rmax, .. } if *rmax > 0 => *rmax as usize,
            _ => 65535,
        }
    }

    pub fn check(&self) -> Vec<Violation> {
        let mut v = vec![];
        for (k, o) in self.out.sess.iter().enumerate() {
            if let Some(e) = &o.build_err {
                viol(&mut v, "HARNESS", "build", format!("session {k}: {e}"));
            }
            if let Some((_, _, false)) = o.t_settle {
                self.tagged(&mut v, "never quiet", format!("session {k}: traffic does not cease within 300 s although nothing is withheld any more"));
            }
        }
        match &self.out.end {
            End::Done => {}
            End::StepLimit | End::TimeLimit => viol(&mut v, "HARNESS", "limit", format!("{:?}", self.out.end)),
            e => viol(&mut v, "C08", "hang", format!("the run ended with {e:?}")),
        }
        for p in &self.out.stats.panics {
            viol(&mut v, "C08", "panic", p.clone());
        }
        self.c01_c03(&mut v);
        self.c02(&mut v);
        self.c04_c09(&mut v);
        self.c05(&mut v);
        self.c06(&mut v);
        self.c07(&mut v);
        self.c10(&mut v);
        self.c08(&mut v);
        v
    }
    /// what the scenario was built for is what such a thing breaks
    fn tagged(&self, v: &mut Vec<Violation>, class: &str, d: String) {
        if self.scn.tag.starts_with('C') && self.scn.tag != "C08" && self.scn.tag != "C07" {
            viol(v, &self.scn.tag.clone(), class, d.clone());
        }
        viol(v, "C08", class, d);
    }

    // ------------------------------------------------------------ C01, C03
    fn forwarded(&self, p: &Pk) -> bool {
        match p {
            Pk::ConnAck { .. } | Pk::Disconnect { .. } => false,
            Pk::PingResp => self.scn.cfg.pingresp,
            _ => true,
        }
    }
    fn channel(&self, key: &str) -> usize {
        let t = ptype_of(key);
        self.scn.cfg.filt.iter().rposition(|f| f.0 == t).map(|i| i + 1).unwrap_or(0)
    }
    /// what the application has to see of a session, and the position of each in the history
    fn expected(&self, k: usize, known: &BTreeSet<String>) -> Vec<(usize, String)> {
        let mut v: Vec<(usize, String)> = vec![];
        let mut known = known.clone();
        let Some((ca, _)) = self.connack(k) else { return v };
        for &i in &self.ev[k] {
            if i <= ca {
                continue;
            }
            if let K::Send(p) = &self.e(i).k {
                if !self.forwarded(p) {
                    continue;
                }
                let key = key_pk(p);
                if let Pk::Publish(x) = p {
                    if x.qos == 2 && self.scn.cfg.auto_ack {
                        let m = msg_of(&key).to_string();
                        if !known.insert(m) {
                            continue;
                        }
                    }
                }
                v.push((i, key));
            }
        }
        v
    }
    fn c01_c03(&self, v: &mut Vec<Violation>) {
        let both = |v: &mut Vec<Violation>, key: &str, class: &str, d: String| {
            if key.contains(" q2 ") && self.scn.cfg.auto_ack {
                viol(v, "C03", class, d.clone());
            }
            viol(v, "C01", class, d);
        };
        let nch = self.scn.cfg.filt.len() + 1;
        // what the client may be holding: each identifier that was used, packets that may come
        // first in the next session, acknowledged messages not handed over yet: name -> session
        #[derive(Clone, Default, PartialEq)]
        struct St {
            known: BTreeSet<String>,
            carry: Vec<String>,
            owed: BTreeMap<String, usize>,
        }
        let mut states = vec![St::default()];
        let mut got_q2: BTreeSet<String> = BTreeSet::new();
        for k in 0..self.scn.sessions.len() {
            let o = &self.out.sess[k];
            if !o.carried {
                states = vec![St::default()];
                got_q2.clear();
            }
            if self.connack(k).is_none() && !self.ev[k].iter().any(|&i| matches!(&self.e(i).k, K::Got(..))) {
                continue;
            }
            let mut g: Vec<Vec<(usize, String)>> = vec![vec![]; nch];
            for &i in &self.ev[k] {
                if let K::Got(ch, key) = &self.e(i).k {
                    g[*ch].push((i, key.clone()));
                    if key.contains(" q2 ") && self.scn.cfg.auto_ack && !got_q2.insert(msg_of(key).to_string()) {
                        viol(v, "C03", "twice", format!("session {k}: the application received {key} again"));
                    }
                }
            }
            let mut next: Vec<St> = vec![];
            let mut first_bad: Option<Vec<Violation>> = None;
            for st0 in &states {
                // with and without a packet carried over
                let mut alts: Vec<Option<String>> = vec![];
                for c in &st0.carry {
                    if g[self.channel(c)].first().is_some_and(|x| x.1 == *c) && !alts.iter().any(|a| a.as_ref() == Some(c)) {
                        alts.push(Some(c.clone()));
                    }
                }
                alts.push(None);
                for taken in alts {
                    let mut st = st0.clone();
                    let mut w: Vec<Violation> = vec![];
                    let v = &mut w;
                    let St { known, carry, owed } = &mut st;
                    let fits = |c: Option<&String>| -> Result<Vec<(usize, String)>, (usize, usize, String, Option<String>)> {
                        let mut kn = known.clone();
                        if let Some(c) = c {
                            if c.contains(" q2 ") {
                                kn.insert(msg_of(c).to_string());
                            }
                        }
                        let ex = self.expected(k, &kn);
                        for ch in 0..nch {
                            let mut want: Vec<&String> = vec![];
                            if let Some(c) = c {
                                if self.channel(c) == ch {
                                    want.push(c);
                                }
                            }
                            want.extend(ex.iter().filter(|x| self.channel(&x.1) == ch).map(|x| &x.1));
                            for (n, (i, key)) in g[ch].iter().enumerate() {
                                if want.get(n) != Some(&key) {
                                    return Err((ch, *i, key.clone(), want.get(n).map(|s| s.to_string())));
                                }
                            }
                        }
                        Ok(ex)
                    };
                    let ex = match fits(taken.as_ref()) {
                        Ok(ex) => Some(ex),
                        Err((ch, i, key, want)) => {
                            let d = format!("session {k}, event {i}: consumer {ch} received {key}, next in order was {want:?}");
                            both(v, &key, "order", d.clone());
                            if let Some(w) = want {
                                if w.contains(" q2 ") && !key.contains(" q2 ") {
                                    viol(v, "C03", "order", d);
                                }
                            }
                            None
                        }
                    };
                    if let Some(ex) = ex {
                    let mut n = vec![0usize; nch];
                    if let Some(c) = &taken {
                        n[self.channel(c)] = 1;
                        owed.remove(msg_of(c));
                        if c.contains(" q2 ") {
                            known.insert(msg_of(c).to_string());
                        }
                    }
                    let skip = n.clone();
                    let mut seen = vec![0usize; nch];
                    carry.clear();
                    let mut blocked = false;
                    for (i, key) in &ex {
                        let ch = self.channel(key);
                        let have = seen[ch] + skip[ch] < g[ch].len();
                        seen[ch] += 1;
                        if have {
                            if key.contains(" q2 ") {
                                known.insert(msg_of(key).to_string());
                            }
                            owed.remove(msg_of(key));
                            continue;
                        }
                        // not handed over
                        if let Some(st) = self.settled(k) {
                            // pings go on when everything else has ceased
                            let late = key.starts_with("PINGRESP") && self.e(*i).t + 1_000_000_000 > self.e(st).t;
                            if *i < st && !late {
                                both(v, key, "lost", format!("session {k}: {key} (event {i}) never reached consumer {ch} although the client was connected and nothing held it up"));
                            }
                        }
                        let dropped = matches!(self.scn.sessions[k].end, CEnd::DropCons(_));
                        if key.starts_with("PUBLISH") && (self.scn.cfg.auto_ack || key.contains(" q0 ")) && (!blocked || dropped) {
                            carry.push(key.clone());
                        }
                        if !dropped {
                            blocked = true;
                        }
                        if self.scn.cfg.auto_ack && !dropped && !key.contains(" q0 ") && key.starts_with("PUBLISH") {
                            // was it acknowledged?
                            let Some(Pk::Publish(p)) = (match &self.e(*i).k {
                                K::Send(p) => Some(p),
                                _ => None,
                            }) else {
                                continue;
                            };
                            let acked = self.ev[k].iter().any(|&j| {
                                j > *i
                                    && match &self.e(j).k {
                                        K::Recv(Pk::PubAck { pid, .. }) => p.qos == 1 && Some(*pid) == p.pid,
                                        K::Recv(Pk::PubRec { pid, .. }) => p.qos == 2 && Some(*pid) == p.pid,
                                        _ => false,
                                    }
                            });
                            // the identifier may have been used before in this session
                            let reused = self.ev[k].iter().any(|&j| {
                                j < *i && matches!(&self.e(j).k, K::Send(Pk::Publish(q)) if q.pid == p.pid && q.qos > 0)
                            });
                            // the one handed over may have been this one
                            let same = taken.as_deref().is_some_and(|t| msg_of(t) == msg_of(key));
                            if acked && !reused && !same {
                                owed.insert(msg_of(key).to_string(), k);
                            }
                        }
                    }
                    // a session that was settled has handed over everything it owed
                    if self.settled(k).is_some() {
                        for (m, s) in std::mem::take(owed) {
                            if s < k {
                                let d = format!("message {m} was acknowledged in session {s} but never handed to the application, not even after the reconnect with the session state");
                                viol(v, "C01", "acknowledged and lost", d.clone());
                                viol(v, "C03", "acknowledged and lost", d);
                            }
                        }
                    }
                    }
                    if w.is_empty() {
                        if !next.contains(&st) && next.len() < 64 {
                            next.push(st);
                        }
                    } else if first_bad.as_ref().is_none_or(|b| b[0].class == "order") {
                        first_bad = Some(w);
                    }
                }
            }
            if next.is_empty() {
                v.extend(first_bad.unwrap_or_default());
                return;
            }
            states = next;
        }
    }

    // ------------------------------------------------------------ C02
    fn c02(&self, v: &mut Vec<Violation>) {
        for k in 0..self.scn.sessions.len() {
            let Some((ca, sp)) = self.connack(k) else { continue };
            if self.scn.cfg.auto_ack {
                let mut want: Vec<(usize, String)> = vec![];
                let mut rel_want: Vec<(usize, u16)> = vec![];
                let mut got: Vec<(usize, String)> = vec![];
                let mut rel_got: Vec<(usize, u16)> = vec![];
                for &i in &self.ev[k] {
                    match &self.e(i).k {
                        K::Send(Pk::Publish(p)) if p.qos == 1 => want.push((i, format!("PUBACK {}", p.pid.unwrap_or(0)))),
                        K::Send(Pk::Publish(p)) if p.qos == 2 => want.push((i, format!("PUBREC {}", p.pid.unwrap_or(0)))),
                        K::Send(Pk::PubRel { pid, .. }) => want.push((i, format!("PUBCOMP {pid}"))),
                        K::Send(Pk::PubRec { pid, reason, .. }) if *reason < 0x80 => rel_want.push((i, *pid)),
                        K::Recv(p) => match p {
                            Pk::PubAck { pid, reason, .. } => got.push((i, self.ack("PUBACK", *pid, *reason))),
                            Pk::PubRec { pid, reason, .. } => got.push((i, self.ack("PUBREC", *pid, *reason))),
                            Pk::PubComp { pid, reason, .. } => got.push((i, self.ack("PUBCOMP", *pid, if *reason == 0x92 { 0 } else { *reason }))),
                            Pk::PubRel { pid, .. } => rel_got.push((i, *pid)),
                            _ => {}
                        },
                        _ => {}
                    }
                }
                for (n, (i, a)) in got.iter().enumerate() {
                    match want.get(n) {
                        Some((j, w)) if w == a && j < i => {}
                        w => {
                            let d = format!("session {k}, event {i}: the client sent {a}, next due was {:?}", w.map(|x| &x.1));
                            viol(v, "C02", "acknowledgement", d.clone());
                            if !a.starts_with("PUBACK") {
                                viol(v, "C03", "acknowledgement", d);
                            }
                            return;
                        }
                    }
                }
                if let Some(st) = self.settled(k) {
                    for (i, w) in want.iter().skip(got.len()).filter(|x| x.0 < st) {
                        let d = format!("session {k}: no {w} for event {i}");
                        viol(v, "C02", "no acknowledgement", d.clone());
                        if !w.starts_with("PUBACK") {
                            viol(v, "C03", "no acknowledgement", d);
                        }
                    }
                }
                // promptly, too, while nothing is in the way
                let f = self.flags(k);
                let b = self.bound(k, &f);
                if !f.srv_impaired && !f.down_stall && !f.cons_impaired {
                    for (n, (j, w)) in want.iter().enumerate() {
                        let t0 = self.e(*j).t;
                        let t1 = got.get(n).map(|x| self.e(x.0).t).or(self.out.sess[k].t_end_act).unwrap_or(t0);
                        if t1 > t0 + b {
                            viol(v, "C05", "acknowledgement delayed", format!("session {k}: {w} for event {j} took {} ms", (t1 - t0) / MS));
                        }
                    }
                }
                // PUBREL
                if !sp {
                    for (n, (i, pid)) in rel_got.iter().enumerate() {
                        match rel_want.get(n) {
                            Some((j, w)) if w == pid && j < i => {}
                            w => {
                                viol(v, "C02", "acknowledgement", format!("session {k}, event {i}: the client sent PUBREL {pid}, next due was {:?}", w.map(|x| x.1)));
                                return;
                            }
                        }
                    }
                }
                if let Some(st) = self.settled(k) {
                    for (i, pid) in rel_want.iter().filter(|x| x.0 < st) {
                        if !rel_got.iter().any(|(j, p)| p == pid && j > i) {
                            viol(v, "C02", "no acknowledgement", format!("session {k}: no PUBREL for the PUBREC of event {i}"));
                        }
                    }
                }
            } else {
                // what was left over from earlier sessions may come first, or never
                let mut want: Vec<(usize, String)> = vec![];
                let mut at: BTreeSet<usize> = BTreeSet::from([0]);
                let mut done: BTreeSet<usize> = BTreeSet::new();
                for &i in (0..=k).flat_map(|q| &self.ev[q]) {
                    if i < ca {
                        if let K::Q(x) = &self.e(i).k {
                            if let Item::Ack(s) = &self.out.items[*x] {
                                want.push((*x, s.clone()));
                            }
                        }
                        continue;
                    }
                    match &self.e(i).k {
                        K::Q(x) => {
                            if let Item::Ack(s) = &self.out.items[*x] {
                                want.push((*x, s.clone()));
                            }
                        }
                        K::QDone(x) => {
                            done.insert(*x);
                        }
                        K::Recv(p @ (Pk::PubAck { .. } | Pk::PubRec { .. } | Pk::PubRel { .. } | Pk::PubComp { .. })) => {
                            let s = p.short();
                            let mut next: BTreeSet<usize> = BTreeSet::new();
                            for &from in &at {
                                for j in from..want.len() {
                                    if want[j].1 == s {
                                        next.insert(j + 1);
                                    }
                                    if !self.offered_before(want[j].0, k) {
                                        break;
                                    }
                                }
                            }
                            if next.is_empty() {
                                let w = at.first().and_then(|n| want.get(*n));
                                viol(v, "C02", "manual", format!("session {k}, event {i}: the client sent {s}, the application's next was {:?}", w.map(|x| &x.1)));
                                return;
                            }
                            at = next;
                        }
                        _ => {}
                    }
                    if Some(i) == self.settled(k) {
                        break;
                    }
                }
                if self.settled(k).is_some() {
                    for (x, s) in want.iter().skip(at.last().copied().unwrap_or(0)) {
                        if done.contains(x) && !self.offered_before(*x, k) {
                            viol(v, "C02", "manual", format!("session {k}: the application's {s} was not sent"));
                        }
                    }
                }
            }
        }
    }
    /// in a session before this one
    fn offered_before(&self, x: usize, k: usize) -> bool {
        (0..k).any(|q| self.ev[q].iter().any(|&i| matches!(self.e(i).k, K::Q(y) if y == x)))
    }
    fn ack(&self, n: &str, pid: u16, reason: u8) -> String {
        if reason < 0x80 {
            format!("{n} {pid}")
        } else {
            format!("{n} {pid} with reason {reason:#04x}")
        }
    }

    // ------------------------------------------------------------ C04, C09
    fn c04_c09(&self, v: &mut Vec<Violation>) {
        let items = &self.out.items;
        let mut by_name: BTreeMap<&str, usize> = BTreeMap::new();
        let mut by_filter: BTreeMap<&str, usize> = BTreeMap::new();
        let mut total_q = 0;
        for (i, it) in items.iter().enumerate() {
            match it {
                Item::Publish { key, qos, .. } => {
                    by_name.insert(key, i);
                    total_q += (*qos > 0) as usize;
                }
                Item::Sub(f) | Item::Unsub(f) => {
                    by_filter.insert(f, i);
                }
                _ => {}
            }
        }
        let qos_of = |i: usize| match &items[i] {
            Item::Publish { qos, .. } => *qos,
            _ => 9,
        };
        // when accepted: (event, session); refused
        let mut acc: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
        let mut refused: BTreeSet<usize> = BTreeSet::new();
        let mut offered: BTreeMap<usize, usize> = BTreeMap::new();
        for (i, e) in self.out.hist.iter().enumerate() {
            match &e.k {
                K::Q(x) => {
                    offered.insert(*x, i);
                }
                K::QDone(x) => {
                    acc.insert(*x, (i, e.conn));
                }
                K::QFail(x) => {
                    refused.insert(*x);
                }
                _ => {}
            }
        }
        // what the server knows
        #[derive(Default, Clone)]
        struct X {
            pid: u16,
            qos: u8,
            /// final acknowledgement offered by the server, at
            fin: Option<usize>,
            rec: Option<usize>,
            rel_seen: bool,
            sess: usize,
        }
        let mut ex: BTreeMap<usize, X> = BTreeMap::new();
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        let mut in2: BTreeMap<u16, usize> = BTreeMap::new();
        let mut accepted2: BTreeSet<usize> = BTreeSet::new();
        let mut cid: Option<String> = None;
        // messages whose fate is open because the session was lost
        let mut excused: BTreeSet<usize> = BTreeSet::new();
        // in a connection that broke: it may have been on its way
        let mut maybe_sent: BTreeSet<usize> = BTreeSet::new();
        // the server began a new session and the client may not know
        let mut unsure = false;
        for k in 0..self.scn.sessions.len() {
            let o = &self.out.sess[k];
            let s = &self.scn.sessions[k];
            if k > 0 && !self.ev[k - 1].iter().any(|&i| matches!(&self.e(i).k, K::Recv(Pk::Disconnect { .. }))) {
                maybe_sent.extend(acc.iter().filter(|a| a.1 .1 < k).map(|a| *a.0));
            }
            if !o.carried {
                // the state of earlier sessions is gone
                excused.extend(acc.iter().filter(|a| a.1 .1 < k).map(|a| *a.0));
                ex.clear();
                in2.clear();
                cid = None;
            }
            if let Some((i, c)) = self.connect(k) {
                if c.clean != s.clean {
                    viol(v, "C09", "clean start", format!("session {k}, event {i}: CONNECT with clean start {}, asked for {}", c.clean, s.clean));
                }
                if o.carried && cid.is_some() && cid.as_deref() != Some(&c.cid) {
                    viol(v, "C09", "client id", format!("session {k}, event {i}: CONNECT with client id {:?} with the state of a session of {:?}", c.cid, cid));
                }
                let e = if self.scn.cfg.empty_cid { "" } else { "sut" };
                if !o.carried && c.cid != e {
                    viol(v, "C09", "client id", format!("session {k}, event {i}: CONNECT with client id {:?}, asked for {e:?}", c.cid));
                }
            }
            let Some((ca, sp)) = self.connack(k) else { continue };
            if !o.saw_connected {
                // it may not know
                cid = None;
            } else if let K::Send(Pk::ConnAck { props, .. }) = &self.e(ca).k {
                cid = props
                    .iter()
                    .find_map(|(i, x)| match x {
                        PV::Str(s) if *i == 0x12 => Some(s.clone()),
                        _ => None,
                    })
                    .or_else(|| self.connect(k).map(|c| c.1.cid.clone()));
            }
            let resumed = sp && o.carried;
            if !resumed {
                unsure = o.carried && !o.saw_connected || unsure && !o.saw_connected;
                // exchanges of earlier connections are dead
                for (x, (i, ys)) in &acc {
                    if *i < ca && *ys < k && (seen.contains(x) || maybe_sent.contains(x)) {
                        excused.insert(*x);
                    }
                }
                ex.clear();
                in2.clear();
            }
            let mut open: BTreeMap<u16, usize> = BTreeMap::new();
            for (x, e) in &ex {
                // the last one with the identifier
                if open.get(&e.pid).is_none_or(|y| ex[y].fin.is_some()) {
                    open.insert(e.pid, *x);
                }
            }
            let mut missing2: BTreeSet<usize> = acc.iter().filter(|(y, a)| a.1 == k && matches!(items[**y], Item::Sub(_) | Item::Unsub(_))).map(|a| *a.0).collect();
            // accepted and not seen
            let mut missing: BTreeSet<usize> = acc.keys().copied().filter(|y| !seen.contains(y) && !excused.contains(y) && qos_of(*y) < 9).collect();
            let old: BTreeMap<usize, X> = ex.clone();
            let mut here: BTreeSet<usize> = BTreeSet::new();
            let mut last_pub: Option<usize> = None;
            let mut last_other: Option<usize> = None;
            let mut last_any: Option<usize> = None;
            let mut rel_here: BTreeSet<u16> = BTreeSet::new();
            let mut pids_here: BTreeSet<u16> = BTreeSet::new();
            let total_order = self.rmax(k) > total_q && self.scn.cfg.auto_ack;
            for &i in &self.ev[k] {
                match &self.e(i).k {
                    K::Send(Pk::PubAck { pid, .. }) => {
                        for x in open.get(pid).and_then(|x| ex.get_mut(x)).into_iter().filter(|x| x.qos == 1 && x.fin.is_none()) {
                            x.fin = Some(i);
                        }
                    }
                    K::Send(Pk::PubRec { pid, reason, .. }) => {
                        for x in open.get(pid).and_then(|x| ex.get_mut(x)).into_iter().filter(|x| x.qos == 2 && x.fin.is_none()) {
                            if *reason >= 0x80 {
                                x.fin = Some(i);
                            } else {
                                x.rec = Some(i);
                            }
                        }
                    }
                    K::Send(Pk::PubComp { pid, .. }) => {
                        for x in open.get(pid).and_then(|x| ex.get_mut(x)).into_iter().filter(|x| x.qos == 2 && x.fin.is_none()) {
                            x.fin = Some(i);
                        }
                    }
                    K::Recv(Pk::PubRel { pid, .. }) => {
                        rel_here.insert(*pid);
                        in2.remove(pid);
                        for x in open.get(pid).and_then(|x| ex.get_mut(x)).into_iter().filter(|x| x.qos == 2) {
                            x.rel_seen = true;
                        }
                        if self.scn.cfg.auto_ack && !unsure && !pids_here.contains(pid) && !(resumed && old.values().any(|x| x.pid == *pid && x.qos == 2)) {
                            viol(v, "C09", "dead exchange", format!("session {k}, event {i}: PUBREL {pid} for an exchange that does not exist in this session"));
                        }
                    }
                    K::Recv(Pk::Publish(p)) => {
                        let (name, content) = wire_content(p);
                        let Some(&x) = by_name.get(name.as_str()) else {
                            viol(v, "C04", "content", format!("session {k}, event {i}: the client published {name}, which the application never offered"));
                            continue;
                        };
                        let Item::Publish { qos, pid, content: want, .. } = &items[x] else { continue };
                        if refused.contains(&x) {
                            viol(v, "C04", "refused", format!("session {k}, event {i}: {name} was sent although the channel refused it"));
                        }
                        if *want != content || *qos != p.qos {
                            viol(v, "C04", "content", format!("session {k}, event {i}: {name} was sent as q{} {content}, offered as q{qos} {want}", p.qos));
                        }
                        if !here.insert(x) {
                            viol(v, "C04", "twice", format!("session {k}, event {i}: {name} was sent twice on one connection"));
                        }
                        if p.qos > 0 {
                            let id = p.pid.unwrap_or(0);
                            if id == 0 || pid.is_some_and(|y| y != id) {
                                viol(v, "C04", "identifier", format!("session {k}, event {i}: {name} with packet identifier {id}, offered with {pid:?}"));
                            }
                            for (y, e) in open.get(&id).and_then(|y| ex.get_key_value(y)) {
                                if *y != x && e.fin.is_none() {
                                    let d = format!("session {k}, event {i}: {name} uses packet identifier {id}, which is in use by {:?}", items[*y]);
                                    if e.sess < k {
                                        viol(v, "C09", "identifier in use", d.clone());
                                    }
                                    viol(v, "C04", "identifier in use", d);
                                }
                            }
                            pids_here.insert(id);
                            open.insert(id, x);
                            match old.get(&x) {
                                Some(e) => {
                                    if !p.dup || e.pid != id {
                                        viol(v, "C09", "resend", format!("session {k}, event {i}: {name} sent again with identifier {id}, dup {}; it had identifier {}", p.dup, e.pid));
                                    }
                                    let processed = |at: Option<usize>| at.is_some_and(|at| self.settled(self.e(at).conn).is_some_and(|st| at < st));
                                    if processed(e.fin) {
                                        viol(v, "C09", "sent again", format!("session {k}, event {i}: {name} was acknowledged (event {:?}) and is sent again", e.fin));
                                    }
                                    if e.qos == 2 && (e.rel_seen || processed(e.rec)) {
                                        viol(v, "C09", "sent again", format!("session {k}, event {i}: {name} was received (PUBREC, event {:?}) and is published again instead of continued with PUBREL", e.rec));
                                    }
                                }
                                None => {
                                    if unsure {
                                        // either is fine
                                    } else if seen.contains(&x) {
                                        viol(v, "C09", "dead exchange", format!("session {k}, event {i}: {name} is sent again in a session the server does not know"));
                                    } else if p.dup && !resumed {
                                        viol(v, "C09", "dead exchange", format!("session {k}, event {i}: {name} with DUP in a session without earlier exchanges"));
                                    } else if p.dup && acc.get(&x).is_some_and(|a| a.1 == k) {
                                        viol(v, "C04", "dup", format!("session {k}, event {i}: {name} is sent for the first time, with DUP"));
                                    }
                                }
                            }
                            let e = ex.entry(x).or_insert(X { pid: id, qos: p.qos, sess: k, ..Default::default() });
                            e.pid = id;
                            if e.fin.is_some() {
                                // sent again: acknowledged again
                                e.fin = None;
                            }
                            if p.qos == 2 && !in2.contains_key(&id) {
                                let failing = self.ev[k].iter().find_map(|&j| match &self.e(j).k {
                                    K::Send(Pk::PubRec { pid, reason, .. }) if j > i && *pid == id => Some(*reason >= 0x80),
                                    _ => None,
                                });
                                let may_fail = s.acts.iter().any(|a| matches!(a, Act::SAck(AckM::Fail(_))));
                                if failing == Some(false) || failing.is_none() && !may_fail {
                                    in2.insert(id, x);
                                    if !accepted2.insert(x) {
                                        viol(v, "C09", "published twice", format!("session {k}, event {i}: the server accepts {name} (QoS 2) a second time"));
                                    }
                                }
                            }
                        } else {
                            if p.dup {
                                viol(v, "C04", "dup", format!("session {k}, event {i}: QoS 0 {name} with DUP"));
                            }
                            if seen.contains(&x) {
                                viol(v, "C04", "twice", format!("session {k}, event {i}: QoS 0 {name} was sent twice"));
                            }
                        }
                        if let Some(l) = last_pub {
                            if x < l {
                                let d = format!("session {k}, event {i}: {name} after {:?}", items[l]);
                                viol(v, "C04", "order", d.clone());
                                if old.contains_key(&x) || old.contains_key(&l) {
                                    viol(v, "C09", "order", d);
                                }
                            }
                        }
                        last_pub = Some(x);
                        if total_order && !resumed {
                            if let Some(l) = last_any {
                                if x < l && qos_of(l) == 9 {
                                    viol(v, "C04", "order", format!("session {k}, event {i}: {name} after {:?}", items[l]));
                                }
                            }
                        }
                        last_any = Some(last_any.map_or(x, |l: usize| l.max(x)));
                        // nothing may be left out
                        missing.remove(&x);
                        for y in missing.range(..x).copied().collect::<Vec<_>>() {
                            let (at, ys) = acc[&y];
                            if ys < k && qos_of(y) == 0 {
                                continue;
                            }
                            viol(v, "C04", "lost", format!("session {k}, event {i}: {name} is sent, {:?} offered before (event {at}) has not been", items[y]));
                            missing.remove(&y);
                            excused.insert(y);
                        }
                        seen.insert(x);
                    }
                    K::Recv(p @ (Pk::Subscribe { .. } | Pk::Unsub { .. })) => {
                        let f = req_key(p);
                        let Some(&x) = by_filter.get(f.as_str()) else {
                            viol(v, "C04", "content", format!("session {k}, event {i}: {} was never offered", p.short()));
                            continue;
                        };
                        if !here.insert(x) {
                            viol(v, "C04", "twice", format!("session {k}, event {i}: {} was sent twice", p.short()));
                        }
                        if last_other.is_some_and(|l| x < l) || (total_order && !resumed && last_any.is_some_and(|l| x < l)) {
                            viol(v, "C04", "order", format!("session {k}, event {i}: {} after {:?}", p.short(), last_any.map(|l| &items[l])));
                        }
                        missing2.remove(&x);
                        for y in missing2.range(..x) {
                            viol(v, "C04", "lost", format!("session {k}, event {i}: {} is sent, {:?} offered before has not been", p.short(), items[*y]));
                        }
                        last_other = Some(x);
                        last_any = Some(last_any.map_or(x, |l: usize| l.max(x)));
                    }
                    K::Recv(Pk::Disconnect { .. }) => {
                        // everything accepted before is on the wire
                        let stop_at = self.ev[k].iter().copied().find(|&j| matches!(&self.e(j).k, K::App(a) if a == "stop"));
                        let before = match s.end {
                            CEnd::ProdDisc => offered.iter().find(|(x, _)| items[**x] == Item::Disconnect && self.out.hist[offered[*x]].conn == k).map(|x| *x.1),
                            _ => stop_at,
                        };
                        let Some(before) = before else {
                            viol(v, "C08", "disconnect", format!("session {k}, event {i}: a DISCONNECT that the application did not ask for"));
                            continue;
                        };
                        let f = self.flags(k);
                        let late = self.bound(k, &f);
                        // acknowledgements that may not have arrived yet leave the client less room
                        let t = self.e(before).t;
                        let mut room = self.rmax(k) as i64;
                        for (_, e) in &ex {
                            let over = |j: usize| self.e(j).conn == k && self.e(j).t + late < t || self.e(j).conn < k && self.settled(self.e(j).conn).is_some_and(|st| j < st);
                            if (e.sess == k || resumed) && !e.fin.is_some_and(over) {
                                room -= 1;
                            }
                        }
                        let waits = room <= 0 || f.cons_impaired || f.down_stall || !self.scn.cfg.auto_ack && self.rmax(k) < 65535;
                        for (y, (at, ys)) in &acc {
                            if *at >= before || here.contains(y) || seen.contains(y) || excused.contains(y) {
                                continue;
                            }
                            let must = match &items[*y] {
                                Item::Publish { .. } => !waits,
                                Item::Sub(_) | Item::Unsub(_) => *ys == k,
                                _ => false,
                            };
                            if must && (*ys == k || qos_of(*y) > 0) {
                                viol(v, "C04", "not sent before DISCONNECT", format!("session {k}, event {i}: DISCONNECT was sent, {:?} accepted before (event {at}) was not", items[*y]));
                            }
                        }
                    }
                    _ => {}
                }
            }
            let Some(st) = self.settled(k) else { continue };
            // everything has been dealt with
            let app_pings = acc.iter().filter(|(x, a)| items[**x] == Item::Ping && a.1 == k && a.0 < st).count();
            let pings = self.ev[k].iter().filter(|&&i| i < st && matches!(&self.e(i).k, K::Recv(Pk::PingReq))).count();
            if pings < app_pings {
                viol(v, "C04", "lost", format!("session {k}: the application sent {app_pings} PINGREQ, the server received {pings}"));
            }
            for (y, (at, ys)) in &acc {
                if *at >= st || here.contains(y) || seen.contains(y) || excused.contains(y) {
                    continue;
                }
                if !self.scn.cfg.auto_ack && self.rmax(k) < 65535 && k > 0 {
                    // the exchanges before are the application's to continue
                    continue;
                }
                let must = match &items[*y] {
                    Item::Publish { qos, .. } => *ys == k || *qos > 0,
                    Item::Sub(_) | Item::Unsub(_) => *ys == k,
                    _ => false,
                };
                if must {
                    let d = format!("session {k}: {:?} (accepted at event {at}) was never sent", items[*y]);
                    if *ys < k {
                        viol(v, "C09", "lost", d.clone());
                    }
                    viol(v, "C04", "lost", d.clone());
                    if self.rmax(k) < 65535 {
                        viol(v, "C05", "no progress", d);
                    }
                }
            }
            {
                for (x, e) in &old {
                    if e.fin.is_some() || here.contains(x) {
                        continue;
                    }
                    if e.qos == 2 && e.rec.is_some() {
                        if self.scn.cfg.auto_ack && !rel_here.contains(&e.pid) {
                            viol(v, "C09", "not continued", format!("session {k}: {:?}, which the server received and which was not completed, is neither continued with PUBREL nor sent again", items[*x]));
                        }
                    } else if self.scn.cfg.auto_ack || self.rmax(k) == 65535 {
                        viol(v, "C09", "not sent again", format!("session {k}: {:?}, which was not acknowledged, is not sent again", items[*x]));
                    }
                }
            }
            if self.scn.cfg.auto_ack {
                for (x, e) in &ex {
                    if e.fin.is_none() && here.contains(x) {
                        self.tagged(v, "incomplete exchange", format!("session {k}: the exchange for {:?} was not completed", items[*x]));
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------ C05
    fn c05(&self, v: &mut Vec<Violation>) {
        for k in 0..self.scn.sessions.len() {
            let Some((ca, sp)) = self.connack(k) else { continue };
            let max = self.rmax(k);
            let mut infl: BTreeSet<u16> = BTreeSet::new();
            let mut sent = 0usize;
            // times at which the server offered an acknowledgement that ends an exchange
            let mut done: Vec<u64> = vec![];
            let f = self.flags(k);
            let b = self.bound(k, &f);
            let mut acc: BTreeMap<usize, u64> = BTreeMap::new();
            let names: BTreeMap<&str, usize> = self
                .out
                .items
                .iter()
                .enumerate()
                .filter_map(|(i, x)| if let Item::Publish { key, .. } = x { Some((key.as_str(), i)) } else { None })
                .collect();
            let filters: BTreeMap<&str, usize> = self
                .out
                .items
                .iter()
                .enumerate()
                .filter_map(|(i, x)| if let Item::Sub(f) | Item::Unsub(f) = x { Some((f.as_str(), i)) } else { None })
                .collect();
            let judge = !f.srv_impaired && !sp && !self.out.sess[k].carried;
            let t_up = self.e(ca).t;
            let mut arrived: BTreeSet<usize> = BTreeSet::new();
            let late = |v: &mut Vec<Violation>, i: usize, x: usize, d: u64| {
                let p = if f.cons_impaired { "C01" } else { "C05" };
                viol(v, p, "delayed", format!("session {k}, event {i}: {:?} was sent {} ms after it could have been", self.out.items[x], d / MS));
            };
            for &i in &self.ev[k] {
                let t = self.e(i).t;
                match &self.e(i).k {
                    K::QDone(x) => {
                        acc.insert(*x, t);
                    }
                    K::Send(Pk::PubAck { pid, .. }) | K::Send(Pk::PubComp { pid, .. }) => {
                        if infl.remove(pid) {
                            done.push(t);
                        }
                    }
                    K::Send(Pk::PubRec { pid, reason, .. }) if *reason >= 0x80 => {
                        if infl.remove(pid) {
                            done.push(t);
                        }
                    }
                    K::Recv(Pk::Publish(p)) => {
                        let x = names.get(wire_content(p).0.as_str()).copied();
                        if let Some(x) = x {
                            arrived.insert(x);
                        }
                        if p.qos > 0 {
                            infl.insert(p.pid.unwrap_or(0));
                            sent += 1;
                            if infl.len() > max {
                                viol(v, "C05", "exceeded", format!("session {k}, event {i}: {} publishes in flight, the receive maximum is {max}", infl.len()));
                            }
                        }
                        if !judge || f.down_stall && self.rmax(k) < 65535 {
                            continue;
                        }
                        let free = if sent > max { done.get(sent - max - 1).copied() } else { Some(0) };
                        // what is read late frees the way late
                        if sent > max && f.cons_impaired {
                            continue;
                        }
                        if let (Some(x), Some(free)) = (x, free) {
                            if let Some(a) = acc.get(&x) {
                                let t0 = (*a).max(free).max(t_up);
                                if t > t0 + b {
                                    late(v, i, x, t - t0);
                                }
                            }
                        }
                    }
                    K::Recv(p @ (Pk::Subscribe { .. } | Pk::Unsub { .. })) if judge => {
                        let fl = req_key(p);
                        if let Some(x) = filters.get(fl.as_str()) {
                            arrived.insert(*x);
                            if let Some(a) = acc.get(x) {
                                let t0 = (*a).max(t_up);
                                if t > t0 + b {
                                    late(v, i, *x, t - t0);
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            // what has not arrived at all until the session was ended
            if judge {
                if let Some(te) = self.out.sess[k].t_end_act {
                    let mut nq = 0usize;
                    for (x, a) in &acc {
                        let (q, other) = match &self.out.items[*x] {
                            Item::Publish { qos, .. } => (*qos > 0, false),
                            Item::Sub(_) | Item::Unsub(_) => (false, true),
                            _ => continue,
                        };
                        if q {
                            nq += 1;
                        }
                        if arrived.contains(x) {
                            continue;
                        }
                        let free = if other || nq <= max { 0 } else if f.cons_impaired || f.down_stall { u64::MAX } else { done.get(nq - max - 1).copied().unwrap_or(u64::MAX) };
                        if free == u64::MAX {
                            continue;
                        }
                        let t0 = (*a).max(free).max(t_up);
                        if te > t0 + b {
                            late(v, 0, *x, te - t0);
                        }
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------ C06
    fn c06(&self, v: &mut Vec<Violation>) {
        for k in 0..self.scn.sessions.len() {
            let Some((ca, _)) = self.connack(k) else { continue };
            let o = &self.out.sess[k];
            let Some((ci, c)) = self.connect(k) else { continue };
            let want = self.scn.cfg.ka.min(65535) as u16;
            let kept = o.carried && self.scn.sessions[k].keep;
            if c.ka != want && !kept {
                viol(v, "C06", "requested", format!("session {k}, event {ci}: CONNECT with keep-alive {}, the application asked for {}", c.ka, self.scn.cfg.ka));
            }
            let ka = match &self.scn.sessions[k].hs {
                Hs::Ok { ka: Some(x), .. } => *x,
                _ => c.ka,
            };
            let until = o.t_end_act.unwrap_or(u64::MAX).min(o.t_ended.unwrap_or(u64::MAX));
            let app = self.ev[k].iter().filter(|&&i| matches!(&self.e(i).k, K::Q(x) if self.out.items[*x] == Item::Ping)).count();
            if !self.scn.cfg.ka_on || ka == 0 {
                let n = self.ev[k].iter().filter(|&&i| matches!(&self.e(i).k, K::Recv(Pk::PingReq))).count();
                if n > app {
                    viol(v, "C06", "ping though off", format!("session {k}: {n} PINGREQ although keep-alive is off (the application sent {app})"));
                }
                continue;
            }
            let f = self.flags(k);
            if f.srv_impaired || until == u64::MAX {
                continue;
            }
            let slack = self.bound(k, &f) - S;
            let mut last = self.e(ca).t;
            let mut at = ca;
            let lim = ka as u64 * S + slack;
            for &i in &self.ev[k] {
                if i <= ca {
                    continue;
                }
                let e = self.e(i);
                if e.t > until {
                    break;
                }
                if let K::Recv(_) = &e.k {
                    if e.t > last + lim {
                        viol(v, "C06", "gap", format!("session {k}: nothing from the client for {} ms (events {at} to {i}), the keep-alive is {ka} s", (e.t - last) / MS));
                    }
                    last = last.max(e.t);
                    at = i;
                }
            }
            if until > last + lim {
                viol(v, "C06", "gap", format!("session {k}: nothing from the client for {} ms (event {at} to the end), the keep-alive is {ka} s", (until - last) / MS));
            }
        }
    }

    // ------------------------------------------------------------ C07
    fn c07(&self, v: &mut Vec<Violation>) {
        for (k, o) in self.out.sess.iter().enumerate() {
            let s = &self.scn.sessions[k];
            if !o.started {
                continue;
            }
            let d = s.try_wait.unwrap_or(u32::MAX).min(self.scn.cfg.wait) as u64 * MS;
            let slack = 800 * MS + 2 * self.lat;
            let Some(r) = &o.start else {
                viol(v, "C07", "no answer", format!("session {k}: start did not return"));
                continue;
            };
            let took = o.t_started - o.t_start;
            if took > d + slack {
                viol(v, "C07", "late", format!("session {k}: start returned after {} ms, the wait is {} ms", took / MS, d / MS));
            }
            // the server's answer in time?
            let rtt = 8 * self.lat + 300 * MS;
            let refusal = match &s.hs {
                Hs::Refuse { reason, delay, .. } if s.net == 0 && *delay as u64 * MS + rtt < d => Some(*reason),
                _ => None,
            };
            let answered = match &s.hs {
                Hs::Ok { delay, .. } => s.net == 0 && *delay as u64 * MS + rtt < d,
                _ => false,
            };
            let ended_at_once = o.t_ended.is_some_and(|t| t <= o.t_started + 200 * MS);
            match (r, s.try_wait) {
                (Ok(()), Some(_)) => {
                    if o.t_connack.is_none() {
                        viol(v, "C07", "not connected", format!("session {k}: try_start succeeded, the server never accepted"));
                    }
                    if !o.connected_at_start && !ended_at_once {
                        viol(v, "C07", "flag", format!("session {k}: try_start succeeded and the client says it is not connected"));
                    }
                }
                (Ok(()), None) => {
                    if s.net != 0 {
                        viol(v, "C07", "not connected", format!("session {k}: start succeeded without a connection"));
                    }
                    // the handle tells
                    let limit = o.t_start + d + slack;
                    if o.t_connack.is_none() {
                        match (&o.result, o.t_ended) {
                            (Some(Err(_)), Some(t)) if t <= limit => {}
                            x => viol(v, "C07", "late", format!("session {k}: the server never accepted, the client task's result was {x:?}, the wait is {} ms", d / MS)),
                        }
                    }
                    if let Some(reason) = refusal {
                        self.reason(v, k, reason, o.result.as_ref().and_then(|r| r.as_ref().err()));
                    }
                    if answered && o.early && !o.result.as_ref().is_some_and(|r| r.is_ok()) && o.t_ended.is_some_and(|t| t <= limit) && self.scn.tag == "C07" {
                        viol(v, "C07", "failed", format!("session {k}: the server accepted in time, the client task ended with {:?}", o.result));
                    }
                }
                (Err(e), _) => {
                    if o.connected_at_start {
                        viol(v, "C07", "flag", format!("session {k}: start failed and the client says it is connected"));
                    }
                    if answered {
                        viol(v, "C07", "failed", format!("session {k}: the server accepted in time, start failed with {e:?}"));
                    }
                    if let (Some(reason), Some(_)) = (refusal, s.try_wait) {
                        self.reason(v, k, reason, Some(e));
                    }
                    if o.open_after_fail == Some(true) {
                        viol(v, "C07", "left open", format!("session {k}: start failed, its connection stays open"));
                    }
                }
            }
        }
    }
    fn reason(&self, v: &mut Vec<Violation>, k: usize, reason: u8, e: Option<&(ErrorKind, String)>) {
        match e {
            Some((ErrorKind::Protocol(r), _)) if *r as u8 == reason => {}
            e => viol(v, "C07", "reason", format!("session {k}: refused with {reason:#04x}, reported as {e:?}")),
        }
    }

    // ------------------------------------------------------------ C10
    fn c10(&self, v: &mut Vec<Violation>) {
        // what the session state may hold: keep-alive, session expiry, identifier
        let mut ka: Vec<u64> = vec![];
        let mut exp: Vec<u64> = vec![];
        let mut cids: Vec<String> = vec![];
        let cfg = &self.scn.cfg;
        for (k, s) in self.scn.sessions.iter().enumerate() {
            let o = &self.out.sess[k];
            if !o.started {
                continue;
            }
            if !o.carried {
                ka.clear();
                exp.clear();
                cids = vec![if cfg.empty_cid { String::new() } else { "sut".into() }];
            }
            if !(o.carried && s.keep) {
                ka = vec![cfg.ka as u64];
                if let Some(x) = s.exp {
                    exp = vec![x as u64];
                }
            }
            let Some((i, c)) = self.connect(k) else {
                if let Some((j, e)) = self.ev[k].iter().find_map(|&j| match &self.e(j).k {
                    K::Undecodable(e) => Some((j, e.clone())),
                    _ => None,
                }) {
                    viol(v, "C10", "malformed", format!("session {k}, event {j}: the CONNECT cannot be decoded: {e}"));
                }
                continue;
            };
            let mut bad = |class: &str, d: String| viol(v, "C10", class, format!("session {k}, event {i}: {d}"));
            if !cids.contains(&c.cid) {
                bad("client id", format!("CONNECT with client id {:?}, should be one of {cids:?}", c.cid));
            }
            if c.clean != s.clean {
                bad("clean start", format!("CONNECT with clean start {}, asked for {}", c.clean, s.clean));
            }
            if !ka.iter().any(|x| (*x).min(65535) == c.ka as u64) {
                bad("keep-alive", format!("CONNECT with keep-alive {}, should be {ka:?}", c.ka));
            }
            let e = c.props.iter().find_map(|x| match x {
                (0x11, PV::U32(x)) => Some(*x as u64),
                _ => None,
            });
            let e = e.unwrap_or(0);
            if !exp.is_empty() && !exp.contains(&e) {
                bad("session expiry", format!("CONNECT with session expiry {e}, should be {exp:?}"));
            }
            let rmax = c.props.iter().find_map(|x| match x {
                (0x21, PV::U16(x)) => Some(*x),
                _ => None,
            });
            let want = if cfg.rmax > 0 { cfg.rmax } else { 65535 };
            if cfg.rmax0 {
                // anything but 0 will do
                if rmax == Some(0) {
                    bad("receive maximum", "CONNECT with receive maximum 0".into());
                }
            } else if rmax.unwrap_or(65535) != want {
                bad("receive maximum", format!("CONNECT with receive maximum {rmax:?}, should be {want}"));
            }
            if let Some(x) = c.props.iter().find(|x| !matches!(x.0, 0x11 | 0x21)) {
                bad("property", format!("CONNECT with property {:#04x}, which was not asked for", x.0));
            }
            let a = auth(s.auth);
            let got = (c.user.clone(), c.pass.clone());
            let want = (a.as_ref().map(|x| x.0.clone()), a.as_ref().map(|x| x.1.clone().into_bytes()));
            if got != want {
                bad("credentials", format!("CONNECT with user {:?} and password {:?}, should be {:?}", got.0, got.1.map(|x| x.len()), a.map(|x| x.0)));
            }
            let w = s.will.as_ref().map(|w| will_pk(w, k));
            let form = |w: &WillP| (w.topic.clone(), w.qos, w.retain, canon(&w.props), w.payload.clone());
            if w.as_ref().map(form) != c.will.as_ref().map(form) {
                bad("will", format!("CONNECT with will {:?}, should be {w:?}", c.will));
            }
            // what the server makes of it
            let Some((_, _)) = self.connack(k) else {
                // it may have arrived all the same
                exp.push(e);
                ka.push(c.ka as u64);
                continue;
            };
            let ska = match &s.hs {
                Hs::Ok { ka, .. } => *ka,
                _ => None,
            };
            let sexp = s.sexp;
            let eka = ska.unwrap_or(c.ka) as u64;
            let eexp = sexp.map(|x| x as u64).unwrap_or(e);
            let given = self.connack(k).and_then(|(ca, _)| match &self.e(ca).k {
                K::Send(Pk::ConnAck { props, .. }) => props.iter().find_map(|x| match x {
                    (0x12, PV::Str(x)) => Some(x.clone()),
                    _ => None,
                }),
                _ => None,
            });
            if let Some((rk, re)) = o.neg {
                if rk != eka {
                    bad("reported", format!("the client says the keep-alive is {rk}, the server's is {eka}"));
                }
                if re != eexp {
                    bad("reported", format!("the client says the session expiry is {re}, the server's is {eexp}"));
                }
                ka = vec![eka];
                exp = vec![eexp];
                if let Some(g) = given {
                    cids = vec![g];
                }
            } else {
                ka.extend([c.ka as u64, eka]);
                exp.extend([e, eexp]);
                cids.extend(given);
            }
        }
    }

    // ------------------------------------------------------------ C08
    fn c08(&self, v: &mut Vec<Violation>) {
        for (k, o) in self.out.sess.iter().enumerate() {
            let s = &self.scn.sessions[k];
            if o.panicked {
                viol(v, "C08", "panic", format!("session {k}: a task of the client panicked"));
                continue;
            }
            if o.start != Some(Ok(())) || o.t_connack.is_none() {
                if let (Some(Ok(())), Some(true)) = (&o.start, o.open_after) {
                    viol(v, "C07", "left open", format!("session {k}: the client task failed to connect, its connection stays open"));
                }
                continue;
            }
            if o.early {
                // the handshake itself may end it when the CONNACK was too late
                let late = match &s.hs {
                    Hs::Ok { delay, .. } => {
                        let d = s.try_wait.unwrap_or(u32::MAX).min(self.scn.cfg.wait) as u64 * MS;
                        *delay as u64 * MS + 8 * self.lat + 300 * MS >= d
                    }
                    _ => true,
                };
                if !late {
                    self.tagged(v, "ended without a reason", format!("session {k}: the client task ended with {:?} although nothing was wrong", o.result));
                }
                continue;
            }
            let f = self.flags(k);
            let b = self.bound(k, &f) + 10 * S;
            let Some(te) = o.t_ended else {
                viol(v, "C08", "does not end", format!("session {k}: the client task was still running 120 s after {:?}", s.end));
                continue;
            };
            let t0 = o.t_end_act.unwrap_or(0).max(if matches!(s.end, CEnd::Stop | CEnd::HalfOpenStop) { 0 } else { o.t_free });
            if te > t0 + b {
                viol(v, "C08", "late", format!("session {k}: the client task ended {} ms after {:?}", (te - t0) / MS, s.end));
            }
            if o.connected_after != Some(false) {
                viol(v, "C08", "flag", format!("session {k}: the client task has ended, connected is {:?}", o.connected_after));
            }
            if o.open_after == Some(true) {
                viol(v, "C08", "left open", format!("session {k}: the client task has ended, its connection is open"));
            }
            let disc = self.ev[k].iter().any(|&i| matches!(&self.e(i).k, K::Recv(Pk::Disconnect { .. })));
            let r = o.result.as_ref();
            let bad = |v: &mut Vec<Violation>, w: &str| {
                viol(v, "C08", "result", format!("session {k}: {:?} gave {r:?} (DISCONNECT received: {disc}), should be {w}", s.end));
            };
            match &s.end {
                CEnd::Stop | CEnd::ProdDisc => {
                    // the client gives the server five seconds to take what precedes the DISCONNECT
                    let hold = f.srv_impaired && s.end == CEnd::Stop || f.cli_stall || self.bound(k, &f) > 5 * S;
                    if disc && r != Some(&Ok(())) || (!disc && !hold) {
                        bad(v, "success and a DISCONNECT");
                    }
                }
                CEnd::HalfOpenStop => {}
                CEnd::SDisc(reason) => {
                    let sure = !self.ev[k].iter().any(|&i| i < o.i_ended && matches!(&self.e(i).k, K::Close | K::Rst | K::HalfOpen));
                    match r {
                        Some(Err((ErrorKind::Protocol(x), _))) if *x as u8 == *reason => {}
                        Some(Err(_)) if !sure => {}
                        _ => bad(v, "the reason code"),
                    }
                }
                CEnd::DropCons(_) if o.stop_ret.is_some() => {}
                _ => {
                    if !r.is_some_and(|r| r.is_err()) {
                        bad(v, "an error");
                    }
                }
            }
        }
    }
}

/// Which properties the run gave something to decide.
pub fn reached(scn: &CScn, out: &COut) -> BTreeSet<&'static str> {
    let mut s = BTreeSet::new();
    let c = CO::new(scn, out);
    let mut q2 = BTreeSet::new();
    for e in &out.hist {
        match &e.k {
            K::Got(..) => {
                s.insert("C01");
            }
            K::Send(Pk::Publish(p)) if p.qos > 0 => {
                s.insert("C02");
                if p.qos == 2 && (p.dup || !q2.insert(p.pid)) {
                    s.insert("C03");
                }
            }
            K::Recv(Pk::Publish(p)) => {
                s.insert("C04");
                if p.dup {
                    s.insert("C09");
                }
                if p.qos > 0 && e.conn < scn.sessions.len() && c.rmax(e.conn) < 65535 {
                    s.insert("C05");
                }
            }
            K::Recv(Pk::PingReq) => {
                s.insert("C06");
            }
            K::Recv(Pk::Connect(_)) => {
                s.insert("C10");
            }
            _ => {}
        }
    }
    for (k, o) in out.sess.iter().enumerate() {
        if o.start.is_some() {
            s.insert("C07");
        }
        if o.result.is_some() && o.t_connack.is_some() {
            s.insert("C08");
        }
        if o.carried && k > 0 && o.sp {
            s.insert("C09");
        }
    }
    s
}
