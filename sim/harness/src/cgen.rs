//! Seeded generators of client scenarios, one per property.
use crate::bgen::{knobs, pick};
use crate::bscn::WillSpec;
use crate::cscn::*;
use tokio::sim::Rng;

pub fn for_property(p: &str, r: &mut Rng, k: u64) -> CScn {
    let mut s = match p {
        "C01" => c01(r),
        "C02" => c02(r),
        "C03" => c03(r),
        "C04" => c04(r, k),
        "C05" => c05(r),
        "C06" => c06(r),
        "C07" => c07(r),
        "C08" => c08(r),
        "C10" => c10(r),
        _ => c09(r),
    };
    if k % 2000 != 1999 && matches!(p, "C01" | "C02" | "C03" | "C04" | "C05" | "C08" | "C09") && r.chance(0.05) {
        widen(r, &mut s);
    }
    if k % 2000 != 1999 && (r.chance(if p == "C08" { 0.1 } else { 0.03 }) || std::env::var("VSIM_TLS").is_ok()) {
        s.cfg.tls = true;
        for ss in s.sessions.iter_mut() {
            // the handshake has to get through in the time there is
            for w in [&mut ss.win.0, &mut ss.win.1] {
                if *w > 0 {
                    *w = (*w).max(300);
                }
            }
        }
    }
    s.tag = p.to_string();
    s
}

/// the same with long bursts, big messages, long topics, many filters, a large receive maximum
fn widen(r: &mut Rng, s: &mut CScn) {
    s.knobs.jitter_us = s.knobs.jitter_us.min(500);
    s.knobs.latency_us = s.knobs.latency_us.min(1000);
    s.knobs.split_p = 0.0;
    s.knobs.window = 65536;
    for ss in s.sessions.iter_mut() {
        ss.win = (0, 0);
    }
    if r.chance(0.4) {
        s.cfg.wide = *pick(r, &[20, 130, 256, 300, 2000]);
    }
    if r.chance(0.3) {
        s.cfg.rmax = *pick(r, &[100, 127, 128, 255, 256, 300, 40_000]);
    }
    if r.chance(0.4) {
        let m = *pick(r, &[64u16, 100, 127, 128, 255, 256, 257, 300, 1024, 40_000]);
        for ss in s.sessions.iter_mut() {
            if let Hs::Ok { rmax, .. } = &mut ss.hs {
                *rmax = m;
            }
        }
    }
    let big = r.chance(0.4);
    let z = *pick(r, &[5000u32, 16_300, 16_400, 33_000, 60_000]);
    let n_ = *pick(r, &[40u32, 70, 130, 260, 300]);
    let mut left = if big { 100 } else { 3 };
    for ss in s.sessions.iter_mut() {
        for a in ss.pre.iter_mut().chain(ss.acts.iter_mut()) {
            if let Act::Pub { n, size, gap, .. } | Act::SPub { n, size, gap, .. } = a {
                if left == 0 {
                    continue;
                }
                left -= 1;
                *gap = 0;
                if big {
                    *n = (*n).min(3);
                    *size = z;
                } else {
                    *n = n_;
                    *size = 0;
                }
            }
        }
    }
}

fn base(r: &mut Rng) -> CScn {
    CScn {
        cfg: CCfg {
            chan: *pick(r, &[1, 2, 4, 16, 128, 128]),
            auto_pid: r.chance(0.8),
            rmax: *pick(r, &[0, 0, 0, 1, 2, 5, 20]),
            empty_cid: r.chance(0.1),
            pingresp: r.chance(0.2),
            ka: *pick(r, &[30, 60, 60, 600]),
            ..Default::default()
        },
        knobs: knobs(r),
        ..Default::default()
    }
}
fn filt(r: &mut Rng) -> Vec<(u8, u16)> {
    let mut v: Vec<(u8, u16)> = vec![];
    for _ in 0..r.range(1, 3) {
        let t = *pick(r, &[0u8, 0, 1, 2, 4, 5, 6, 7]);
        if !v.iter().any(|x| x.0 == t) {
            v.push((t, *pick(r, &[1, 2, 8, 64])));
        }
    }
    v
}
fn win(r: &mut Rng) -> (usize, usize) {
    let f = |r: &mut Rng| *pick(r, &[0usize, 0, 0, 64, 300, 2000]);
    (f(r), f(r))
}
fn ok(r: &mut Rng) -> Hs {
    Hs::Ok { rmax: *pick(r, &[0, 0, 0, 1, 3, 10]), ka: None, delay: *pick(r, &[0, 0, 0, 40, 400]), forget: false }
}
fn wait(r: &mut Rng) -> Act {
    Act::Wait(*pick(r, &[1, 5, 20, 50, 100, 300, 1000]))
}
fn spub(r: &mut Rng, max: u64, qos: &[u8]) -> Act {
    Act::SPub { qos: *pick(r, qos), n: r.range(1, max) as u32, size: *pick(r, &[0, 0, 30, 300, 2000]), gap: *pick(r, &[0, 0, 0, 3, 30]) }
}
fn publ(r: &mut Rng, max: u64, qos: &[u8]) -> Act {
    Act::Pub { qos: *pick(r, qos), n: r.range(1, max) as u32, size: *pick(r, &[0, 0, 30, 300, 2000]), gap: *pick(r, &[0, 0, 0, 3, 30]) }
}
fn ackm(r: &mut Rng) -> AckM {
    match r.below(6) {
        0 => AckM::All,
        1 => AckM::Hold,
        2 => AckM::Delay(*pick(r, &[1, 20, 200, 1000])),
        3 | 4 => AckM::Nth(r.range(1, 5) as u32),
        _ => AckM::Fail(r.range(1, 5) as u32),
    }
}
fn stall(r: &mut Rng) -> Act {
    Act::Stall { cli: r.chance(0.5), ms: *pick(r, &[50, 300, 1500, 6000]) }
}
/// how a connection ends in the midst of things
fn hard(r: &mut Rng) -> CEnd {
    match r.below(12) {
        0 => CEnd::Stop,
        1 => CEnd::ProdDisc,
        2 | 3 => CEnd::SClose,
        4 | 5 => CEnd::SRst,
        6 => CEnd::SDisc(*pick(r, &[0x81, 0x8b, 0x8e, 0x98])),
        7 | 8 => CEnd::SCrash { lose: r.below(600) as usize },
        9 => CEnd::ResetBoth,
        10 => CEnd::Cut(r.range(1, 60) as usize),
        _ => CEnd::HalfOpenStop,
    }
}
fn any_end(r: &mut Rng) -> CEnd {
    match r.below(6) {
        0 => CEnd::Junk(pick(r, &["0000", "3605000161ffff", "30ffffffff7f", "0100"]).to_string()),
        1 => CEnd::Huge,
        2 => CEnd::Illegal(r.below(2) as u8),
        _ => hard(r),
    }
}
fn last(r: &mut Rng) -> CEnd {
    if r.chance(0.7) {
        CEnd::Stop
    } else {
        hard(r)
    }
}

// inbound traffic against a consumer that stops, lags and comes back
fn c01(r: &mut Rng) -> CScn {
    let mut s = base(r);
    if r.chance(0.5) {
        s.cfg.filt = filt(r);
    }
    s.cfg.ka = *pick(r, &[30, 60, 600]);
    let n = if r.chance(0.4) { 2 } else { 1 };
    for k in 0..n {
        let mut ss = CSess { win: win(r), hs: ok(r), settle: k + 1 == n || r.chance(0.3), gap: *pick(r, &[0, 0, 500]), ..Default::default() };
        for _ in 0..r.range(2, 12) {
            let a = match r.below(16) {
                0..=4 => spub(r, 12, &[0, 1, 1, 2, 2]),
                5 => Act::Pause,
                6 => Act::Resume,
                7 => Act::Slow(*pick(r, &[1, 20, 300])),
                8 => publ(r, 6, &[0, 1, 2]),
                9 => Act::Sub(1),
                10 => Act::Unsub(1),
                11 => Act::SPing,
                12 => stall(r),
                13 => Act::SAgain,
                _ => wait(r),
            };
            ss.acts.push(a);
        }
        if r.chance(0.15) {
            // long enough for a ping
            ss.acts.push(Act::Pause);
            ss.acts.push(spub(r, 12, &[0, 1]));
            ss.acts.push(publ(r, 4, &[0, 1]));
            ss.acts.push(Act::Wait(s.cfg.ka * 1000 + 3000));
        }
        ss.end = if r.chance(0.2) { CEnd::DropCons(r.below(s.cfg.filt.len() as u64 + 1) as u8) } else if k + 1 == n { last(r) } else { hard(r) };
        s.sessions.push(ss);
    }
    s
}

// acknowledgements of inbound traffic, both modes
fn c02(r: &mut Rng) -> CScn {
    let mut s = base(r);
    s.cfg.auto_ack = r.chance(0.55);
    if !s.cfg.auto_ack {
        s.cfg.chan = *pick(r, &[4, 16, 128]);
    }
    s.cfg.filt = if r.chance(0.2) { filt(r) } else { vec![] };
    let n = if r.chance(0.25) { r.range(2, 4) } else { 1 };
    for k in 0..n {
        let mut ss = CSess { win: win(r), hs: ok(r), settle: k + 1 == n, gap: *pick(r, &[0, 0, 300]), ..Default::default() };
        for _ in 0..r.range(2, 12) {
            let a = match r.below(18) {
                0..=5 => spub(r, 10, &[0, 1, 1, 2, 2, 2]),
                6 => publ(r, 6, &[0, 1, 2, 2]),
                7 if s.cfg.auto_ack => Act::SAgain,
                8 => Act::SHoldRel(r.chance(0.6)),
                9 => Act::Bogus(r.range(1, 30) as u16),
                10 if !s.cfg.auto_ack => Act::HoldApp(r.chance(0.6)),
                11 if r.chance(0.3) => Act::Slow(*pick(r, &[1, 30])),
                12 => Act::SAck(ackm(r)),
                13 => Act::SRelease { rev: r.chance(0.5) },
                14 if r.chance(0.3) => stall(r),
                15 => Act::Sub(1),
                _ => wait(r),
            };
            ss.acts.push(a);
        }
        ss.end = if k + 1 == n { last(r) } else { hard(r) };
        s.sessions.push(ss);
    }
    s
}

// inbound QoS 2 over breaking connections
fn c03(r: &mut Rng) -> CScn {
    let mut s = base(r);
    if r.chance(0.2) {
        s.cfg.filt = filt(r);
    }
    let n = r.range(1, 4);
    for k in 0..n {
        let mut ss = CSess { win: win(r), hs: ok(r), settle: k + 1 == n || r.chance(0.2), gap: *pick(r, &[0, 0, 200, 3000]), ..Default::default() };
        if k > 0 && r.chance(0.1) {
            ss.hs = Hs::Ok { rmax: 0, ka: None, delay: 0, forget: true };
        }
        if k > 0 && r.chance(0.08) {
            ss.clean = true;
        }
        for _ in 0..r.range(1, 8) {
            let a = match r.below(14) {
                0..=5 => spub(r, 6, &[1, 2, 2, 2, 2]),
                6 | 7 => Act::SAgain,
                8 => Act::SHoldRel(r.chance(0.6)),
                9 => stall(r),
                10 if r.chance(0.5) => Act::Pause,
                11 if r.chance(0.5) => Act::Resume,
                12 if r.chance(0.3) => Act::SReadStop,
                _ => wait(r),
            };
            ss.acts.push(a);
        }
        ss.end = if k + 1 == n { last(r) } else { hard(r) };
        s.sessions.push(ss);
    }
    s
}

// what the application sends
fn c04(r: &mut Rng, k: u64) -> CScn {
    let mut s = base(r);
    if k % 2000 == 1999 {
        return wrap(r, s);
    }
    let n = if r.chance(0.25) { 2 } else { 1 };
    for k in 0..n {
        let mut ss = CSess { win: win(r), hs: ok(r), settle: r.chance(0.5), gap: *pick(r, &[0, 0, 500]), ..Default::default() };
        if r.chance(0.3) {
            ss.pre.push(publ(r, 20, &[0, 1, 2]));
            if r.chance(0.3) {
                ss.pre.push(Act::Sub(2));
            }
        }
        for _ in 0..r.range(1, 12) {
            let a = match r.below(20) {
                0..=4 => publ(r, 30, &[0, 1, 1, 2]),
                5 => Act::Sub(r.range(1, 3) as u32),
                6 => Act::Unsub(r.range(1, 3) as u32),
                7 => Act::Ping,
                8 => spub(r, 6, &[0, 1, 2]),
                9 | 10 => Act::SAck(ackm(r)),
                11 => Act::SRelease { rev: r.chance(0.5) },
                12 => Act::SReadStop,
                13 => Act::SReadResume,
                14 => stall(r),
                15 => Act::PubId { qos: *pick(r, &[1, 2]), ahead: r.range(1, 12) as u16 },
                16 if r.chance(0.4) => Act::Pause,
                17 if r.chance(0.4) => Act::Resume,
                _ => wait(r),
            };
            ss.acts.push(a);
        }
        ss.end = if r.chance(0.75) { pick(r, &[CEnd::Stop, CEnd::Stop, CEnd::ProdDisc]).clone() } else { hard(r) };
        if k + 1 < n && r.chance(0.2) {
            ss.end = hard(r);
        }
        s.sessions.push(ss);
    }
    s
}
/// all identifiers once around, with some held in flight
fn wrap(r: &mut Rng, mut s: CScn) -> CScn {
    s.cfg = CCfg { chan: 1024, ..Default::default() };
    s.knobs = crate::bscn::Knobs { latency_us: 10, sched: *pick(r, &[0, 1]), reorder: 0.3, select_random: true, max_steps: 40_000_000, max_time_s: 3600 * 4, ..Default::default() };
    let q = *pick(r, &[1u8, 1, 2]);
    let acts = vec![
        Act::Pub { qos: q, n: r.range(0, 5) as u32, size: 0, gap: 0 },
        Act::Wait(500),
        Act::SAck(AckM::Hold),
        Act::Pub { qos: *pick(r, &[1, 2]), n: r.range(1, 6) as u32, size: 0, gap: 0 },
        Act::Wait(500),
        Act::SAck(AckM::All),
        Act::Pub { qos: 1, n: 65_530 + r.below(30) as u32, size: 0, gap: 0 },
        Act::Wait(30_000),
        Act::Pub { qos: 1, n: 10, size: 0, gap: 0 },
        Act::Wait(500),
    ];
    s.sessions.push(CSess { acts, settle: true, ..Default::default() });
    s
}

// the server's receive maximum
fn c05(r: &mut Rng) -> CScn {
    let mut s = base(r);
    s.cfg.auto_ack = r.chance(0.9);
    if !s.cfg.auto_ack {
        s.cfg.chan = 128;
    }
    let n = if s.cfg.auto_ack && r.chance(0.3) { 2 } else { 1 };
    for k in 0..n {
        let hs = Hs::Ok { rmax: *pick(r, &[1, 1, 2, 3, 5, 10, 30]), ka: None, delay: 0, forget: false };
        let mut ss = CSess { win: win(r), hs, settle: r.chance(0.7), ..Default::default() };
        if r.chance(0.3) {
            ss.pre.push(publ(r, 30, &[0, 1, 2]));
        }
        for _ in 0..r.range(1, 10) {
            let a = match r.below(16) {
                0..=5 => publ(r, 40, &[0, 1, 1, 2, 2]),
                6..=8 => Act::SAck(ackm(r)),
                9 => Act::SRelease { rev: r.chance(0.5) },
                10 => spub(r, 6, &[0, 1, 2]),
                11 => Act::Sub(1),
                12 if r.chance(0.3) => stall(r),
                13 if r.chance(0.2) => Act::SReadStop,
                14 if r.chance(0.3) => Act::Pause,
                _ => wait(r),
            };
            ss.acts.push(a);
        }
        if r.chance(0.1) {
            // pings go on
            ss.acts.push(Act::SAck(AckM::Hold));
            ss.acts.push(publ(r, 40, &[1, 2]));
            ss.acts.push(Act::Wait(s.cfg.ka.min(60) * 1000 + 4000));
        }
        ss.end = if k + 1 == n { last(r) } else { hard(r) };
        s.sessions.push(ss);
    }
    s
}

// the clock
fn c06(r: &mut Rng) -> CScn {
    let mut s = base(r);
    s.cfg.ka = *pick(r, &[30, 31, 60, 90, 65_535, 70_000]);
    s.cfg.ka_on = r.chance(0.85);
    let ka = if r.chance(0.6) { Some(*pick(r, &[0, 1, 2, 5, 20, 40, 120, 65_535])) } else { None };
    let hs = Hs::Ok { rmax: *pick(r, &[0, 0, 2]), ka, delay: 0, forget: false };
    let mut ss = CSess { win: (0, win(r).1), hs, settle: false, ..Default::default() };
    let iv = ka.map(|k| if k == 0 { s.cfg.ka } else { k as u32 }).unwrap_or(s.cfg.ka).min(120) * 1000;
    let mut total = 0u32;
    let lim = (iv * 6).clamp(20_000, 500_000);
    while total < lim && ss.acts.len() < 25 {
        // near the interval, about half of it, anything
        let d = match r.below(5) {
            0 => iv.saturating_sub(r.below(1500) as u32),
            1 => iv + r.below(500) as u32,
            2 => iv / 2 + r.below(500) as u32,
            3 => iv * 3,
            _ => r.below(iv as u64 + 1) as u32,
        };
        total += d;
        match r.below(10) {
            0..=2 => {
                // a stream from the server
                let gap = (*pick(r, &[iv / 3, iv / 2, iv / 4, iv * 9 / 10])).max(1);
                let n = (d / gap).clamp(1, 20);
                ss.acts.push(Act::SPub { qos: *pick(r, &[0, 0, 0, 1]), n, size: 0, gap });
            }
            3..=4 => {
                let gap = (*pick(r, &[iv / 3, iv / 2, iv * 9 / 10])).max(1);
                ss.acts.push(Act::Pub { qos: *pick(r, &[0, 1, 2]), n: (d / gap).clamp(1, 10), size: 0, gap });
            }
            5 => {
                ss.acts.push(Act::Pause);
                ss.acts.push(spub(r, 10, &[0, 1]));
                ss.acts.push(Act::Wait(d));
                if r.chance(0.6) {
                    ss.acts.push(Act::Resume);
                }
            }
            6 => {
                ss.acts.push(Act::SAck(ackm(r)));
                ss.acts.push(publ(r, 5, &[1, 2]));
                ss.acts.push(Act::Wait(d));
            }
            7 if r.chance(0.5) => ss.acts.push(Act::Stall { cli: false, ms: d.min(60_000) }),
            8 => ss.acts.push(Act::Ping),
            _ => ss.acts.push(Act::Wait(d)),
        }
    }
    ss.end = CEnd::Stop;
    s.sessions.push(ss);
    s
}

// starting
fn c07(r: &mut Rng) -> CScn {
    let mut s = base(r);
    s.cfg.wait = *pick(r, &[100, 500, 1000, 2000, 5000]);
    for _ in 0..r.range(1, 4) {
        let d = s.cfg.wait;
        let delay = match r.below(6) {
            0..=2 => 0,
            3 => d / 2,
            4 => d + r.below(400) as u32 - 200.min(d),
            _ => d * 2,
        };
        let hs = match r.below(12) {
            0..=2 => Hs::Ok { rmax: 0, ka: None, delay, forget: r.chance(0.2) },
            3 => Hs::Silent,
            4 | 5 => Hs::Refuse { reason: *pick(r, &[0x80, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x97, 0x9f]), delay, close: r.chance(0.7) },
            6 => Hs::Close { delay },
            7 => Hs::Rst { delay },
            8 | 9 => Hs::Partial { keep: r.range(1, 16) as usize, delay, then: r.below(3) as u8 },
            10 => Hs::Other { kind: r.below(4) as u8, delay },
            _ => Hs::CloseAtOnce,
        };
        let mut ss = CSess {
            hs,
            gap: *pick(r, &[0, 0, 300]),
            clean: r.chance(0.3),
            fresh: false,
            try_wait: if r.chance(0.7) { Some(*pick(r, &[50, 200, 1000, 3000, 10_000])) } else { None },
            net: *pick(r, &[0, 0, 0, 0, 0, 0, 1, 2]),
            win: if r.chance(0.3) { (*pick(r, &[0, 8, 64]), *pick(r, &[0, 1, 8])) } else { (0, 0) },
            ..Default::default()
        };
        if r.chance(0.3) {
            ss.pre.push(publ(r, 5, &[0, 1]));
        }
        if r.chance(0.5) {
            ss.acts.push(publ(r, 4, &[0, 1, 2]));
            ss.acts.push(wait(r));
        }
        ss.end = last(r);
        s.sessions.push(ss);
    }
    s
}

// ends
fn c08(r: &mut Rng) -> CScn {
    let mut s = base(r);
    let n = if r.chance(0.3) { 2 } else { 1 };
    for _ in 0..n {
        let mut ss = CSess { win: win(r), hs: ok(r), settle: r.chance(0.1), gap: *pick(r, &[0, 300]), ..Default::default() };
        for _ in 0..r.range(0, 8) {
            let a = match r.below(18) {
                0..=3 => publ(r, 30, &[0, 0, 1, 2]),
                4..=6 => spub(r, 20, &[0, 1, 2]),
                7 => Act::Pause,
                8 => Act::SReadStop,
                9 => stall(r),
                10 => Act::SAck(ackm(r)),
                11 => Act::Sub(2),
                12 => Act::Slow(30),
                13 => Act::Bogus(3),
                14 => Act::SHoldRel(true),
                _ => wait(r),
            };
            ss.acts.push(a);
        }
        if r.chance(0.15) {
            // more than anybody takes
            ss.acts.push(Act::SReadStop);
            ss.acts.push(Act::Pub { qos: *pick(r, &[0, 1]), n: 40, size: 2500, gap: 0 });
            ss.acts.push(wait(r));
        }
        ss.end = if r.chance(0.1) {
            CEnd::DropCons(0)
        } else if r.chance(0.25) {
            CEnd::Stop
        } else {
            any_end(r)
        };
        s.sessions.push(ss);
    }
    s
}

// reconnecting with what has not been acknowledged
fn c09(r: &mut Rng) -> CScn {
    let mut s = base(r);
    let n = r.range(2, 5);
    if r.chance(0.12) {
        s.cfg.auto_ack = false;
        s.cfg.chan = 128;
    }
    for k in 0..n {
        let mut ss = CSess { win: win(r), hs: ok(r), settle: k + 1 == n || r.chance(0.15), gap: *pick(r, &[0, 0, 200, 3000]), ..Default::default() };
        if k > 0 && r.chance(0.1) {
            if let Hs::Ok { forget, .. } = &mut ss.hs {
                *forget = true;
            }
            ss.fresh = r.chance(0.3);
        }
        if k > 0 && r.chance(0.1) {
            ss.clean = true;
            ss.fresh = r.chance(0.3);
        }
        if k > 0 && k + 1 < n && r.chance(0.15) {
            // an attempt that fails
            ss.hs = match r.below(4) {
                0 => Hs::Refuse { reason: 0x88, delay: 0, close: true },
                1 => Hs::Close { delay: 0 },
                2 => Hs::Partial { keep: 3, delay: 0, then: 0 },
                _ => Hs::Rst { delay: 0 },
            };
        }
        if r.chance(0.2) {
            ss.pre.push(publ(r, 8, &[0, 1, 2]));
        }
        for _ in 0..r.range(1, 8) {
            let a = match r.below(14) {
                0..=4 => publ(r, 8, &[0, 1, 1, 2, 2]),
                5..=7 => Act::SAck(ackm(r)),
                8 => Act::SRelease { rev: r.chance(0.5) },
                9 => stall(r),
                10 if r.chance(0.3) => Act::SReadStop,
                11 => spub(r, 5, &[1, 2]),
                12 => Act::PubId { qos: *pick(r, &[1, 2]), ahead: r.range(1, 8) as u16 },
                _ => wait(r),
            };
            ss.acts.push(a);
        }
        ss.end = if k + 1 == n { last(r) } else { hard(r) };
        s.sessions.push(ss);
    }
    s
}

// what the CONNECT says
fn c10(r: &mut Rng) -> CScn {
    let mut s = base(r);
    s.cfg.empty_cid = r.chance(0.25);
    s.cfg.ka = *pick(r, &[30, 31, 60, 600, 65_534, 65_535, 65_536, 100_000]);
    s.cfg.rmax = *pick(r, &[0, 0, 1, 2, 255, 256, 65_534, 65_535]);
    s.cfg.rmax0 = s.cfg.rmax == 0 && r.chance(0.2);
    s.cfg.auto_ack = r.chance(0.9);
    let n = r.range(1, 6);
    for k in 0..n {
        let mut ss = CSess { gap: *pick(r, &[0, 0, 200, 3000]), ..Default::default() };
        ss.hs = match r.below(12) {
            0 => Hs::Refuse { reason: *pick(r, &[0x80, 0x86, 0x88]), delay: 0, close: r.chance(0.7) },
            1 => Hs::Close { delay: 0 },
            2 => Hs::Partial { keep: r.range(1, 8) as usize, delay: 0, then: r.below(2) as u8 },
            _ => Hs::Ok {
                rmax: *pick(r, &[0, 0, 1, 10]),
                ka: *pick(r, &[None, None, Some(0), Some(1), Some(7), Some(40), Some(65_535)]),
                delay: *pick(r, &[0, 0, 40]),
                forget: k > 0 && r.chance(0.15),
            },
        };
        ss.clean = r.chance(0.3);
        ss.fresh = r.chance(0.2);
        ss.try_wait = *pick(r, &[None, None, Some(3000)]);
        ss.auth = *pick(r, &[0, 0, 1, 2, 3, 4, 5]);
        if ss.auth != 4 && r.chance(0.3) {
            ss.win = win(r);
        }
        if r.chance(0.6) {
            ss.will = Some(WillSpec {
                topic: s_(*pick(r, &["w", "w/x/y", "\u{e4}/\u{1f511}", "W/Upper"])),
                qos: r.below(3) as u8,
                retain: r.chance(0.4),
                delay: *pick(r, &[0, 0, 1, 300, u32::MAX]),
                size: 0,
                pm: r.below(256) as u8,
            });
        }
        ss.exp = *pick(r, &[None, None, Some(0), Some(1), Some(60), Some(3600), Some(u32::MAX)]);
        ss.sexp = *pick(r, &[None, None, None, Some(0), Some(5), Some(1000), Some(u32::MAX)]);
        ss.keep = k > 0 && r.chance(0.4);
        for _ in 0..r.below(4) {
            let a = match r.below(4) {
                0 => publ(r, 4, &[0, 1, 2]),
                1 => spub(r, 4, &[0, 1, 2]),
                _ => wait(r),
            };
            ss.acts.push(a);
        }
        ss.end = if k + 1 == n { last(r) } else if r.chance(0.3) { CEnd::Stop } else { hard(r) };
        s.sessions.push(ss);
    }
    s
}
fn s_(x: &str) -> String {
    x.to_string()
}
